#!/bin/bash
# check.sh PROPERTY quick|thorough
# Re-derives every obligation of PROPERTY from /repo's current source.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}"
[ -x bin/goverify ] || bash setup.sh || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off CGO_ENABLED=0
exec bin/goverify -check -prop "$1" -tier "${2:-quick}"
