#!/bin/bash
# Builds the verifier (engine/) into /verif/bin. Offline; dependencies vendored.
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}"
mkdir -p ../bin
go build -buildvcs=false -o ../bin/goverify .
