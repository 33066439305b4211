#!/bin/bash
# tryseeds.sh [ID...]: applies each planted bug to a scratch copy of /repo, runs its property's check on it.
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=/tmp/tryseeds.$$; rm -rf "$d"; cp -a /repo "$d"
  git -C "$d" apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 bin/goverify -check -prop "$p" -tier quick -repo "$d" 2>&1); rc=$?
  rm -rf "$d"
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -o 'VIOLATION.*' <<<"$out" | head -1)"
done
