#!/bin/bash
# Run the property's check on each planted bug, in a scratch copy of /repo. (authoring tool)
cd /verif || exit 1
W=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
export C8S_REPO="$W/repo" C8S_CACHE="$W/cache" C8S_EVIDENCE="$W/evidence"
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C "$W/repo" apply "/verif/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  s=$(date +%s); o=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>"$W/err"); rc=$?
  git -C "$W/repo" checkout -q -- .
  echo "== $d $p rc=$rc $(( $(date +%s) - s ))s"; echo "$o" | cut -c1-260; grep -h 'reach' "$W/err" | cut -c1-200
done
