#!/bin/bash
# tryseed.sh ID...: (inside ns.sh) run the check of each planted bug's property with the bug applied
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(python3 tools/check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id $p rc=$rc $(echo "$out" | grep -E '^VIOLATION' )"
  echo "$out" | grep -E '^(failing input|failed obligation|bounded only|note)' | cut -c1-260 | head -6
done
