#!/bin/bash
# dev: apply each planted bug to /repo, run its property's check, undo. runbugs.sh [ID...]
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  out=$(timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id rc=$rc $(echo "$out" | grep -E '^VIOLATION' | head -3 | tr '\n' ' ')"
done
