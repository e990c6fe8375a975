#!/bin/bash
# trybugs.sh [ID...]: run each planted bug's property check against it (applied to /repo, undone straight after)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  o=$(timeout 900 python3 run.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$o" | grep -E '^  ' | head -2 | cut -c1-150 | tr '\n' ';')"
done
