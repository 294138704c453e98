#!/bin/bash
# seedrun.sh [ID...]: applies planted bugs to /repo one at a time and runs the quick check of their property
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 ./check.py --property $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-200)"
done
