#!/bin/bash
# applies each planted change to /repo in turn, runs the check of its property, and undoes the change
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  t=$(date +%s); out=$(python3 run.py $p quick 2>/dev/null); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -E '^(VIOLATION|PASS|ERROR)' | head -1)"
  echo "$out" | grep -E "^(FAILED|UNDECIDED)" | head -${SHOW:-0}
done
