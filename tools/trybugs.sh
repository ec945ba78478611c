#!/bin/bash
# trybugs.sh [ids...]: runs the property's quick check against each planted bug (applied to /repo, undone afterwards)
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLY"; continue; }
  s=$(date +%s); python3 check.py $p > /tmp/bug_$i.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(grep -hE 'VIOLATION|PROBLEM' /tmp/bug_$i.log | head -2 | cut -c1-140)"
done
