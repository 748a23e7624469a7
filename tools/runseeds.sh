#!/bin/bash
# runseeds.sh [ID..]: apply each planted bug in turn and run its property's check
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  t0=$(date +%s)
  timeout 900 /opt/venv/bin/python check.py $p > /tmp/seed-$d.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c 'no-failing' /tmp/seed-$d.log) $(grep 'broken:' /tmp/seed-$d.log | head -1 | cut -c1-150)"
done
