#!/bin/bash
# Runs the check of each planted bug (arguments, or all) on /repo with the bug applied.
# The results are kept in tools/catch.txt.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$SECONDS
  out=$(timeout 900 ./check $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m1 VIOLATION)"
  touch tools/catch.txt; sed -i "/^$d /d" tools/catch.txt; echo "$d $p rc=$rc" >> tools/catch.txt
done
