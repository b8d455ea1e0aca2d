#!/bin/bash
# seeded.sh id...: run the check of each planted change (development aid)
cd /verif
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: no apply"; continue; }
  ./check.py $p >/tmp/seeded.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "== $i $p rc=$rc"; grep -E "failing|VIOL|undisch|ERROR" /tmp/seeded.out | cut -c1-260 | head -5
done
