#!/bin/bash
# trybugs.sh [ids...]: apply each planted bug to /repo, run its property's check, undo
cd /verif; ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  python3 check.py $p > /tmp/vx/try_$i.txt 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$i rc=$rc $(grep -c '^failed obligation' /tmp/vx/try_$i.txt) failed obl; undecided $(grep -c '^undecided' /tmp/vx/try_$i.txt); $(grep VIOLATION /tmp/vx/try_$i.txt)"
done
