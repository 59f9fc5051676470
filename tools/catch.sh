#!/bin/bash
# catch.sh [ids]: applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  o=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -E 'VIOLATION' | head -1)"; echo "$o" | grep -E '^counterexample|^failed obl|undecided' | cut -c1-260 | head -6
done
