#!/bin/bash
# applies each seeded change to /repo in turn, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "seeded/$d/patch.diff" 2>/dev/null || git -C /repo apply "/verif/seeded/$d/patch.diff" || continue
  out=$(timeout 900 ./check.py $p quick); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | tail -1 | cut -c1-200)"
done
