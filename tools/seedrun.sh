#!/bin/bash
# seedrun.sh [ID...]: runs the check of each planted change against it.
cd /verif
for id in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); out=$(python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION | head -1 | cut -c1-110)"
  cp replays/$p-1.txt /tmp/replay-$id.txt 2>/dev/null
done
