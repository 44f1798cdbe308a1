#!/bin/bash
# trybugs.sh [ID..]: which planted bugs does the check of their property catch?
cd "$(dirname "$0")/.." || exit 1
[ -n "$(git -C /repo status --short)" ] && { echo "/repo is not clean"; exit 1; }
for d in ${*:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || continue
  s=$(date +%s)
  python3 check.py $p --tier ${TIER:-quick} > /tmp/trybug.$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  n=$(grep -c "^VIOLATION property=$p " /tmp/trybug.$d.log)
  [ $rc = 1 ] && [ $n -gt 0 ] && r=CAUGHT || r="MISSED(rc=$rc)"
  echo "$d $p $r $(( $(date +%s) - s ))s $(tail -1 /tmp/trybug.$d.log | grep -o '[0-9]* violations')"
done
