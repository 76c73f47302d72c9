#!/bin/bash
# seedcheck.sh ID...: applies each planted change to /repo, runs its property's quick check, and undoes it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id no apply"; continue; }
  python3 $V/tools/check.py $p --tier quick >/tmp/seedcheck_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/seedcheck_$id.log; then echo "$id ($p): caught: $(grep '^violated' /tmp/seedcheck_$id.log | head -2 | tr '\n' ' ')"; else echo "$id ($p): MISSED rc=$rc: $(tail -2 /tmp/seedcheck_$id.log)"; fi
done
