#!/bin/bash
# seedtest.sh ID: confirms one planted change in a scratch copy of /repo (prints what fails).
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$id
S=${SEED_SCRATCH:-/tmp/seedscratch}
[ -d $S ] || cp -a /repo $S
cd $S && git checkout -q -- . && git clean -fdq contracts packages
export DEMO_TARGET=/tmp/demotarget
bash $d/demo.sh >/tmp/demo_$id.log 2>&1 || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/demo_$id.log; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
. /opt/vp/env.sh
(cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8; cargo test --workspace --doc --no-fail-fast --offline -- --test-threads 8) >/tmp/test_$id.log 2>&1
python3 /opt/vp/results.py /tmp/test_$id.json "cargo:/tmp/test_$id.log" >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/test_$id.json'))
bl=b.get('passed') or b.get('stable') or b.get('tests') or []
p=set(r.get('passed',[]))
miss=[t for t in bl if t not in p]
print("$id: tests", "ok" if not miss else "FAIL %s"%miss[:5], len(bl))
P
bash $d/demo.sh >/tmp/demo_$id.log 2>&1 && echo "$id: demo PASSES with the change" || { echo "$id: demo fails with the change (good)"; tail -3 /tmp/demo_$id.log; }
git checkout -q -- .
