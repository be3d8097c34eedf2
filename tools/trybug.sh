#!/bin/bash
# trybug.sh ID [-q] : apply a planted bug, build, stable tests, demo, the property's check, revert
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
if [ "$2" != -q ]; then (bash $D/demo.sh >/tmp/tb.log 2>&1; echo "demo on clean tree: $?"; tail -2 /tmp/tb.log); fi
git apply $D/patch.diff || exit 2
if [ "$2" != -q ]; then bash /opt/vp/build.sh > /tmp/tb.log 2>&1 || { echo BUILD FAILS; tail -5 /tmp/tb.log; }
bash /opt/vp/test.sh /tmp/tb.json | tail -1; python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json')); L=b if isinstance(b,list) else b.get('passed') or b.get('stable') or list(b.values())[0]
print('stable tests now failing:', [t for t in L if t not in r['passed']])"
bash $D/demo.sh >/tmp/tb.log 2>&1; echo "demo with bug: $?"; tail -2 /tmp/tb.log; fi
(cd /verif; python3 check.py $P --tier quick 2>&1 | grep -v '^  {' | cut -c1-400 | tail -8)
git checkout -q -- .; git status --short --untracked-files=no
[ "$2" != -q ] && bash /opt/vp/build.sh > /dev/null 2>&1
