#!/bin/bash
# seedcheck.sh ID [nocheck]: demo on the clean tree, apply, build, test, demo, check, undo
ID=$1; D=/verif/seeded/$ID; cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "clean build failed"; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/seed.clean 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 && echo "build ok" || echo "BUILD FAILED"
SECONDS=0; timeout 300 bash $D/demo.sh >/tmp/seed.bug 2>&1; echo "demo with bug: $? ($SECONDS s): $(tail -1 /tmp/seed.bug)"
if [ "$2" != nocheck ]; then
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else json.load(open('/opt/vp/BASELINE.json'))['passed'])
r=json.load(open('/tmp/seed.json')); p=set(r['passed'])
print("stable tests: %d of %d pass"%(len(b&p),len(b)), sorted(b-p)[:5])
P
fi
cd /verif; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
python3 run.py check ${3:-$P} > /tmp/seed.check 2>&1; echo "check $P: $?"; grep -v "^note" /tmp/seed.check | tail -8
git -C /repo checkout -- .
