#!/bin/bash
# tryseed.sh ID [notest]: demo on the clean tree, apply, tests, demo, check, revert
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 2
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash $S/demo.sh >/tmp/demo.out 2>&1; echo "demo clean: $?"
git -C /repo apply $S/patch.diff || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1
if [ -z "$2" ]; then bash /opt/vp/test.sh /tmp/t.json >/tmp/t.out 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('tests: failing stable =', [x for x in b['stable'] if x not in t['passed']][:5])
P
fi
bash $S/demo.sh >/tmp/demo.out 2>&1; echo "demo patched: $?"
( cd /verif; timeout 900 ./check $P ) | tail -4; 
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
git -C /repo status --short
