#!/bin/bash
# buildall.sh id...: apply all given planted bugs at once, build, run the stable tests, undo
cd /verif; for i in "$@"; do git -C /repo apply /verif/seeded/$i/patch.diff || echo "$i does not apply"; done
bash /opt/vp/build.sh > /tmp/build.log 2>&1; echo build $?; bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
git -C /repo checkout -q -- .
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json')); p=set(o['passed']); print('stable failing:', [x for x in b['stable'] if x not in p])
P
