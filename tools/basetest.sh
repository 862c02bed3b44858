#!/bin/bash
# Build /repo and run its tests; report stable tests that do not pass.
bash /opt/vp/build.sh >/tmp/bt_build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/bt_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/bt_out.json >/tmp/bt_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=json.load(open('/tmp/bt_out.json'))
p=set(o.get('passed') or [k for k,v in o.items() if v=='passed'])
miss=[t for t in b if t not in p]
print(len(b),'stable,',len(miss),'not passing'); print('\n'.join(miss[:20]))
P
git -C /repo status --short
