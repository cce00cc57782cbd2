#!/bin/bash
# build /repo, run its tests, compare with the baseline
bash /opt/vp/build.sh > /tmp/stable_build.log 2>&1 || { tail -20 /tmp/stable_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/stable.json > /tmp/stable_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/stable.json'))
p=set(t.get('passed',[])); s=b['stable']
bad=[x for x in s if x not in p]
print('stable',len(s),'failing now',len(bad),bad[:20]); raise SystemExit(1 if bad else 0)
P
