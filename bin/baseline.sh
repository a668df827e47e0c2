#!/bin/bash
# baseline.sh: rebuild /repo and run its own tests; prints the stable tests that do not pass.
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json > /tmp/t.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
p=set(o.get('passed',[])) if isinstance(o.get('passed'),list) else None
bad=[t for t in b['stable'] if t not in p]
print(len(p),'passed; stable failing:',bad)
P
