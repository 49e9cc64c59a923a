#!/bin/bash
# run the repo tests and compare with the stable list
bash /opt/vp/test.sh /tmp/retest.json >/tmp/retest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/retest.json'))
st=b.get('stable_pass') or b.get('stable') or b
print({k:type(v).__name__ for k,v in b.items()} if not isinstance(st,list) else '')
ps=set(r.get('passed') or r.get('pass') or [])
if isinstance(st,list): print('stable',len(st),'missing',[x for x in st if x not in ps][:20])
P
