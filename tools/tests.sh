#!/bin/bash
# dev: run the repository's tests on /repo and compare with the baseline
bash /opt/vp/test.sh /tmp/tests.json > /tmp/tests.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/tests.json'))
st=b.get('stable') or b.get('passed') or b
tp=set(t.get('passed',[])); miss=[x for x in st if x not in tp]
print('baseline',len(st),'passed',len(tp),'missing',miss, 'failed', t.get('failed'))
P
