. /tmp/env.sh
bash /opt/vp/build.sh 2>&1 | tail -5; bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1; python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))
p=set(t['passed']); miss=[x for x in b if x not in p]
print('passed',len(p),'missing',len(miss), miss[:20])
P
