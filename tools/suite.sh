#!/bin/sh
# rebuilds /repo and runs its suite; prints how many of the stable tests do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1; bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 -c "
import json
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set(json.load(open('/tmp/o.json'))['passed'])
print(len(st),'stable,',len(st-ok),'failing',sorted(st-ok)[:5])"
