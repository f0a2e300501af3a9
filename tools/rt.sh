#!/bin/bash
# runs the stable tests of /repo and compares with the baseline
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def passed(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k])
    return set()
s=passed(b); p=passed(r)
print("baseline",len(s),"passed",len(p),"missing",sorted(s-p)[:5], {k:(v if not isinstance(v,list) else len(v)) for k,v in r.items()})
P
