#!/bin/bash
# build + run the repository's tests; prints failures relative to the baseline
set -e
bash /opt/vp/build.sh >/tmp/rt.log 2>&1 || { tail -30 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt2.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x and isinstance(x[k],list): return set(map(str,x[k]))
    return None
bp,rp=names(b),names(r)
print('baseline',len(bp),'passed now',len(rp),'missing',sorted(bp-rp)[:10])
P
