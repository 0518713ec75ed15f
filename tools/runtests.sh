#!/bin/bash
# run the repository's test suite and compare with the stable baseline
bash /opt/vp/test.sh /tmp/vtest_out.json >/tmp/vtest_log.txt 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/vtest_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x, keys):
    for k in keys:
        if k in x: 
            v=x[k]; return set(v if isinstance(v,list) else v.keys())
    return None
print(list(d.keys()), list(b.keys()))
base=names(b,['stable_pass','passed','stable','tests']); got=names(d,['passed'])
print('missing from passed:', sorted(base-got) if base and got else (base is None, got is None))
P
