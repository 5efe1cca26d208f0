#!/bin/bash
# Build /repo, run its tests, list baseline tests that do not pass.
bash /opt/vp/build.sh >/tmp/vpbuild.log 2>&1 || { tail -40 /tmp/vpbuild.log; exit 1; }
bash /opt/vp/test.sh /tmp/vpout.json >/tmp/vptest.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vpout.json'))
k=[x for x in b if isinstance(b[x],list)]
base=set(b.get('passed') or b[k[0]])
m=base-set(o['passed'])
print("missing",len(m)); print("\n".join(sorted(m)))
PY
