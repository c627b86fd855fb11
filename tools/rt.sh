#!/bin/bash
# runs the repository's tests quietly and says which stable tests fail
bash /opt/vp/test.sh /tmp/out.json >/tmp/rt.log 2>&1
python3 - <<'P'
import json
a=json.load(open('/tmp/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
bad=sorted(set(b['stable'])-set(a['passed']))
print('stable failing:',len(bad),bad[:10])
P
