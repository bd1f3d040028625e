#!/bin/bash
# runs the stable tests and prints which fail
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
m=set(b['stable'])-set(o['passed']); print(len(o['passed']),'passed; missing', len(m)); [print(' ',x) for x in sorted(m)[:40]]
P
