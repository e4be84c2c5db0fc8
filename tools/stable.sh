#!/bin/bash
# builds /repo and runs the stable tests; prints the missing ones
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/o.json'))['passed']
m=[t for t in b if t not in o]
print(len(b),"stable;","missing:",m); sys.exit(bool(m))
P
