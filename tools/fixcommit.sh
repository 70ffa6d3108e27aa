#!/bin/bash
# fixcommit.sh MESSAGE: run the stable tests, then commit /repo's changes.
set -e
bash /opt/vp/test.sh /tmp/fix.json >/tmp/fix.log 2>&1 || true
/opt/venv/bin/python - <<'P'
import json,sys
r=json.load(open('/tmp/fix.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(r.get('passed', [k for k,v in r.items() if v=='passed']) if isinstance(r,dict) else r)
miss=[t for t in b if t not in p]
print('missing', miss); sys.exit(bool(miss))
P
git -C /repo commit -qam "$1"; git -C /repo log --oneline | head -1
