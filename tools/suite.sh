#!/bin/bash
# Builds /repo and runs its test suite; prints the stable tests that do not pass.
set -e
bash /opt/vp/build.sh >/tmp/suite_build.log 2>&1 || { tail -20 /tmp/suite_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/suite_out.json >/tmp/suite_test.log 2>&1 || true
python3 - <<'P'
import json
o=json.load(open('/tmp/suite_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print('suite: %d stable, missing %d %s'%(len(b['stable']),len(m),m[:20]))
raise SystemExit(1 if m else 0)
P
