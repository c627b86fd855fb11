#!/bin/bash
# usage: fix.sh PROPERTY "what failed"  -- runs tests, commits /repo's change as fix:, records it
set -e
bash /verif/tools/rt.sh
cd /repo
python3 - <<'P'
import json
a=json.load(open('/tmp/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
raise SystemExit(1 if set(b['stable'])-set(a['passed']) else 0)
P
git commit -qam "fix: $2"
echo "fixed: property=$1 $(git rev-parse --short HEAD) $2" >> /verif/known_findings.jsonl
git log --oneline | head -1
