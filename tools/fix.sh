#!/bin/bash
# usage: fix.sh "message"   commits the working tree change of /repo as a fix after building and testing
set -e
cd /repo
git diff --stat
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/test.log 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
miss=[x for x in b['stable'] if x not in t['passed']]
print('tests', len(t['passed']), 'missing', miss)
sys.exit(1 if miss else 0)
P
git commit -qam "fix: $1" && git log --oneline | head -1
