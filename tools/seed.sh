#!/bin/bash
# usage: seed.sh ID PROPERTY "needs" "what it breaks"    (demo.cc and patch.diff already in seeded/ID)
set -e
d=/verif/seeded/$1
cp -rL /verif/shim $d/
[ -f $d/demo.sh ] || cp /verif/tools/demo/demo.sh $d/demo.sh
chmod +x $d/demo.sh
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open('/verif/seeded/%s/meta.json'%i,'w'),indent=1)
P
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
echo "== unchanged"; if bash $d/demo.sh > /tmp/demo.log 2>&1; then echo "demo ok"; else echo "DEMO FAILS UNCHANGED"; tail -5 /tmp/demo.log; exit 1; fi
git apply $d/patch.diff
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { echo BUILD FAILS; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/test.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
print('missing tests', [x for x in b['stable'] if x not in t['passed']])
P
if bash $d/demo.sh > /tmp/demo.log 2>&1; then echo "DEMO PASSES WITH PATCH"; tail -3 /tmp/demo.log; else echo "demo fails with patch: $?"; tail -3 /tmp/demo.log; fi
for c in ${CHECKS:-$2}; do
if [ -f /verif/checks/$c.cc ]; then cd /verif; rc=0; timeout 900 ./run $c --tier quick > /tmp/check.log 2>&1 || rc=$?; echo "$c rc=$rc"; grep -m2 VIOLATION /tmp/check.log || true; fi
done
