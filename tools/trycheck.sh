#!/bin/bash
# usage: trycheck.sh ID CHECK...   runs checks against a copy of the repository with the patch
[ -d /tmp/swc ] || cp -a /repo /tmp/swc
cd /tmp/swc && git checkout -q -- . && git apply /verif/seeded/$1/patch.diff || exit 1
cd /verif; id=$1; shift
for c in "$@"; do s=$(date +%s); VERIF_REPO=/tmp/swc nice timeout 900 ./run $c --tier quick > /tmp/tc_$id.log 2>&1; echo "$id $c rc=$? $(( $(date +%s) - s )) s"; grep -m1 VIOLATION /tmp/tc_$id.log; grep -m3 -i "known-finding\|internal" /tmp/tc_$id.log; done
cd /tmp/swc && git checkout -q -- .
