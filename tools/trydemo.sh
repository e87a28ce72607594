#!/bin/bash
# usage: trydemo.sh ID   runs the demonstration in a copy of the repository, without and with the patch
d=/verif/seeded/$1; cp -rL /verif/shim $d/; [ -f $d/demo.sh ] || cp /verif/tools/demo/demo.sh $d/demo.sh; chmod +x $d/demo.sh
cd /tmp/sw && git checkout -q -- . || exit 1
nice bash $d/demo.sh > /tmp/td.log 2>&1; echo "$1 unchanged rc=$?"; tail -3 /tmp/td.log
git apply $d/patch.diff || exit 1
nice bash $d/demo.sh > /tmp/td.log 2>&1; echo "$1 patched rc=$?"; grep -v '^\[' /tmp/td.log | tail -3
git checkout -q -- .
