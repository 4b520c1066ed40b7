#!/bin/bash
# trybug.sh SEED_ID : apply the seed to /repo, run its demo and its property's quick check, undo.
d=/verif/seeded/$1; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo dirty; exit 2; }
if [ -z "$NODEMO" ]; then
[ -z "$SKIPCLEAN" ] && { bash $d/demo.sh >/tmp/demo.clean.log 2>&1; echo "demo clean: $?"; }
git apply --check $d/patch.diff || exit 3
git apply $d/patch.diff; bash $d/demo.sh >/tmp/demo.bug.log 2>&1; echo "demo with bug: $?"; tail -3 /tmp/demo.bug.log
else git apply $d/patch.diff || exit 3; fi
(cd /verif && time bash run.sh $p ${2:-quick}) 2>&1 | grep -v "^user\|^sys\|^$" | tail -${T:-14}
git checkout -- . ; git status --short
