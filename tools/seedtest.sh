#!/bin/bash
# Development aid. seedtest.sh ID [PROPERTY...]: confirms a planted bug in a scratch copy of /repo and runs the checks on it.
ID=$1; shift; S=/verif/seeded/$ID; W=/dev/shm/sw
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -- . && git -C $W checkout -q FETCH_HEAD || exit 9
P=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
if [ -z "$ONLYCHECK" ]; then
bash /dev/shm/sw_build.sh >/dev/shm/sw_build.log 2>&1 || { echo "$ID: clean build fails"; exit 9; }
(cd $W && timeout 300 bash $S/demo.sh >/dev/shm/sw_demo0.log 2>&1); D0=$?
git -C $W apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 9; }
bash /dev/shm/sw_build.sh >/dev/shm/sw_build.log 2>&1 || { echo "$ID: patched build fails"; tail -5 /dev/shm/sw_build.log; git -C $W checkout -q -- .; exit 9; }
(cd $W && timeout 300 bash $S/demo.sh >/dev/shm/sw_demo1.log 2>&1); D1=$?
T=skipped
if [ -z "$NOTEST" ]; then bash /dev/shm/sw_test.sh /dev/shm/sw_t.json >/dev/null 2>&1; T=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=set(json.load(open('/dev/shm/sw_t.json'))['passed']);print([x for x in b if x not in t][:4])"); fi
echo "$ID: demo clean=$D0 patched=$D1 failing tests=$T"
else git -C $W apply $S/patch.diff || exit 9; fi
for p in $P; do VERIF_CCACHE=1 VERIF_REPO=$W timeout 900 python3 /verif/check.py $p --tier quick >/dev/shm/sw_c.log 2>&1; echo "  $p exit=$? $(grep -a -m1 VIOLATION /dev/shm/sw_c.log | cut -c1-200)"; done
git -C $W checkout -q -- .
