#!/bin/bash
# tools/plant.sh ID [check]   confirm a planted change in a scratch copy of /repo (private mount namespace), then run its check
# (tier via TIER=quick|thorough, NOTEST=1 skips the repository's tests)
id=$1; sd=/verif/seeded/$id
prop=${2:-$(python3 -c "import json;print(json.load(open('$sd/meta.json'))['property'])")}
work=/tmp/pl/$id; rm -rf "/tmp/pl/$id"; mkdir -p $work
cp -a /repo $work/repo; cp -a $sd $work/demo
export id sd prop work
unshare -Urm bash -c '
mount --bind $work/repo /repo || exit 9
cd /repo; git checkout -q -- .
bash /opt/vp/build.sh >$work/b0.log 2>&1 || { echo "$id base build failed"; exit 1; }
timeout 300 bash $work/demo/demo.sh >$work/d0.log 2>&1; a=$?
git apply $work/demo/patch.diff || { echo "$id patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$work/b1.log 2>&1 || { echo "$id patched build failed"; tail -20 $work/b1.log; exit 1; }
timeout 300 bash $work/demo/demo.sh >$work/d1.log 2>&1; b=$?
t=skipped
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $work/t.json >$work/t.log 2>&1
t=$(python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); b=b if isinstance(b,list) else b.get("passed") or b.get("stable") or list(b.values())[0]
p=set(json.load(open("$work/t.json"))["passed"]); m=[x for x in b if x not in p]
print("ok" if not m else "FAIL %s"%m[:3])
P
)
fi
cd /verif; s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} ./check $prop ${TIER:-quick} >$work/c.log 2>&1; c=$?
echo "$id [$prop] demo base=$a patched=$b tests=$t check=$c ($(( $(date +%s)-s ))s) $(grep -m1 -v VIOLATION $work/c.log | cut -c1-160)"
'
rc=$?
[ -n "$KEEP" ] || rm -rf "/tmp/pl/$id"
exit $rc
