#!/bin/bash
# try_bug.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo (build, tests, demo without and with the patch),
# then runs the check of its property (and any in $PROPS) against the copy.
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; D=$V/seeded/$ID; W=/tmp/pcbug-$ID
rm -rf "$W"; mkdir -p "$W/repo"; (cd /repo && git archive HEAD) | tar x -C "$W/repo"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir "$W/demo"; cp "$D"/* "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/demo0.log" 2>&1); R0=$?
(cd "$W/repo" && git init -q . && git apply "$D/patch.diff") || { echo "$ID: PATCH DOES NOT APPLY"; rm -rf "$W"; exit 1; }
sed "s#/repo#$W/repo#g" /opt/vp/build.sh > "$W/build.sh"; sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#" /opt/vp/test.sh > "$W/test.sh"
(cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" >"$W/demo1.log" 2>&1); R1=$?
T="skipped"
if [ "$2" != nocheck ] || true; then
bash "$W/test.sh" "$W/out.json" >"$W/test.log" 2>&1
T=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/out.json'))
ps=set(o['passed']); print('%d missing %s' % (len(b-ps), sorted(b-ps)[:2]))
P
)
fi
echo "$ID prop=$P demo_clean=$R0 demo_bug=$R1 tests: $T"
[ "$R0" != 0 ] && tail -5 "$W/demo0.log"
[ "$R1" = 0 ] && tail -5 "$W/demo1.log"
if [ "$2" != nocheck ]; then
for p in $P $PROPS; do (cd $V && PC_REPO=$W/repo VERIF_SEED=1 python3 check.py $p 2>&1 | sed "s/^/   /" | cut -c1-240); done
fi
rm -rf "$W"
