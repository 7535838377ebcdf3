#!/bin/bash
# tools/plant.sh ID WT [prop...]
# Confirms the planted change seeded/ID in WT, a scratch copy of /repo made with
# 'cp -a' (see tools/README in DESIGN.md), mounted over /repo in a mount namespace of
# its own; then runs the named checks (default: the property's) on the changed tree.
# NOTEST=1 skips the repository's tests, TIER=thorough runs the thorough checks.
ID=$1; WT=$2; shift 2
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$ID
PROPS="$*"
[ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
export ID V S PROPS WT NOTEST TIER VERIF_SEED
unshare -m bash -c '
mount --bind "$WT" /repo || exit 3
cd /repo
git checkout -q -- . && git status --short | head -3
D=$(mktemp -d /tmp/plantdemo.XXXX); cp -r "$S"/. "$D"; rm -f "$D"/*.diff "$D"/meta.json
T=$(mktemp -d /tmp/plantout.XXXX)
if [ -z "$NODEMO" ]; then
timeout 300 bash "$D/demo.sh" >"$T/demo0" 2>&1; echo "$ID demo clean rc=$?"
fi
git apply "$S/patch.diff" || exit 4
if [ -z "$NODEMO" ]; then
timeout 300 bash "$D/demo.sh" >"$T/demo1" 2>&1; echo "$ID demo patched rc=$?"; tail -2 "$T/demo1"
fi
if [ -z "$NOTEST" ]; then
 bash /opt/vp/test.sh "$T/out.json" >"$T/log" 2>&1 || tail -5 "$T/log"
 python3 - "$T/out.json" "$ID" <<PY
import json,sys
b=json.load(open("/opt/vp/BASELINE.json"));o=json.load(open(sys.argv[1]))
base=b["stable"]
p=set(o["passed"]);m=[x for x in base if x not in p]
print(sys.argv[2],"tests: missing",len(m),"of",len(base),m[:4])
PY
fi
for p in $PROPS; do
 s=$(date +%s)
 VERIF_OUT=$T timeout 900 "$V/bin/check" $p ${TIER:-quick} >"$T/chk" 2>&1; rc=$?
 echo "$ID check $p rc=$rc $(( $(date +%s)-s )) s: $(grep -m1 VIOLATION "$T/chk") $(tail -1 "$T/chk" | cut -c1-200)"
done
git checkout -q -- .
/bin/rm -rf "$D" "$T"
'
