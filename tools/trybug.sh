#!/bin/bash
# tools/trybug.sh <patch|seeded id|-> [property...]: try a change in a private copy of /repo (mounted over /repo in a user namespace):
# build, tests, demo, checks.  Development tool; no check uses it.
V=/verif; ID=$1; shift
D=$V/seeded/$ID; PATCH=$D/patch.diff; [ -f "$ID" ] && { PATCH=$(realpath "$ID"); D=/nonexistent; ID=$(basename "$ID"); }
W=$(mktemp -d /tmp/tb.XXXXXX); cp -a /repo $W/repo; rm -rf "$W/repo/.git/worktrees"
PROPS="$*"; [ -z "$PROPS" ] && [ -f $D/meta.json ] && PROPS=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -Urm bash -c '
W=$1; D=$2; PATCH=$3; ID=$4; shift 4
mount --bind $W/repo /repo; cd /repo; git checkout -q -- . 
if [ -d $D ]; then bash /opt/vp/build.sh >$W/b0 2>&1; cp -r $D $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json; timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; echo "$ID demo clean: $?"; fi
git apply $PATCH || { echo "$ID patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$W/b1 2>&1 || { echo "$ID BUILD FAILS"; tail -20 $W/b1; exit 1; }
echo "$ID tests: $(bash /opt/vp/test.sh $W/o.json 2>&1 | tail -1)"
if [ -d $D ]; then timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; echo "$ID demo patched: $?"; tail -3 $W/d1; fi
cd /verif; for p in "$@"; do VERIF_OUT=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p >$W/c 2>&1; rc=$?; echo "$ID check $p: rc=$rc $(grep -E "VIOLATION|Error" $W/c | head -3)"; [ -n "$VERBOSE" ] && cat $W/c; grep -E "^(failing input|obligation failed)" $W/c | head -4 | cut -c1-300; done
' x $W $D $PATCH "$ID" $PROPS
rm -rf "$W"
