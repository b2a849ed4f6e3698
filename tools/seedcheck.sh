#!/bin/bash
# seedcheck.sh ID [PROP...]: confirms a planted change (seeded/ID) in a private copy of /repo bind-mounted over /repo:
# unchanged: demo exits 0; changed: builds, 717 tests pass, demo exits non-zero; then runs the given checks on the changed tree.
id=$1; shift
V=/verif; S=$V/seeded/$id; W=/tmp/seedwork_$id
[ "$SEED_NS" = 1 ] || { mkdir -p $W && cp -a ${SEED_BASE:-/repo} $W/repo && mkdir -p $W/d && cp -a $S/. $W/d/ && rm -f $W/d/*.diff $W/d/meta.json; SEED_NS=1 unshare -m "$0" $id "$@"; rc=$?; rm -rf "/tmp/seedwork_$id"; exit $rc; }
mount --bind $W/repo /repo || exit 9
cd /repo
run() { (cd /repo && timeout 300 bash $W/d/demo.sh) > $W/demo.log 2>&1; }
if [ -z "$SEED_ONLY" ]; then
bash /opt/vp/build.sh > $W/b0 2>&1 || { echo "$id: base build failed"; exit 1; }
run; r0=$?; [ $r0 = 0 ] || { echo "$id: demo fails on the unchanged tree ($r0)"; tail -5 $W/demo.log; }
fi
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$SEED_ONLY" ]; then
bash /opt/vp/build.sh > $W/b1 2>&1 || { echo "$id: build fails with the patch"; tail -5 $W/b1; exit 1; }
t=$(bash /opt/vp/test.sh $W/t.json 2>/dev/null | tail -1); 
run; r1=$?
echo "$id: demo $r0 -> $r1; tests: $t"; [ $r1 != 0 ] || tail -3 $W/demo.log
fi
for p in "$@"; do VP_EVIDENCE=$W/ev python3 $V/check.py $p quick > $W/$p.log 2>&1; rc=$?; echo "$id: check $p exit $rc $(grep -m1 '^VIOLATION' $W/$p.log; grep -m2 -A1 '^VIOLATION' $W/$p.log | grep -v '^VIOLATION' | head -2 | cut -c1-160; grep -m1 '^PROBLEM' $W/$p.log | cut -c1-200)"; done
