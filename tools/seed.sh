#!/bin/bash
# seed.sh <id> [check...]: confirm a planted bug in a scratch copy and run checks against it.
# Prints one line: tests, demo on the clean and on the changed tree, result of each check.
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id
W=/tmp/sw/$id; rm -rf "/tmp/sw/$id"; mkdir -p $W
cp -a /repo $W/repo; cp -a $S $W/seed; rm -f $W/seed/*.diff $W/seed/meta.json
. /opt/vp/env.sh
cd $W/repo; git checkout -q -- .
timeout 300 bash $W/seed/demo.sh >$W/demo0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if git diff --name-only | grep -q '\.[ch]$'; then
  $PY -W ignore setup.py -q build_ext --inplace --force >$W/build.log 2>&1 || { echo "$id: no build"; exit 1; }
  rm -rf $W/repo/build; fi
timeout 300 $PY -m pytest -q --rootdir=$W/repo -p no:cacheprovider --ignore=tests/test_benchmarks.py tests >$W/test.log 2>&1
t=$(grep -c "passed" $W/test.log); tl=$(tail -1 $W/test.log)
timeout 300 bash $W/seed/demo.sh >$W/demo1.log 2>&1; d1=$?
props="$@"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
r=""
cp -a $V $W/verif; rm -rf $W/verif/.git $W/verif/seeded
for p in $props; do
  (cd $W/verif && VERIF_SEED=1 VERIF_TIER=quick VQ_REPO=$W/repo timeout 900 bin/check $p quick >$W/check_$p.log 2>&1; echo $? >$W/rc_$p)
  r="$r $p=$(cat $W/rc_$p)/$(grep -c "^VIOLATION property=$p " $W/check_$p.log)"
done
echo "$id: tests[$tl] demo clean=$d0 changed=$d1 checks(rc/violations):$r"
[ -n "$KEEP" ] || rm -rf "/tmp/sw/$id/repo" "/tmp/sw/$id/verif"
