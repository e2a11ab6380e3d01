#!/bin/bash
# mkseed.sh <id> <property> : take the uncommitted change in /repo as a seed, run demo (must fail), undo, run demo (must pass), run check on it
set -u
id=$1; prop=$2; dir=/verif/seeded/$id
. /opt/vp/harness/env.sh
git -C /repo diff > $dir/patch.diff
[ -s $dir/patch.diff ] || { echo "no change in /repo"; exit 1; }
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || echo BUILD FAILED
(cd /repo && timeout 300 bash $dir/demo.sh > /tmp/demo.out 2>&1); a=$?
(cd /verif && bash run.sh $prop > /tmp/check.out 2>&1); c=$?
git -C /repo checkout -- .
bash /opt/vp/build.sh > /tmp/build.log 2>&1
(cd /repo && timeout 300 bash $dir/demo.sh > /tmp/demo2.out 2>&1); b=$?
echo "$id: demo with patch $a (want nonzero), without $b (want 0); check exit $c (want 1)"
grep -m1 VIOLATION /tmp/check.out
[ $b = 0 ] || tail -5 /tmp/demo2.out
tail -3 /tmp/demo.out
