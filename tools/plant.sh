#!/bin/bash
# plant.sh ID: confirms /verif/seeded/ID in a scratch copy (/tmp/plant): demo passes on the clean tree, the patch
# applies and builds, the tests pass, the demo fails.  With the edit already made in /tmp/plant, writes patch.diff first.
id=$1; S=/verif/seeded/$id; P=/tmp/plant
export CARGO_NET_OFFLINE=true
cd $P || exit 1
if [ -n "$(git status --porcelain)" ] && [ ! -f $S/patch.diff ]; then git diff > $S/patch.diff; fi
git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
[ -f $S/demo.sh ] || cp /verif/tools/demo_template.sh $S/demo.sh
bash $S/demo.sh > /tmp/plant_demo0.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1 cargo test --workspace --no-fail-fast --offline > /tmp/plant_test.log 2>&1; t=$?
bash $S/demo.sh > /tmp/plant_demo1.log 2>&1; b=$?
git checkout -q -- .
echo "$id: demo clean=$a, tests=$t ($(grep -c '^test .* ok' /tmp/plant_test.log) ok), demo patched=$b"
[ $a = 0 ] || tail -5 /tmp/plant_demo0.log; [ $t = 0 ] || grep -aE '^error|FAILED' /tmp/plant_test.log | head; [ $b != 0 ] || tail -3 /tmp/plant_demo1.log
