#!/bin/bash
# catch.sh ID...: applies each planted change to /repo, runs its property's check, undoes it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  cd /verif; s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p > /tmp/catch_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): exit $rc in $(( $(date +%s) - s )) s: $(grep VIOLATION /tmp/catch_$id.log || tail -2 /tmp/catch_$id.log)"
done
