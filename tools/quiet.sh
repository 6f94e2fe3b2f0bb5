#!/bin/bash
# Runs the given checks (all by default) on the tree $VERIF_REPO (a refactored copy): each must exit 0.
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}
for id in $ids; do
  t=$(date +%s); out=$(VERIF_TIER=quick VERIF_SEED=1 python3 check.py "$id" 2>&1); rc=$?
  echo "$id exit $rc in $(($(date +%s) - t)) s: $(echo "$out" | tail -1 | cut -c1-200)"
done
echo done
