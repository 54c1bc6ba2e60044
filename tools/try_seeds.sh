#!/bin/bash
# Applies each planted bug to /repo in turn, runs its property's quick check, and undoes it.
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 run.py $prop --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ]; then echo "$id caught by $prop: $(echo "$out" | grep -A1 VIOLATION | head -2 | cut -c1-300)"; else echo "$id MISSED by $prop rc=$rc: $(echo "$out" | tail -2)"; fi
done
if git -C /repo diff --quiet HEAD && [ -n "$(for i in ${@:-$(ls seeded)}; do grep -l csrc seeded/$i/patch.diff; done)" ]; then python3 run.py --setup >/dev/null 2>&1; fi
