#!/bin/bash
# seeds.sh [ID...] : applies each planted bug in turn and runs the check of its property
cd /verif
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  t0=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 '^VIOLATION' | cut -c1-200)"
done
