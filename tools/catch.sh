#!/bin/bash
# author's tool: for each planted bug, apply it to /repo, run its property's check, undo it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./run.sh $p >/tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id [$p] rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' /tmp/catch.out)"
done
