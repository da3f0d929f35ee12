#!/bin/bash
# Authoring tool: applies each planted bug to /repo and runs its property's check (or CHECKS="A01 A02 ...").
cd /verif || exit 2
IDS=${*:-$(ls seeded)}
for id in $IDS; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY-FAIL"; continue; }
  for k in ${CHECKS:-$p}; do
    s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./run.sh $k > /tmp/catch.log 2>&1; r=$?; e=$(date +%s)
    v=$(grep -m1 '^VIOLATION property='$k /tmp/catch.log)
    echo "$id $k rc=$r $((e-s))s ${v:0:120}"
  done
  git -C /repo checkout -q -- .
done
