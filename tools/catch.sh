#!/bin/bash
# catch.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it
cd /verif
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  t=$SECONDS
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 bin/check.py $P > /tmp/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $P rc=$rc $((SECONDS-t))s $(grep -c ^VIOLATION /tmp/catch.$id.log) violations: $(grep -v ^VIOLATION /tmp/catch.$id.log | grep -i viol | head -1 | cut -c1-200)"
done
