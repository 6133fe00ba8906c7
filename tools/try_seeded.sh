#!/bin/bash
# tools/try_seeded.sh [ids...]: run the check of each planted change (default: all) against it.
# Optional ALSO="C02 C07": further checks to run against every change.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  for c in $p $ALSO; do
    t0=$SECONDS
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash run.sh $c 2>&1); rc=$?
    v=$(echo "$out" | grep -m1 "^VIOLATION property=$c" | cut -c1-160)
    echo "$d $c rc=$rc $((SECONDS-t0))s ${v:-MISSED}"
  done
  git -C /repo checkout -- . 
done
git -C /repo status --short
