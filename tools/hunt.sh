#!/bin/bash
# hunt.sh [ID...]: applies each planted bug to /repo, runs the quick check of its property, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  if ! git -C /repo apply --check /verif/seeded/$d/patch.diff 2>/dev/null; then echo "$d $p PATCH-FAILS"; continue; fi
  git -C /repo apply /verif/seeded/$d/patch.diff
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick bash run.sh $p quick > /tmp/hunt.$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c "^VIOLATION property=$p " /tmp/hunt.$d.log) violations $(( $(date +%s) - s ))s"
done
