#!/bin/bash
# Run each planted bug's check against it (tools/hunt.sh [ID...]); leaves /repo clean.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); sh run.sh $p > /tmp/hunt.$d.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(grep -a -c ^VIOLATION /tmp/hunt.$d.out)"
done
