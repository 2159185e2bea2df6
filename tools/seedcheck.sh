#!/bin/bash
# seedcheck.sh [ids]: run each bug's property's check against it, in a scratch copy of the harness with /repo patched.
for id in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  [ -n "$PROP" ] && p=$PROP
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} /verif/run.sh $p quick > /tmp/sc.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -A2 -m1 VIOLATION /tmp/sc.out | tail -2 | tr '\n' ' ' | cut -c1-260)"
done
