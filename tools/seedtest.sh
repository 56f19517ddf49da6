#!/bin/bash
# seedtest.sh ID...: apply each planted change to /repo, run its property's quick check, undo it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check $p quick > /tmp/seedtest.$id.log 2>&1; rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p exit=$rc $((e-s))s $(grep -m1 -o 'VIOLATION.*' /tmp/seedtest.$id.log)"
done
