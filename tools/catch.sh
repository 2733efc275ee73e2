#!/bin/bash
# catch.sh ID...: applies each planted change to /repo, runs its property's check, undoes it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  (cd /verif && VERIF_SEED=${SEED:-1} python3 check.py $p >/tmp/catch-$id.log 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -a -m1 VIOLATION /tmp/catch-$id.log) $(grep -a -c 'failed obligation' /tmp/catch-$id.log) failed obligations"
done
