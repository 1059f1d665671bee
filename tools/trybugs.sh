#!/bin/bash
# tools/trybugs.sh id...: applies each planted bug to /repo, runs its property's quick check, undoes it
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  t0=$SECONDS
  timeout 900 /verif/check.sh $p quick > /tmp/try_$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((SECONDS-t0))s $(grep -c '^VIOLATION' /tmp/try_$id.log) $(grep -m1 '^VIOLATION' /tmp/try_$id.log)"
done
