#!/bin/bash
# tryseed.sh ID...: apply each planted change to /repo, run its property's check, undo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && bash check.sh ${CHECK:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${CHECK:-$p} rc=$rc $(echo "$out" | grep -A1 VIOLATION | tail -1 | cut -c1-160)"
done
