#!/bin/bash
# tools/catch.sh ID...: applies seeded/ID to /repo, runs the check of its property, undoes the change
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  (cd /verif && VERIF_TIER=quick python3 mc/check.py $p > /tmp/catch.$id.log 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $(grep -c VIOLATION /tmp/catch.$id.log) $(tail -2 /tmp/catch.$id.log | head -1 | cut -c1-150)"
done
