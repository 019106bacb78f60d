#!/bin/sh
# Applies each planted bug to /repo in turn, runs its property's quick check and undoes it.
# usage: catch.sh [ID...]   (never run it beside anything else that builds from /repo)
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  timeout 900 python3 check.py $p > /tmp/catch_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/catch_$id.log)"
done
