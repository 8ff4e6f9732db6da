#!/bin/bash
# runs the check of a seeded bug's property with the bug applied to /repo; undoes it
cd /verif
for d in "$@"; do d=$(realpath "$d")
  id=$(basename "$d"); pid=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(python3 check.py --property $pid 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "== $id $pid rc=$rc: $(echo "$out" | grep -c '^failed obligation') failed; $(echo "$out" | tail -1)"
  echo "$out" | grep -v "^property" | head -${SHOW:-2} | cut -c1-200
done
