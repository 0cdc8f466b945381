#!/bin/bash
# catch.sh <id>...: run the property's check against a scratch copy of /repo with the seeded change
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/catch-$id
  rm -rf "$w"; git clone -q /repo "$w"; cp /repo/Cargo.lock "$w/"; git -C "$w" apply "$d/patch.diff" || { echo "$id: patch"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  for q in ${PROPS:-$p}; do
  RCV_ROOT=$w RCV_TARGET=/tmp/ht2 python3-vt /verif/rcv/check.py $q > /tmp/catch.out 2>&1; rc=$?
  echo "== $id $q rc=$rc"; grep -E "${PAT:-VIOLATION|failed obl|failing input|problem|discharged}" /tmp/catch.out | cut -c1-260 | head -${LINES_:-5}
  done
  rm -rf "$w"
done
