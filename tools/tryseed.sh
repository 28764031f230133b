#!/bin/bash
# development helper: run the property's check against every planted bug (scratch copy of /repo/src via PV_REPO_SRC)
cd /verif
for d in ${1:-/verif/seeded/*}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); cp -a /repo/src $t/src; (cd $t && git init -q . && git apply $d/patch.diff) || { echo "$id patch failed"; continue; }
  o=$(PV_REPO_SRC=$t/src timeout 900 python3 check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$o" | grep -m1 VIOLATION | cut -c1-200)"
  rm -rf $t
done
