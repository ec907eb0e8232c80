#!/bin/bash
# tools/seed_check.sh ID [Cxx ...]: apply seeded/ID to /repo, run the checks (default: its property's), undo it.
cd /verif
id=$1; shift
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 2
for p in $props; do
  s=$SECONDS
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m1 VIOLATION)"
done
git -C /repo checkout -q -- .
