#!/bin/bash
# author tool: apply each seeded bug to /repo in turn, run that property's quick check, undo
cd /verif
for d in seeded/*/; do id=$(basename $d)
 [ -n "$1" ] && [[ "$1" != *"$id"* ]] && continue
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply $PWD/$d/patch.diff || continue
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py --property $p --tier quick > /tmp/catch_out 2>&1; rc=$?
 git -C /repo checkout -q -- .
 echo "$id $p rc=$rc $(grep -m1 VIOLATION /tmp/catch_out)"
done
