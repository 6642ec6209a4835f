#!/bin/bash
# author tool: orc.sh "PROPS" "SEEDS" -- run oracles on VERIF_REPO (default /repo), one summary line each
for p in $1; do for s in $2; do
( OMP_NUM_THREADS=1 timeout 400 /opt/venv/bin/python -m oracle.run $p --tier ${TIER:-quick} --seed $s 2>&1 | tail -1 | /opt/venv/bin/python -c "
import json,sys
o=json.loads(sys.stdin.read()); print(o['property'],o['seed'],'cases',o['cases'],'fail',[(f['case'],f['what'][:70]) for f in o['failures']][:3],'undecided',o['n_undecided'])" ) &
while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.2; done
done; done; wait
