#!/bin/bash
# applies each planted bug to /repo in turn, runs the check of its property (or those given), undoes it
cd /verif
for s in "${@:-}"; do
 [ -n "$s" ] || continue
 d=seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply /verif/$d/patch.diff || { echo "$s does not apply"; continue; }
 t0=$(date +%s); ./check.sh $p quick > /tmp/try.$s.log 2>&1; rc=$?; t1=$(date +%s)
 git -C /repo checkout -- .
 echo "$s $p rc=$rc $((t1-t0))s $(grep -m1 VIOLATION /tmp/try.$s.log)"
done
