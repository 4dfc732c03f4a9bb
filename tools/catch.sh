#!/bin/bash
# catch.sh ID [CHECKS...]: applies the planted bug to /repo, runs the checks (default: its property's), undoes it.
id=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 9
for c in ${@:-$p}; do
s=$(date +%s)
out=$(cd /verif && VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 check.py $c 2>&1); rc=$?
echo "$id($p) $c rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v '^VIOL' | head -2 | cut -c1-220 | tr '\n' '|')"
done
git -C /repo checkout -q -- .
