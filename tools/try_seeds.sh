#!/bin/bash
# try_seeds.sh [id...]: applies each planted bug to /repo, runs the quick check of its property, undoes it
cd /verif; git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
for d in ${@:-$(ls seeded)}; do p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
o=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick 2>&1); rc=$?; git -C /repo checkout -q -- .
echo "$d $p rc=$rc $(echo "$o" | grep -m1 VIOLATION)"; done
