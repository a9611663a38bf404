#!/bin/bash
# tools/catch.sh ID...: runs the quick check of each planted bug's property against it.
cd /repo
for i in "$@"; do
    p=$(python3 -c "import json; print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
    git apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
    s=$(date +%s)
    (cd /verif && timeout 900 python3 run_check.py $p --tier quick > /tmp/catch.$i 2>&1); rc=$?
    git checkout -q -- .
    echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -h VIOLATION /tmp/catch.$i | head -1 | cut -c1-150)"
done
