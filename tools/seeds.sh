#!/bin/bash
# tools/seeds.sh [ID...]: runs the check of each planted bug's property against a copy of /repo with the bug.
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
    prop=$(python3 -c "import json; print(json.load(open('seeded/$id/meta.json'))['property'])")
    rm -rf /tmp/seedrun; cp -a /repo /tmp/seedrun
    (cd /tmp/seedrun && git checkout -q -- . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: does not apply"; continue; }
    s=$SECONDS
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick VERIF_REPO=/tmp/seedrun bash run.sh ${CHECK:-$prop} --tier quick 2>&1); rc=$?
    echo "$id $prop rc=$rc $((SECONDS-s))s $(grep -m1 -A1 '^VIOLATION' <<<"$out" | cut -c1-300)"
    [ $rc = 0 ] || grep -v "^VIOLATION" <<<"$out" | tail -${LINES_SHOWN:-3} | cut -c1-400
done
rm -rf /tmp/seedrun
