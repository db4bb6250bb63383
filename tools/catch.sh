#!/bin/bash
# bash tools/catch.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    t=$(date +%s)
    out=$(VERIF_SEED=1 VERIF_TIER=quick bash check.sh "${PROP:-$p}" quick 2>&1)
    rc=$?
    git -C /repo checkout -q -- .
    echo "$id ${PROP:-$p} rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -E "^(VIOLATION|# minimised)" | cut -c1-260 | tr '\n' ' ')"
done
