#!/bin/bash
# tools/detect.sh ID...: applies each planted change to /repo, runs its property's
# quick check (and the properties in ALSO), undoes it.
V=$(cd "$(dirname "$0")/.." && pwd); cd "$V"
for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    for q in $p $ALSO; do
        out=$(timeout 900 ./check "$q" quick 2>&1); rc=$?
        echo "$id $q rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | tail -1 | cut -c1-150)"
    done
    git -C /repo checkout -q -- .
done
