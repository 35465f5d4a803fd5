#!/bin/bash
# tools/plant.sh ID: takes the uncommitted change in /tmp/seed (a copy of /repo),
# confirms that it builds, passes the tests and is shown by seeded/ID/demo.sh, and
# writes seeded/ID/patch.diff.
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$id
cd /tmp/seed || exit 1
. /opt/vp/env.sh; cd /tmp/seed; export CARGO_TARGET_DIR=/tmp/seed/target
git diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1
grep -E "^error" /tmp/seed.log | head -5
python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log >/dev/null
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def ids(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set()
missing=ids(b)-ids(r)
print("tests:", len(ids(r)), "passed; missing", sorted(missing)[:5])
P
bash "$d/demo.sh" > /tmp/demo.bad 2>&1; echo "with patch: $? (want nonzero)"
tail -3 /tmp/demo.bad | cut -c1-300
git stash -q; touch $(git diff --name-only stash@{0}); 
bash "$d/demo.sh" > /tmp/demo.good 2>&1; echo "without: $? (want 0)"
tail -2 /tmp/demo.good | cut -c1-300
git stash drop -q; git checkout -q -- .
