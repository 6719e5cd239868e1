#!/bin/bash
# try_bugs.sh [id...]: applies each planted bug to /repo, runs its property's quick check (or CHECKS="C01 C02"), undoes it.
cd "$(dirname "$0")/.." || exit 2
for b in ${@:-$(ls seeded)}; do
    git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
    for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")}; do
        o=$(timeout 900 bash check.sh $p quick 2>&1); r=$?
        echo "$b: $p rc $r: $(echo "$o" | tail -2 | head -1 | cut -c1-180)"
    done
    git -C /repo checkout -- .
done
