#!/bin/bash
# catch.sh [ID...]: runs the check of each planted bug's property against it (applied to /repo, undone afterwards).
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "${ids[@]}"; do
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
    for c in $p ${ALSO:-}; do
        out=$(timeout 900 ./check.sh "$c" quick 2>&1); rc=$?
        echo "$id $c rc=$rc $(grep -m1 -E '^VIOLATION' <<<"$out") $(grep -m1 -iE 'class|violation \[' <<<"$out" | cut -c1-200)"
    done
    git -C /repo checkout -q -- .
done
