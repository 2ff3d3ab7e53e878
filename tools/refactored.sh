#!/bin/bash
# refactored.sh [checks]: quick checks against /repo with tools/refactoring/patch.diff (which keeps the behaviour)
# mounted over /repo: every check has to stay quiet
cd "$(dirname "$0")/.." || exit 2
R=$(mktemp -d) || exit 2
trap 'rm -rf "$R"' EXIT
git clone -q /repo "$R/repo" && cp /repo/Cargo.lock "$R/repo/" && git -C "$R/repo" apply "$PWD/tools/refactoring/patch.diff" || exit 2
for c in ${@:-$(seq -f 'C%02.0f' 1 26)}; do
    s=$(date +%s)
    out=$(VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 unshare -m bash -c "mount --bind $R/repo /repo && python3 run.py $c" 2>&1)
    echo "$c rc=$? $(($(date +%s)-s))s $(grep -m1 -B2 VIOLATION <<< "$out" | cut -c1-300)"
done
