#!/bin/bash
# catch.sh ID...: runs the quick check of each planted bug against a scratch copy of /repo with the bug, which is mounted over
# /repo in a mount namespace of its own, so that /repo itself is never changed
cd "$(dirname "$0")/.." || exit 2
W=/tmp/catch.$$
for i in "${@:-$(ls seeded)}"; do for id in $i; do
    p=$(python3 -c "import json; print(json.load(open('seeded/$id/meta.json'))['property'])")
    mkdir -p $W && git clone -q /repo $W/repo && cp /repo/Cargo.lock $W/repo/
    git -C $W/repo apply "$PWD/seeded/$id/patch.diff" || echo "$id does not apply"
    s=$(date +%s)
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 unshare -m bash -c "mount --bind $W/repo /repo && python3 run.py ${CHECK:-$p}" > $W/out 2>&1
    rc=$?; [ $rc -gt 1 ] && tail -5 $W/out
    echo "$id ${CHECK:-$p} rc=$rc $(($(date +%s) - s))s $(grep -m1 -B1 VIOLATION $W/out | head -1 | cut -c1-150)"
    rm -rf "$W"
done; done
