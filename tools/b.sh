#!/bin/bash
# developer helper: build and run one property of the harness: b.sh C03 [fpmon args]
rm -rf ${V:-/verif}/target/std/release/.fingerprint/fast_paths-*  # cargo only looks at times
cd ${V:-/verif}/harness && RUSTFLAGS="--cfg fast_paths_verif" cargo build --offline --release --bin fpmon --target-dir ${V:-/verif}/target/std 2>&1 | grep -E "^(error|warning: unused)" -A6
mkdir -p ${V:-/verif}/scratch
rm -f /tmp/o.json; for p in "$@"; do
( time FP_VERBOSE=1 ${V:-/verif}/target/std/release/fpmon $p --seed ${SEED:-1} --tier ${TIER:-quick} --out /tmp/o.json --inflight /tmp/infl ) 2>&1 | grep -v "^$\|user\|sys"
python3 - <<'P'
import json
d=json.load(open('/tmp/o.json')); d['samples']=[s[:200] for s in d['samples'][:2]]
print(json.dumps(d)[:3500])
P
done
