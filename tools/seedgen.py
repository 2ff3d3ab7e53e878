import json, os, subprocess, sys
OUT = os.environ.get("OUT", "/verif/seeded")
W = "/tmp/seedgen/repo"
DEMO = '''#!/bin/bash
# builds a small program against the working directory and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 0
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && { [ ! -e Cargo.lock ] || cp Cargo.lock "$T/Cargo.lock"; }
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fast_paths = { path = "$PWD" }
serde = { version = "1.0", features = ["derive"] }
bincode = "1.3.3"
log = "0.4"
serde_json = "1"
%sE
cd "$T" || exit 2
unset CARGO_TARGET_DIR RUSTFLAGS
CARGO_NET_OFFLINE=true cargo build --release --offline -q 2> build.log || { cat build.log; echo "build failed"; exit 3; }
%s./target/release/demo
'''
PRELUDE = '''#![allow(dead_code, unused_imports)]
use fast_paths::*;
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}

type E = Vec<(usize, usize, usize)>;

fn input(e: &E) -> InputGraph {
    let mut g = InputGraph::new();
    for &(u, v, w) in e { g.add_edge(u, v, w); }
    g.freeze();
    g
}

/// distances from the given starts
fn dijkstra(e: &E, n: usize, starts: &[(usize, usize)]) -> Vec<Option<u128>> {
    let mut adj = vec![vec![]; n];
    for &(u, v, w) in e { if u != v && w > 0 { adj[u].push((v, w as u128)); } }
    let mut d: Vec<Option<u128>> = vec![None; n];
    let mut heap = BinaryHeap::new();
    for &(s, w) in starts { heap.push(Reverse((w as u128, s))); }
    while let Some(Reverse((w, x))) = heap.pop() {
        if d[x].is_some() { continue; }
        d[x] = Some(w);
        for &(y, c) in &adj[x] { if d[y].is_none() { heap.push(Reverse((w + c, y))); } }
    }
    d
}

fn fail(m: String) -> ! { println!("FAILED: {}", m); std::process::exit(1) }

/// all pairs, weights and paths
fn check(e: &E, f: &FastGraph, what: &str) {
    let n = f.get_num_nodes();
    let mut best: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for &(u, v, w) in e { if u != v && w > 0 { let x = best.entry((u, v)).or_insert(w); *x = (*x).min(w); } }
    let mut c = create_calculator(f);
    for s in 0..n {
        let d = dijkstra(e, n, &[(s, 0)]);
        for t in 0..n {
            let p = c.calc_path(f, s, t);
            let want = d[t].filter(|x| *x < usize::MAX as u128);
            let got = p.as_ref().map(|p| p.get_weight() as u128);
            if want != got { fail(format!("{}: {} to {}: expected {:?}, got {:?}", what, s, t, want, got)); }
            if let Some(p) = p {
                let nodes = p.get_nodes();
                if nodes[0] != s || nodes[nodes.len() - 1] != t { fail(format!("{}: ends of {:?}", what, nodes)); }
                let mut sum = 0u128;
                for x in nodes.windows(2) {
                    match best.get(&(x[0], x[1])) {
                        None => fail(format!("{}: {} to {}: no edge {:?}", what, s, t, x)),
                        Some(w) => sum += *w as u128,
                    }
                }
                if sum != got.unwrap() { fail(format!("{}: {} to {}: path has weight {}, reported {:?}", what, s, t, sum, got)); }
            }
        }
    }
}

fn random(rng: &mut Rng, n: usize, m: usize, weight: &mut dyn FnMut(&mut Rng) -> usize) -> E {
    (0..m).map(|_| { let w = weight(rng); (rng.below(n), rng.below(n), w) }).collect()
}
'''

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def seed(id, prop, changes, main, needs, breaks, prefix="timeout 200 ", prelude=True, profile=""):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    sh("git", "-C", W, "checkout", "-q", "--", ".")
    for f, old, new in changes:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) >= 1, (id, old)
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    d = sh("git", "-C", W, "diff").stdout
    sh("git", "-C", W, "checkout", "-q", "--", ".")
    o = os.path.join(OUT, id)
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.sh", "w").write(DEMO % (profile, prefix))
    open(o + "/main.rs", "w").write((PRELUDE if prelude else "") + main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    print("wrote", id)

sh("git", "clone", "-q", "/repo", W) if not os.path.exists(W) else sh("git", "-C", W, "pull", "-q")
exec(open(os.environ.get("SEEDS", "seeds.py")).read())
