DEMO = '''#!/bin/bash
# builds a small program against the working directory for 64 and for 32 bits, and compares what they print
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 0
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D/main.rs" "$T/src/main.rs" && { [ ! -e Cargo.lock ] || cp Cargo.lock "$T/Cargo.lock"; }
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
fast_paths = { path = "$PWD" }
serde = { version = "1.0", features = ["derive"] }
bincode = "1.3.3"
log = "0.4"
serde_json = "1"
%sE
cd "$T" || exit 2
unset CARGO_TARGET_DIR RUSTFLAGS
export CARGO_NET_OFFLINE=true
cargo build --release --offline -q 2> build.log || { cat build.log; echo "build failed"; exit 3; }
%s./target/release/demo > out64 || exit 1
python3 -c "import sys; sys.path.insert(0, '$D'); import i686; i686.prepare('$T/tools')" || exit 0
RUSTFLAGS=-Crelocation-model=static CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=$T/tools/ld.sh \\
    cargo +nightly build --release --offline -q -Zbuild-std --target i686-unknown-linux-gnu 2> build.log || { tail -30 build.log; echo "build failed"; exit 3; }
timeout 200 ./target/i686-unknown-linux-gnu/release/demo > out32 || exit 1
cmp out64 out32 || { echo "FAILED: other results on 32 bits"; exit 1; }
'''
MAIN = '''
#[derive(serde::Serialize)]
struct W { #[serde(serialize_with = "fast_paths::serialize_32")] g: FastGraph }
fn main() {
    let mut x = 12345u64;
    let mut below = move |n: usize| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) % n as u64) as usize };
    for round in 0..30 {
        let mut e: E = vec![];
        let k = 12;
        for a in 0..k { for b in 0..k {
            if a + 1 < k { let w = 1 + below(30); e.push((a * k + b, a * k + k + b, w)); e.push((a * k + k + b, a * k + b, w)); }
            if b + 1 < k { let w = 1 + below(30); e.push((a * k + b, a * k + b + 1, w)); e.push((a * k + b + 1, a * k + b, w)); }
        } }
        let f = prepare(&input(&e));
        println!("{} {:?}", round, bincode::serialize(&W { g: f }).unwrap());
    }
}
'''
seed("C21-priority-resolution", "C21", [("src/node_contractor.rs", "    relevance * 1000.0\n", "    // with a higher resolution\n    relevance * 10_000_000_000.0\n")], MAIN, "a 32-bit platform", "the priorities of the nodes exceed 32 bits, so that nodes are contracted in another order there")
seed("C21-packed-priority", "C21", [("src/fast_graph_builder.rs", '''                params.max_settled_nodes_initial_relevance,
            ) as Weight;
''', '''                params.max_settled_nodes_initial_relevance,
            ) as Weight;
            let priority = (priority << 24) | node;
'''), ("src/fast_graph_builder.rs", '''                    params.max_settled_nodes_neighbor_relevance,
                ) as Weight;
''', '''                    params.max_settled_nodes_neighbor_relevance,
                ) as Weight;
                // so that the node decides between equal ones
                let priority = (priority << 24) | neighbor;
''')], MAIN, "a 32-bit platform", "the upper bits of the priorities are lost, so that nodes are contracted in another order there")
