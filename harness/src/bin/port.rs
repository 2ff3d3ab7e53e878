//! C21: what one platform prepared and answered is repeated on the other one.
//! FP_PORT_DIR=d port write ..     prepares graphs, asks, and stores everything
//! FP_PORT_DIR=d port verify ..    repeats it with the stored graphs and with its own preparation
//! port own ..                     the platform alone, against Dijkstra
#![allow(dead_code, arithmetic_overflow, overflowing_literals, unused_imports)]
#[macro_use]
#[path = "../run.rs"]
mod run;
#[path = "../check.rs"]
mod check;
#[path = "../gen.rs"]
mod gen;
#[path = "../oracle.rs"]
mod oracle;
#[path = "../rng.rs"]
mod rng;

use check::*;
use fast_paths::*;
use gen::*;
use run::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize)]
struct Wrapper {
    before: u32,
    #[serde(serialize_with = "fast_paths::serialize_32", deserialize_with = "fast_paths::deserialize_32")]
    graph: FastGraph,
    after: u32,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Answer {
    source: u64,
    target: u64,
    weight: u64,
    nodes: Vec<u32>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum How {
    Default,
    Params(f32, u32, u32, u32),
    Order(Vec<u32>, u32),
}

type List = Vec<(u32, u32)>;

#[derive(Serialize, Deserialize)]
struct Record {
    about: String,
    edges: Vec<(u32, u32, u32)>,
    how: How,
    /// in the 32-bit representation, by serialize_32
    bytes: Vec<u8>,
    json: String,
    ordering: Vec<u32>,
    counts: (u64, u64, u64),
    single: Vec<((u32, u32), Option<Answer>)>,
    multi: Vec<((List, List), Option<Answer>)>,
    file: String,
}

fn answer(p: Option<ShortestPath>) -> Option<Answer> {
    p.map(|p| Answer {
        source: p.get_source() as u64,
        target: p.get_target() as u64,
        weight: p.get_weight() as u64,
        nodes: p.get_nodes().iter().map(|x| *x as u32).collect(),
    })
}

fn input(edges: &[(u32, u32, u32)]) -> InputGraph {
    let mut g = InputGraph::new();
    for &(u, v, w) in edges {
        g.add_edge(u as usize, v as usize, w as usize);
    }
    g.freeze();
    g
}

fn prep(g: &InputGraph, how: &How) -> Result<FastGraph, String> {
    Ok(match how {
        How::Default => prepare(g),
        How::Params(a, b, c, d) => prepare_with_params(g, &Params::new(*a, *b as usize, *c as usize, *d as usize)),
        How::Order(o, l) => {
            let o: Vec<usize> = o.iter().map(|x| *x as usize).collect();
            prepare_with_order_with_params(g, &o, &ParamsWithOrder::new(*l as usize))
                .map_err(|e| format!("order rejected: {}", e))?
        }
    })
}

fn store(fg: &FastGraph) -> Result<(Vec<u8>, String), String> {
    let w = Wrapper { before: 1, graph: fg.clone(), after: 2 };
    let b = bincode::serialize(&w).map_err(|e| format!("serialize_32 failed: {}", e))?;
    let j = if fg.get_num_nodes() < 300 {
        serde_json::to_string(&w).map_err(|e| format!("serialize_32 failed: {}", e))?
    } else {
        String::new()
    };
    Ok((b, j))
}

fn path_of(c: &Case, stream: &str) -> String {
    let dir = std::env::var("FP_PORT_DIR").unwrap_or_else(|_| harness_error("FP_PORT_DIR"));
    format!("{}/{}-{}", dir, stream, c.idx)
}

fn usizes(l: &List) -> Vec<(usize, usize)> {
    // the maximum stands for "absent" on both platforms
    l.iter().map(|(a, b)| (*a as usize, if *b == u32::MAX { usize::MAX } else { *b as usize })).collect()
}

fn text(g: &InputGraph) -> String {
    g.unit_test_output_string()
}

fn write(c: &mut Case, stream: &str, spec: Spec, how: How, k: usize) -> Verdict {
    c.about = spec.show();
    // all sums have to fit
    let total: u128 = spec.edges.iter().map(|e| e.2 as u128).sum();
    let max = if total < 1 << 31 { usize::MAX } else { (1usize << 30) / spec.edges.len() };
    let mut edges: Vec<(u32, u32, u32)> =
        spec.edges.iter().map(|e| (e.0 as u32, e.1 as u32, if e.2 > max { 1 + e.2 % max } else { e.2 } as u32)).collect();
    // sometimes they just fit
    let tight = c.rng.chance(30);
    if tight {
        let total: u64 = edges.iter().map(|e| e.2 as u64).sum();
        let k = (u32::MAX as u64 - 4000) / total;
        for e in edges.iter_mut() {
            e.2 *= k as u32;
        }
        c.count("graphs_with_sums_close_to_2^32", 1);
    }
    let g = input(&edges);
    let n = g.get_num_nodes();
    let fg = prep(&g, &how)?;
    let (bytes, json) = store(&fg)?;
    let mut calc = create_calculator(&fg);
    let mut single = vec![];
    for i in 0..k {
        let (s, t) = if n * n <= k { (i % (n * n) / n, i % n) } else { (c.rng.below(n), c.rng.below(n)) };
        single.push(((s as u32, t as u32), answer(calc.calc_path(&fg, s, t))));
    }
    let mut multi = vec![];
    for _ in 0..k / 4 + 1 {
        let list = |c: &mut Case| -> List {
            (0..c.rng.range(1, 8))
                .map(|_| {
                    let w = match c.rng.below(8) {
                        0 => 0,
                        1 => u32::MAX,
                        2 if !tight => c.rng.below(1 << 29) as u32,
                        _ => c.rng.below(1000) as u32,
                    };
                    (c.rng.below(n) as u32, w)
                })
                .collect()
        };
        let (s, t) = (list(c), list(c));
        let a = answer(calc.calc_path_multiple_sources_and_targets(&fg, usizes(&s), usizes(&t)));
        multi.push(((s, t), a));
    }
    c.evals(1);
    c.distinct(spec.hash());
    c.count("graphs_written", 1);
    let record = Record {
        about: c.about.clone(),
        edges,
        how,
        bytes,
        json,
        ordering: get_node_ordering(&fg).iter().map(|x| *x as u32).collect(),
        counts: (n as u64, fg.get_num_out_edges() as u64, fg.get_num_in_edges() as u64),
        single,
        multi,
        file: if n < 300 { text(&g) } else { String::new() },
    };
    let b = bincode::serialize(&record).unwrap();
    std::fs::write(path_of(c, stream), b).unwrap_or_else(|e| harness_error(&format!("{}", e)));
    Ok(())
}

fn repeat(c: &mut Case, r: &Record, fg: &FastGraph, what: &str) -> Verdict {
    c.evals(1);
    let counts = (fg.get_num_nodes() as u64, fg.get_num_out_edges() as u64, fg.get_num_in_edges() as u64);
    ensure!(counts == r.counts, "{}: counts {:?} instead of {:?}", what, counts, r.counts);
    let ordering: Vec<u32> = get_node_ordering(fg).iter().map(|x| *x as u32).collect();
    ensure!(ordering == r.ordering, "{}: another node ordering", what);
    let mut calc = create_calculator(fg);
    for ((s, t), want) in &r.single {
        let got = answer(calc.calc_path(fg, *s as usize, *t as usize));
        c.evals(1);
        c.count("answers_with_path", got.is_some() as u64);
        ensure!(got == *want, "{}: {} -> {}: {:?} instead of {:?}", what, s, t, got, want);
    }
    for ((s, t), want) in &r.multi {
        let got = answer(calc.calc_path_multiple_sources_and_targets(fg, usizes(s), usizes(t)));
        c.evals(1);
        ensure!(got == *want, "{}: {:?} -> {:?}: {:?} instead of {:?}", what, s, t, got, want);
    }
    let (bytes, json) = store(fg)?;
    ensure!(bytes == r.bytes, "{}: stored in the 32-bit representation it has other bytes", what);
    ensure!(json == r.json, "{}: stored in the 32-bit representation as text it differs", what);
    c.evals(2);
    // invalid queries
    let n = r.counts.0 as usize;
    for bad in [n, usize::MAX, usize::MAX - 1] {
        c.evals(1);
        ensure!(catch(|| calc.calc_path(fg, 0, bad)).is_err(), "{}: target {} was accepted", what, bad);
    }
    Ok(())
}

fn verify(c: &mut Case, stream: &str) -> Verdict {
    let p = path_of(c, stream);
    let b = std::fs::read(&p).unwrap_or_else(|e| harness_error(&format!("{}: {}", p, e)));
    let r: Record = bincode::deserialize(&b).unwrap_or_else(|e| harness_error(&format!("{}: {}", p, e)));
    c.about = format!("{} preparation {}", r.about, format!("{:?}", r.how).chars().take(300).collect::<String>());
    let w: Wrapper = bincode::deserialize(&r.bytes).map_err(|e| format!("not loaded: {}", e))?;
    ensure!(w.before == 1 && w.after == 2, "the fields around the graph have changed");
    c.count("graphs_verified", 1);
    c.distinct(rng::hash_bytes(&r.bytes));
    repeat(c, &r, &w.graph, "graph loaded from the other platform")?;
    if !r.json.is_empty() {
        let w: Wrapper = serde_json::from_str(&r.json).map_err(|e| format!("not loaded from text: {}", e))?;
        repeat(c, &r, &w.graph, "graph loaded from the other platform as text")?;
    }
    let g = input(&r.edges);
    ensure!(r.file.is_empty() || text(&g) == r.file, "the input graph differs");
    let own = prep(&g, &r.how)?;
    repeat(c, &r, &own, "graph prepared on this platform")
}

fn how(c: &mut Case, spec: &Spec) -> How {
    let n = spec.model().n;
    match c.rng.below(8) {
        0..=3 => How::Default,
        4 | 5 => {
            How::Params(*c.rng.pick(&[0.0, 0.1, 0.5, 1.0]), 100, *c.rng.pick(&[1, 2, 5, 10]), *c.rng.pick(&[20, 100]))
        }
        _ if n <= 64 => How::Order(c.rng.perm(n).iter().map(|x| *x as u32).collect(), *c.rng.pick(&[0, 1, 3, 100])),
        _ => How::Default,
    }
}

fn write_random(c: &mut Case, stream: &str, size: Size, k: usize) -> Verdict {
    // only these have the same weights on all platforms
    let regime = *c.rng.pick(&["unit", "tiny", "small", "mid", "two", "few", "decreasing"]);
    let family = *c.rng.pick(FAMILIES);
    let n = match size {
        Size::Tiny => c.rng.range(2, 8),
        Size::Small => c.rng.range(9, 40),
        Size::Medium => c.rng.range(80, 300),
        Size::Large => c.rng.range(1500, 4000),
        Size::Big => harness_error("another stream writes big graphs"),
    };
    let spec = gen_with(&mut c.rng, family, regime, n);
    let h = how(c, &spec);
    write(c, stream, spec, h, k)
}

fn write_map(c: &mut Case) -> Verdict {
    let name = MAPS[c.idx as usize % MAPS.len()];
    let spec = Spec { family: name, regime: "original", edges: read_map(name) };
    write(c, "maps", spec, How::Default, 150)
}

fn write_big(c: &mut Case) -> Verdict {
    let n = 66_000 + c.rng.below(4000);
    let family = *c.rng.pick(&["roadlike", "line_bidir", "bintree", "ladder"]);
    let spec = gen_with(&mut c.rng, family, "small", n);
    write(c, "big", spec, How::Default, 40)
}

/// everything against Dijkstra, with weights up to the limits of this platform
fn own(c: &mut Case, size: Size, budget: usize) -> Verdict {
    let mut spec = gen_regime(&mut c.rng, size, "small");
    let kind = c.rng.below(5);
    let k = c.rng.range(1, 12);
    let bits = usize::BITS as usize;
    for e in spec.edges.iter_mut().filter(|e| e.2 > 0) {
        e.2 = match kind {
            0 => (usize::MAX / k - 2).saturating_add(c.rng.below(5)),
            1 => (1usize << (bits - 1)) - 2 + c.rng.below(5),
            2 => usize::MAX - c.rng.below(3 * k),
            3 => 1usize << c.rng.below(bits),
            _ => c.rng.range(1, 1_000_000),
        };
    }
    let m = spec.model();
    let g = spec.input();
    c.about = spec.show();
    c.distinct(spec.hash());
    let fg = if m.n <= 40 && c.rng.chance(40) {
        let o = c.rng.perm(m.n);
        prepare_with_order(&g, &o).map_err(|e| format!("order rejected: {}", e))?
    } else {
        prepare(&g)
    };
    let mut calc = create_calculator(&fg);
    check_queries(c, &m, &fg, &mut calc, What::Both, budget)?;
    c.count("graphs_with_weights_close_to_the_limit", (kind < 4) as u64);
    Ok(())
}

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    cli(8, |ctx| {
        let f = if ctx.thorough { 6 } else { 1 };
        let streams = [("tiny", Size::Tiny, 1500, 64), ("small", Size::Small, 800, 200), ("medium", Size::Medium, 60, 200)];
        match mode.as_str() {
            "write" => {
                for (s, size, k, q) in streams {
                    ctx.run_cases(s, k * f, k * f, 1e9, |c| write_random(c, s, size, q));
                }
                ctx.run_cases("large", 8 * f, 8 * f, 1e9, |c| write_random(c, "large", Size::Large, 100));
                ctx.run_cases("maps", 5, 5, 1e9, write_map);
                ctx.run_cases("big", 2, 2, 1e9, write_big);
            }
            "verify" => {
                for (s, _, k, _) in streams {
                    ctx.run_cases(s, k * f, k * f, 1e9, |c| verify(c, s));
                }
                ctx.run_cases("large", 8 * f, 8 * f, 1e9, |c| verify(c, "large"));
                ctx.run_cases("maps", 5, 5, 1e9, |c| verify(c, "maps"));
                ctx.run_cases("big", 2, 2, 1e9, |c| verify(c, "big"));
            }
            "own" => {
                let t = if ctx.thorough { 12.0 } else { 1.0 };
                ctx.run_cases("own_tiny", 2000, 10_000_000, 4.0 * t, |c| own(c, Size::Tiny, 100));
                ctx.run_cases("own_small", 500, 10_000_000, 5.0 * t, |c| own(c, Size::Small, 1600));
                ctx.run_cases("own_medium", 40, 10_000_000, 4.0 * t, |c| own(c, Size::Medium, 6000));
            }
            m => harness_error(&format!("unknown mode {}", m)),
        }
    });
}
