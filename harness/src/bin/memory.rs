//! C24: memory. The allocator counts what each thread holds; a case measures what a call needs at most, what it leaves,
//! and whether that grows when calls are repeated. Requests for more than 4 GiB fail, as they do on many systems.
#![allow(dead_code)]
#[macro_use]
#[path = "../run.rs"]
mod run;
#[path = "../gen.rs"]
mod gen;
#[path = "../oracle.rs"]
mod oracle;
#[path = "../rng.rs"]
mod rng;

use fast_paths::*;
use gen::*;
use rng::Rng;
use run::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Write;

struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

const REFUSED: usize = 4 << 30;

fn note(change: i64) {
    let live = LIVE.get() + change;
    LIVE.set(live);
    if change > 0 {
        CALLS.set(CALLS.get() + 1);
        if live > PEAK.get() {
            PEAK.set(live);
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSED {
            return std::ptr::null_mut();
        }
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSED {
            return std::ptr::null_mut();
        }
        note(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSED {
            return std::ptr::null_mut();
        }
        // both can exist at the same time
        note(n as i64);
        note(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// (result, bytes that are held more than before, bytes that were needed on top of those before at most)
fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, i64) {
    let before = LIVE.get();
    PEAK.set(before);
    let r = f();
    (r, LIVE.get() - before, PEAK.get() - before)
}

fn main() {
    cli(8, |ctx| {
        let t = if ctx.thorough { 15.0 } else { 1.0 };
        ctx.run_cases("calculator", 40, 10_000_000, 8.0 * t, calculator);
        ctx.run_cases("elsewhere", 16, 10_000_000, 5.0 * t, elsewhere);
        ctx.run_cases("input", 40, 10_000_000, 4.0 * t, input);
        ctx.run_cases("prepare", 40, 10_000_000, 10.0 * t, prepare_case);
        ctx.run_cases("roads", 8, 10_000_000, 5.0 * t, roads);
        ctx.run_cases("store", 40, 10_000_000, 6.0 * t, store);
        ctx.run_cases("files", 40, 10_000_000, 5.0 * t, files);
        ctx.run_cases("claims", 200, 10_000_000, 6.0 * t, claims);
    })
}

/// counts one comparison with a bound, remembers how close it came (in percent), and complains if it was exceeded
fn within(c: &mut Case, what: &str, bytes: i64, bound: usize) -> Verdict {
    c.evals(1);
    c.max(&format!("percent_{}", what.replace(' ', "_")), (bytes.max(0) as u64) * 100 / (bound as u64).max(1));
    ensure!(bytes <= bound as i64, "{}: {} bytes, but at most {} are allowed", what, bytes, bound);
    Ok(())
}

/// live bytes after 2^i rounds: they must not go on growing
fn settled(c: &mut Case, what: &str, at: &[i64]) -> Verdict {
    c.evals(1);
    ensure!(
        at.windows(2).any(|p| p[1] - p[0] < 8),
        "{}: the memory in use grows with the number of repetitions, after 4, 8, 16, ...: {:?}",
        what,
        at
    );
    Ok(())
}

fn any_graph(c: &mut Case) -> Spec {
    let s = match c.rng.below(10) {
        0 => gen_hubs(&mut c.rng),
        1 | 2 => gen(&mut c.rng, Size::Tiny),
        3 | 4 => gen(&mut c.rng, Size::Small),
        _ => gen(&mut c.rng, Size::Medium),
    };
    c.about = s.show();
    if s.edges.len() >= 2 {
        c.distinct(s.hash());
    }
    s
}

/// an input graph with at least one node
fn frozen(s: &Spec) -> InputGraph {
    let g = s.input();
    if g.get_num_nodes() > 0 {
        return g;
    }
    let mut g = InputGraph::new();
    g.add_edge(0, 1, 1);
    g.freeze();
    g
}

fn bytes_per_node_of_calculator(n: usize) -> usize {
    // twice 24 for the labels, twice 4 for the flags, and as much again
    160 * n + 2000
}

// ------------------------------------------------------------------ calculators

enum Q {
    One(usize, usize),
    Lists(Vec<(usize, usize)>, Vec<(usize, usize)>),
}

fn some_queries(rng: &mut Rng, n: usize, k: usize) -> (Vec<Q>, usize) {
    let mut longest = 0;
    let list = |rng: &mut Rng| -> Vec<(usize, usize)> {
        let l = *rng.pick(&[1, 1, 2, 3, 10, 40]);
        (0..l).map(|_| (rng.below(n), rng.below(30))).collect()
    };
    let r = (0..k)
        .map(|_| match rng.below(10) {
            // rejected
            0 => Q::One(n + rng.below(3), rng.below(n)),
            1 => {
                let mut l = list(rng);
                l.push((n, 0));
                Q::Lists(list(rng), if rng.chance(50) { l } else { vec![] })
            }
            2..=4 => {
                let (a, b) = (list(rng), list(rng));
                longest = longest.max(a.len() + b.len());
                Q::Lists(a, b)
            }
            _ => Q::One(rng.below(n), rng.below(n)),
        })
        .collect();
    (r, longest)
}

fn ask(c: &mut PathCalculator, fg: &FastGraph, q: &Q) -> Option<ShortestPath> {
    let r = match q {
        Q::One(s, t) => catch(|| c.calc_path(fg, *s, *t)),
        Q::Lists(a, b) => {
            let (a, b) = (a.clone(), b.clone());
            catch(|| c.calc_path_multiple_sources_and_targets(fg, a, b))
        }
    };
    r.unwrap_or(None)
}

fn calculator(c: &mut Case) -> Verdict {
    let g = frozen(&any_graph(c));
    let (fg, how) = prepare_any(&mut c.rng, &g);
    c.about.push_str(&how);
    let n = fg.get_num_nodes();
    let m = fg.get_num_out_edges() + fg.get_num_in_edges();
    let (mut calc, left, peak) = measure(|| create_calculator(&fg));
    within(c, "a new calculator", left, bytes_per_node_of_calculator(n))?;
    within(c, "creating a calculator", peak, bytes_per_node_of_calculator(n))?;
    let k = c.rng.range(1, 25);
    let (queries, longest) = some_queries(&mut c.rng, n, k);
    let working = 64 * m + 64 * longest + 2000;
    let start = LIVE.get() - left;
    let mut at = Vec::with_capacity(8);
    let rounds = if n < 200 { 128 } else { 64 };
    for i in 1..=rounds {
        for q in &queries {
            let (_, _, peak) = measure(|| ask(&mut calc, &fg, q));
            if i < 3 {
                within(c, "a query", peak, working + 200 * n)?;
            }
            let held = LIVE.get() - start;
            if held > (bytes_per_node_of_calculator(n) + working) as i64 {
                within(c, "a used calculator", held, bytes_per_node_of_calculator(n) + working)?;
            }
        }
        if i >= 4 && (i as u64).is_power_of_two() {
            at.push(LIVE.get());
        }
    }
    within(c, "a used calculator", LIVE.get() - start, bytes_per_node_of_calculator(n) + working)?;
    c.count("queries", (rounds * queries.len()) as u64);
    settled(c, "queries with a calculator", &at)?;
    // always different queries, the bound is the same
    for _ in 0..60 {
        let (queries, _) = some_queries(&mut c.rng, n, 10);
        for q in &queries {
            ask(&mut calc, &fg, q);
        }
        c.count("queries", 10);
    }
    within(c, "a used calculator", LIVE.get() - start, bytes_per_node_of_calculator(n) + 64 * m + 64 * 100 + 2000)?;
    // the functions without a calculator
    let mut at = Vec::with_capacity(8);
    for i in 1..=32 {
        let q = &queries[i % queries.len()];
        match q {
            Q::One(s, t) => drop(catch(|| calc_path(&fg, *s, *t))),
            Q::Lists(a, b) => drop(catch(|| calc_path_multiple_sources_and_targets(&fg, a.clone(), b.clone()))),
        }
        if i >= 4 && (i as u64).is_power_of_two() {
            at.push(LIVE.get());
        }
    }
    settled(c, "queries without a calculator", &at)?;
    drop(calc);
    let rest = LIVE.get() - start;
    within(c, "after the calculator is dropped", rest, 4000)
}

/// the working memory of queries does not depend on nodes that they do not reach
fn elsewhere(c: &mut Case) -> Verdict {
    let n = c.rng.range(20, 200);
    let regime = *c.rng.pick(REGIMES);
    let s = gen_with(&mut c.rng, "roadlike", regime, n);
    c.about = s.show();
    c.distinct(s.hash());
    let own = 1 + s.edges.iter().map(|e| e.0.max(e.1)).max().unwrap_or(0);
    let mut queries = some_queries(&mut c.rng, own, 40).0;
    // rejected ones, too
    queries.retain(|q| !matches!(q, Q::One(s, t) if *s.max(t) >= own));
    queries.push(Q::One(usize::MAX, 0));
    let mut worst = vec![];
    for pad in [200usize, 30_000] {
        let mut g = InputGraph::new();
        for &(u, v, w) in &s.edges {
            g.add_edge(u, v, w);
        }
        for i in 0..pad - 1 {
            g.add_edge_bidir(own + i, own + i + 1, 1 + i % 9);
        }
        g.freeze();
        let fg = prepare_with_params(&g, &Params::new(0.1, 100, 10, 100));
        let mut calc = create_calculator(&fg);
        let mut most = 0;
        for q in &queries {
            let (_, _, peak) = match q {
                // copied before
                Q::Lists(a, b) => {
                    let (a, b) = (a.clone(), b.clone());
                    measure(|| catch(|| calc.calc_path_multiple_sources_and_targets(&fg, a, b)))
                }
                q => measure(|| Ok(ask(&mut calc, &fg, q))),
            };
            most = most.max(peak);
        }
        let q = calc.calc_path(&fg, own, own + pad - 1);
        ensure!(q.is_some(), "no path on a line");
        worst.push(most);
        c.count("queries", queries.len() as u64 + 1);
    }
    within(c, "a query in a part of a large graph", worst[1], 2 * worst[0].max(0) as usize + 4096)
}

// ------------------------------------------------------------------ input graphs

fn input(c: &mut Case) -> Verdict {
    let m = *c.rng.pick(&[0, 1, 10, 100, 1000, 20_000, 60_000]);
    // ids do not matter
    let far = if c.rng.chance(50) { usize::MAX - 1 - 1_000_000 } else { 0 };
    let spread = *c.rng.pick(&[2, 10, 1000, 1_000_000]);
    let mut edges = vec![];
    for _ in 0..m {
        edges.push((far + c.rng.below(spread), far + c.rng.below(spread), c.rng.below(50)));
    }
    match c.rng.below(4) {
        0 => edges.sort(),
        1 => edges.sort_by(|a, b| b.cmp(a)),
        _ => {}
    }
    c.about = format!("{} edges between {} nodes from {}", m, spread, far);
    let r = c.rng.next();
    c.distinct(rng::hash_bytes(c.about.as_bytes()) ^ r);
    let per = |added: usize| 160 * added + 2000;
    let (mut g, left, _) = measure(InputGraph::new);
    within(c, "a new input graph", left, 2000)?;
    let start = LIVE.get() - left;
    let mut added = 0;
    let (_, _, peak) = measure(|| {
        for &(u, v, w) in &edges {
            added += if w % 2 == 0 { g.add_edge(u, v, w) } else { g.add_edge_bidir(u, v, w) };
        }
    });
    within(c, "adding edges", peak, per(added))?;
    within(c, "an input graph that is not frozen", LIVE.get() - start, per(added))?;
    // what is skipped needs nothing
    let (_, left, _) = measure(|| {
        for i in 0..2000 {
            g.add_edge(far + i, far + i, 3);
            g.add_edge_bidir(far + i, far + i + 1, 0);
        }
    });
    within(c, "skipped edges", left, 2000)?;
    let (_, _, peak) = measure(|| g.freeze());
    within(c, "freezing", peak, per(added))?;
    within(c, "a frozen input graph", LIVE.get() - start, per(added))?;
    let (sum, left, peak) = measure(|| g.get_num_nodes() + g.get_num_edges() + g.get_edges().len());
    c.count("values_read", (sum > 0) as u64);
    within(c, "reading an input graph", left.max(peak), 1000)?;
    // again and again
    let kept = g.get_num_edges();
    let mut at = Vec::with_capacity(8);
    for i in 1..=32u64 {
        g.thaw();
        for &(u, v, w) in edges.iter().take(200) {
            g.add_edge(u, v, w + 50);
        }
        g.freeze();
        if i >= 4 && i.is_power_of_two() {
            at.push(LIVE.get());
        }
    }
    ensure!(g.get_num_edges() <= kept + 200, "{} edges, before {}", g.get_num_edges(), kept);
    settled(c, "thawing, adding the same edges, freezing", &at)?;
    within(c, "an input graph after thawing and freezing", LIVE.get() - start, per(added + 400))?;
    let (copy, left, peak) = measure(|| g.clone());
    within(c, "a copy of an input graph", left.max(peak), per(added + 400))?;
    drop(copy);
    drop(g);
    within(c, "after the input graph is dropped", LIVE.get() - start, 5000)
}

// ------------------------------------------------------------------ preparation

/// what preparing may need on top of the input: `n` nodes, `m` stored edges in both directions
fn working_memory(n: usize, m: usize) -> usize {
    1100 * n + 500 * m + 4000
}

fn stored(n: usize, m: usize) -> usize {
    80 * n + 120 * m + 2000
}

fn check_preparation(c: &mut Case, g: &InputGraph, what: &str, f: impl Fn() -> FastGraph) -> Verdict {
    let n = g.get_num_nodes();
    let before = LIVE.get();
    let (fg, left, peak) = measure(&f);
    let m = fg.get_num_out_edges() + fg.get_num_in_edges();
    c.count("nodes_prepared", n as u64);
    c.count("edges_stored", m as u64);
    within(c, &format!("preparing {}", what), peak, working_memory(n, m + 2 * g.get_num_edges()))?;
    within(c, "a prepared graph", left, stored(n, m))?;
    let (copy, left, _) = measure(|| fg.clone());
    within(c, "a copy of a prepared graph", left, stored(n, m))?;
    drop(copy);
    let (order, left, peak) = measure(|| get_node_ordering(&fg));
    within(c, "a node ordering", left, 16 * order.len() + 1000)?;
    within(c, "getting the node ordering", peak, 64 * n + 1000)?;
    drop(order);
    drop(fg);
    within(c, "after the prepared graph is dropped", LIVE.get() - before, 5000)?;
    let mut at = Vec::with_capacity(8);
    if n < 60 {
        for i in 1..=32u64 {
            drop(f());
            if i >= 4 && i.is_power_of_two() {
                at.push(LIVE.get());
            }
        }
        settled(c, "preparing", &at)?;
    }
    Ok(())
}

fn prepare_case(c: &mut Case) -> Verdict {
    let s = any_graph(c);
    let g = frozen(&s);
    let n = g.get_num_nodes();
    check_preparation(c, &g, "with default parameters", || prepare(&g))?;
    if n <= 300 {
        let order = c.rng.perm(n);
        let l = *c.rng.pick(&[0, 1, 5, 50, 1000]);
        check_preparation(c, &g, "with a random order", || {
            prepare_with_order_with_params(&g, &order, &ParamsWithOrder::new(l)).unwrap()
        })?;
        // rejected orders
        let before = LIVE.get();
        let mut bad = order.clone();
        bad.push(0);
        let (_, left, _) = measure(|| prepare_with_order(&g, &bad).is_err());
        within(c, "a rejected order", left, 1000)?;
        bad.truncate(n);
        bad[0] = bad[n - 1];
        for _ in 0..20 {
            let _ = catch(|| prepare_with_order(&g, &bad).is_err());
        }
        drop(bad);
        within(c, "rejected orders", LIVE.get() - before, 5000)?;
    }
    let p = Params::new(*c.rng.pick(&[0.0, 0.1, 1.0]), *c.rng.pick(&[0, 10, 1000]), *c.rng.pick(&[0, 3, 20]), *c.rng.pick(&[1, 50, 300]));
    check_preparation(c, &g, "with parameters", || prepare_with_params(&g, &p))
}

/// larger networks, with many searches in relation to the number of nodes
fn roads(c: &mut Case) -> Verdict {
    let (w, h) = (c.rng.range(20, 90), c.rng.range(20, 90));
    let mut g = InputGraph::new();
    for x in 0..w {
        for y in 0..h {
            for (x2, y2) in [(x + 1, y), (x, y + 1)] {
                if x2 < w && y2 < h && !c.rng.chance(10) {
                    let l = c.rng.range(10, 100);
                    g.add_edge_bidir(x * h + y, x2 * h + y2, l);
                }
            }
        }
    }
    // nodes without edges
    let far = g_nodes(&mut g) + *c.rng.pick(&[0, 100, 20_000]);
    g.add_edge(far, 0, 5);
    g.freeze();
    c.about = format!("grid {} x {}, {} nodes", w, h, far + 1);
    let r = c.rng.next();
    c.distinct(rng::hash_bytes(c.about.as_bytes()) ^ r);
    check_preparation(c, &g, "a road network", || prepare(&g))?;
    let order = get_node_ordering(&prepare_with_params(&g, &Params::new(0.1, 100, 5, 100)));
    check_preparation(c, &g, "a road network again", || prepare_with_order(&g, &order).unwrap())
}

fn g_nodes(g: &mut InputGraph) -> usize {
    g.freeze();
    let n = g.get_num_nodes();
    g.thaw();
    n
}

// ------------------------------------------------------------------ stored graphs

struct Narrow(FastGraph);
impl Serialize for Narrow {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serialize_32(&self.0, s)
    }
}
impl<'de> Deserialize<'de> for Narrow {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        deserialize_32(d).map(Narrow)
    }
}

fn small_weights(c: &mut Case) -> InputGraph {
    let regime = *c.rng.pick(&["unit", "tiny", "small", "mid"]);
    let size = *c.rng.pick(&[Size::Tiny, Size::Small, Size::Medium, Size::Medium]);
    let s = gen_regime(&mut c.rng, size, regime);
    c.about = s.show();
    c.distinct(s.hash());
    frozen(&s)
}

fn store(c: &mut Case) -> Verdict {
    let g = small_weights(c);
    let (fg, how) = prepare_any(&mut c.rng, &g);
    c.about.push_str(&how);
    let n = fg.get_num_nodes();
    let m = fg.get_num_out_edges() + fg.get_num_in_edges();
    let fits = catch(|| FastGraph32::new(&fg)).is_ok();
    let size = stored(n, m);
    let (bytes, _, peak) = measure(|| bincode::serialize(&fg).unwrap());
    within(c, "storing", peak, 3 * size)?;
    let (h, left, peak) = measure(|| bincode::deserialize::<FastGraph>(&bytes).unwrap());
    within(c, "a loaded graph", left, size)?;
    within(c, "loading", peak, 3 * size + 100_000)?;
    drop(h);
    // without a buffer
    let (_, left, peak) = measure(|| bincode::serialize_into(std::io::sink(), &fg).unwrap());
    within(c, "storing into a stream", peak.max(left), 10_000)?;
    let (bytes, _, _) = measure(|| bincode::serialize(&g).unwrap());
    let (h, left, peak) = measure(|| bincode::deserialize::<InputGraph>(&bytes).unwrap());
    within(c, "loading an input graph", left.max(peak), 8 * bytes.len() + 10_000)?;
    drop(h);
    if fits {
        let narrow = Narrow(fg);
        let (bytes, left, peak) = measure(|| bincode::serialize(&narrow).unwrap());
        within(c, "after storing with 32 bits", left, size)?;
        within(c, "storing with 32 bits", peak, 4 * size)?;
        let (h, left, peak) = measure(|| bincode::deserialize::<Narrow>(&bytes).unwrap());
        within(c, "a graph loaded from 32 bits", left, size)?;
        within(c, "loading from 32 bits", peak, 4 * size + 100_000)?;
        drop(h);
        let (f, left, peak) = measure(|| FastGraph32::new(&narrow.0));
        within(c, "converting to 32 bits", left.max(peak), size)?;
        let (_, _, peak) = measure(|| f.convert_to_usize());
        within(c, "converting to the native size", peak, 2 * size)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ files

fn scratch(c: &mut Case, what: &str) -> String {
    let dir = std::env::var("FP_SCRATCH").unwrap_or_else(|_| "/verif/scratch".into());
    format!("{}/memory-{}-{:x}-{}", dir, std::process::id(), c.rng.next(), what)
}

struct Removed(String);
impl Drop for Removed {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn files(c: &mut Case) -> Verdict {
    let m = *c.rng.pick(&[1, 100, 5000, 40_000]);
    let n = c.rng.range(2, 2000);
    let mut g = InputGraph::new();
    while g.add_edge(c.rng.below(n), c.rng.below(n), 1 + c.rng.below(1000)) == 0 {}
    for _ in 0..m {
        g.add_edge(c.rng.below(n), c.rng.below(n), 1 + c.rng.below(1000));
    }
    g.freeze();
    let m = g.get_num_edges();
    c.about = format!("{} nodes, {} edges", n, m);
    let r = c.rng.next();
    c.distinct(rng::hash_bytes(c.about.as_bytes()) ^ r);
    let path = Removed(scratch(c, "a"));
    let dimacs = Removed(scratch(c, "d"));
    let (r, left, peak) = measure(|| g.to_file(&path.0));
    r.map_err(|e| e.to_string())?;
    within(c, "writing a file", left.max(peak), 100_000)?;
    let (r, left, peak) = measure(|| g.to_dimacs_file(&dimacs.0));
    r.map_err(|e| e.to_string())?;
    within(c, "writing a dimacs file", left.max(peak), 100_000)?;
    // comments need nothing, however many there are
    let lines = *c.rng.pick(&[0, 1000, 100_000]);
    let comment = "c ".to_string() + &"x".repeat(c.rng.below(100));
    for p in [&path, &dimacs] {
        let f = std::fs::OpenOptions::new().append(true).open(&p.0).unwrap();
        let mut f = std::io::BufWriter::new(f);
        for _ in 0..lines {
            writeln!(f, "{}", comment).unwrap();
        }
        f.flush().unwrap();
    }
    let (h, left, peak) = measure(|| InputGraph::from_file(&path.0));
    ensure!(h.get_num_edges() == m, "{} edges read, {} written", h.get_num_edges(), m);
    within(c, "a graph read from a file", left, 160 * m + 2000)?;
    within(c, "reading a file", peak, 200 * m + 100_000)?;
    drop(h);
    let (h, left, peak) = measure(|| InputGraph::from_dimacs_file(&dimacs.0));
    ensure!(h.get_num_edges() == m, "{} edges read, {} written", h.get_num_edges(), m);
    within(c, "a graph read from a dimacs file", left, 160 * m + 2000)?;
    within(c, "reading a dimacs file", peak, 200 * m + 100_000)?;
    Ok(())
}

/// numbers in files and stored graphs that promise more than there is
fn claims(c: &mut Case) -> Verdict {
    let huge = |rng: &mut Rng| *rng.pick(&[1usize << 24, 1 << 31, (1 << 32) - 2, 1 << 40, 1 << 50, 1 << 60, usize::MAX / 2, usize::MAX - 1]);
    if c.rng.chance(30) {
        let k = c.rng.below(20);
        let (nodes, edges) = (huge(&mut c.rng), if c.rng.chance(50) { huge(&mut c.rng) } else { k });
        let mut text = format!("c comment\np sp {} {}\n", nodes, edges);
        for _ in 0..k {
            let to = if c.rng.chance(50) { huge(&mut c.rng).min(nodes) } else { 3 };
            text.push_str(&format!("a {} {} {}\n", 1 + c.rng.below(2), to, 1 + c.rng.below(9)));
        }
        c.about = text.clone();
        c.distinct(rng::hash_bytes(text.as_bytes()));
        let path = Removed(scratch(c, "claims"));
        std::fs::write(&path.0, &text).unwrap();
        let (r, _, peak) = measure(|| catch(|| InputGraph::from_dimacs_file(&path.0)));
        ensure!(r.is_ok() == (k == edges), "the file says {} edges and has {}: {}", edges, k, if r.is_ok() { "read" } else { "rejected" });
        within(c, "reading a dimacs file with large numbers", peak, 300_000)?;
        let (r, _, peak) = measure(|| catch(|| InputGraph::from_file(&path.0)));
        ensure!(r.is_ok(), "a file with large node ids cannot be read");
        within(c, "reading a file with large numbers", peak, 300_000)?;
        if let Ok(g) = r {
            // and written
            let (r, _, peak) = measure(|| g.to_dimacs_file(&path.0));
            ensure!(r.is_ok(), "a graph with large node ids cannot be written");
            within(c, "writing a dimacs file with large numbers", peak, 100_000)?;
        }
        return Ok(());
    }
    let g = small_weights(c);
    let fg = prepare_with_params(&g, &Params::new(0.1, 20, 2, 20));
    let narrow = c.rng.chance(50) && catch(|| FastGraph32::new(&fg)).is_ok();
    let (mut bytes, unit) = if narrow { (bincode::serialize(&Narrow(fg)).unwrap(), 4) } else { (bincode::serialize(&fg).unwrap(), 8) };
    // where the counts are: nodes, length of ranks, of edges, ...
    let n = g.get_num_nodes();
    let mut places = vec![0];
    let mut at = unit;
    for part in [unit, 5 * unit, unit, 5 * unit, unit] {
        places.push(at);
        let len = u64::from_le_bytes(bytes[at..at + 8].try_into().unwrap()) as usize;
        at += 8 + len * part;
    }
    if at != bytes.len() {
        // another format: anywhere
        c.count("unknown_formats", 1);
        places = vec![0, c.rng.below(bytes.len() - 8)];
    }
    let which = c.rng.below(places.len());
    let value = huge(&mut c.rng);
    let at = places[which];
    if narrow && which == 0 {
        let v = value.min((1 << 32) - 2) as u32;
        bytes[at..at + 4].copy_from_slice(&v.to_le_bytes());
    } else {
        bytes[at..at + 8].copy_from_slice(&(value as u64).to_le_bytes());
    }
    if c.rng.chance(30) {
        let l = c.rng.range(at, bytes.len());
        bytes.truncate(l);
    }
    c.about = format!("count {} replaced by {}, {} bytes, {} nodes, 32 bits: {}", which, value, bytes.len(), n, narrow);
    c.distinct(rng::hash_bytes(&bytes));
    let before = LIVE.get();
    // serde itself reserves one MiB for each list at most
    let bound = 16 * bytes.len() + (8 << 20);
    let (kind, what) = if narrow { (32, "loading a damaged graph from 32 bits") } else { (64, "loading a damaged graph") };
    let (ok, _, peak) = if narrow {
        measure(|| catch(|| bincode::deserialize::<Narrow>(&bytes).is_ok()))
    } else {
        measure(|| catch(|| bincode::deserialize::<FastGraph>(&bytes).is_ok()))
    };
    c.count(&format!("damaged_{}_{}", kind, match ok { Ok(true) => "accepted", Ok(false) => "refused", _ => "panicked" }), 1);
    within(c, what, peak, bound)?;
    within(c, "after loading a damaged graph", LIVE.get() - before, 5000)
}
