//! Random valid and invalid use of the whole API, results are not looked at. Used under several
//! sanitizers, under Miri, and by the leak monitor, so it depends on nothing but the library.
use crate::rng::Rng;
use fast_paths::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// what was done
#[derive(Default, Clone, Debug)]
pub struct Log {
    pub calls: u64,
    pub panics: u64,
    pub paths: u64,
    pub corrupted: u64,
    pub corrupted_queries: u64,
    pub threads: u64,
    pub hash: u64,
}

impl Log {
    fn note(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x100000001b3).rotate_left(17);
    }
}

fn attempt<T>(log: &mut Log, f: impl FnOnce() -> T) -> Option<T> {
    log.calls += 1;
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    if r.is_none() {
        log.panics += 1;
    }
    r
}

fn some_weight(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => *rng.pick(&[0, 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, u32::MAX as usize]),
        _ => rng.range(1, 50),
    }
}

pub fn input(rng: &mut Rng, size: usize, log: &mut Log) -> InputGraph {
    let n = rng.range(2, size);
    let mut g = if rng.chance(50) { InputGraph::new() } else { Default::default() };
    let m = n * rng.range(1, 4);
    log.note(n as u64);
    for _ in 0..m {
        let (u, v) = if rng.chance(30) {
            let u = rng.below(n);
            (u, (u + 1) % n)
        } else {
            (rng.below(n), rng.below(n))
        };
        let w = if rng.chance(80) { rng.range(1, 50) } else { some_weight(rng) };
        log.note(((u * n + v) ^ w) as u64);
        log.calls += 1;
        if rng.chance(40) {
            g.add_edge_bidir(u, v, w);
        } else {
            g.add_edge(u, v, w);
        }
        if rng.chance(3) {
            g.freeze();
            attempt(log, || g.add_edge(0, 1, 1));
            attempt(log, || g.freeze());
            g.thaw();
            attempt(log, || g.get_num_nodes());
            attempt(log, || g.get_edges().len());
        }
    }
    if rng.chance(10) {
        attempt(log, || g.add_edge(0, usize::MAX, 3));
    }
    if rng.chance(15) {
        // not frozen
        attempt(log, || prepare(&g));
    }
    g.freeze();
    g
}

pub fn prepared(rng: &mut Rng, g: &InputGraph, log: &mut Log) -> FastGraph {
    let n = g.get_num_nodes();
    match rng.below(5) {
        0 | 1 => {
            let mut order = rng.perm(n);
            if rng.chance(25) && n > 1 {
                // wrong orders
                match rng.below(4) {
                    0 => order[0] = order[1],
                    1 => order[0] = n,
                    2 => {
                        order.pop();
                    }
                    _ => order.push(usize::MAX),
                }
                attempt(log, || prepare_with_order(g, &order));
                order = rng.perm(n);
            }
            let limit = *rng.pick(&[0, 1, 3, 100, usize::MAX]);
            match attempt(log, || prepare_with_order_with_params(g, &order, &ParamsWithOrder::new(limit))) {
                Some(Ok(fg)) => fg,
                _ => prepare(g),
            }
        }
        2 => {
            let p = Params::new(*rng.pick(&[0.0, 0.1, 5.0, -1.0, f32::NAN]), rng.below(30), rng.below(10), rng.below(100));
            attempt(log, || prepare_with_params(g, &p)).unwrap_or_else(|| prepare(g))
        }
        _ => {
            log.calls += 1;
            prepare(g)
        }
    }
}

fn node(rng: &mut Rng, n: usize, bad: usize) -> usize {
    if rng.chance(bad) {
        *rng.pick(&[n, n + 1, n + 7, 2 * n, usize::MAX, usize::MAX - 1, 1 << 32, usize::MAX / 2 + 1, usize::MAX / 32])
    } else {
        rng.below(n.max(1))
    }
}

fn entries(rng: &mut Rng, n: usize, bad: usize) -> Vec<(usize, usize)> {
    let k = match rng.below(6) {
        0 => rng.below(2),
        1..=3 => rng.range(1, 4),
        _ => rng.range(2, 12),
    };
    (0..k).map(|_| (node(rng, n, bad), if rng.chance(60) { rng.below(20) } else { some_weight(rng) })).collect()
}

pub fn queries(rng: &mut Rng, fg: &FastGraph, calc: &mut PathCalculator, k: usize, bad: usize, log: &mut Log) {
    let n = fg.get_num_nodes();
    for _ in 0..k {
        let r = match rng.below(6) {
            0 => {
                let (s, t) = (node(rng, n, bad), node(rng, n, bad));
                attempt(log, || calc_path(fg, s, t))
            }
            1..=3 => {
                let (s, t) = (node(rng, n, bad), node(rng, n, bad));
                attempt(log, || calc.calc_path(fg, s, t))
            }
            4 => {
                let (s, t) = (entries(rng, n, bad), entries(rng, n, bad));
                attempt(log, || calc.calc_path_multiple_sources_and_targets(fg, s, t))
            }
            _ => {
                let (s, t) = (entries(rng, n, bad), entries(rng, n, bad));
                attempt(log, || calc_path_multiple_sources_and_targets(fg, s, t))
            }
        };
        if let Some(Some(p)) = r {
            log.paths += 1;
            log.note(p.get_weight() as u64);
            for x in p.get_nodes() {
                log.note(*x as u64);
            }
        }
    }
}

/// A copy with damaged contents. Shortcuts never refer to other existing edges than before, since this
/// could be an endless nesting.
fn corrupted(rng: &mut Rng, fg: &FastGraph) -> Option<FastGraph> {
    let huge = fg.get_num_nodes() as u32 + fg.get_num_out_edges() as u32 + fg.get_num_in_edges() as u32;
    let wrong = |rng: &mut Rng| *rng.pick(&[huge, huge + 1, huge + 100, u32::MAX - 1, 1 << 31, 1 << 28]);
    if rng.chance(25) {
        // in the bytes
        let intact = bincode::serialize(fg).ok()?;
        let places: Vec<usize> = (0..rng.range(1, 3)).map(|_| rng.below(intact.len() / 8) * 8).collect();
        let damage = |values: &[u64]| -> Option<FastGraph> {
            let mut b = intact.clone();
            for (at, v) in places.iter().zip(values) {
                b[*at..at + 8].copy_from_slice(&v.to_le_bytes());
            }
            bincode::deserialize(&b).ok()
        };
        let values: Vec<u64> = places.iter().map(|_| wrong(rng) as u64).collect();
        let r = damage(&values)?;
        // a damaged length shifts everything behind it, so that shortcuts could contain themselves
        let shape = |g: &FastGraph| {
            let g = catch_unwind(AssertUnwindSafe(|| FastGraph32::new(g))).ok()?;
            Some([
                g.ranks.len(),
                g.edges_fwd.len(),
                g.edges_bwd.len(),
                g.first_edge_ids_fwd.len(),
                g.first_edge_ids_bwd.len(),
            ])
        };
        if r.get_num_nodes() > 5000 || shape(&r).is_none() || shape(&r) != shape(fg) {
            return None;
        }
        if rng.chance(50) {
            return Some(r);
        }
        // the same with larger values
        let shift = *rng.pick(&[31, 32, 28]);
        return damage(&values.iter().map(|v| v << shift).collect::<Vec<_>>()).filter(|g| g.get_num_nodes() <= 5000);
    }
    let mut g = match catch_unwind(AssertUnwindSafe(|| FastGraph32::new(fg))) {
        Ok(g) => g,
        Err(_) => return None,
    };
    for _ in 0..rng.range(1, 4) {
        let which = rng.below(12);
        let fwd = rng.chance(50);
        let n = g.ranks.len();
        let edges = if fwd { &mut g.edges_fwd } else { &mut g.edges_bwd };
        let first = if fwd { &mut g.first_edge_ids_fwd } else { &mut g.first_edge_ids_bwd };
        let m = edges.len();
        let at = rng.below(m.max(1));
        match which {
            0 | 1 if m > 0 => edges[at].adj_node = wrong(rng),
            2 if m > 0 => edges[at].base_node = wrong(rng),
            3 if m > 0 => {
                if rng.chance(50) {
                    edges[at].replaced_in_edge = wrong(rng)
                } else {
                    edges[at].replaced_out_edge = wrong(rng)
                }
            }
            4 if m > 0 => {
                // one of two references missing, or two wrong ones
                edges[at].replaced_in_edge = if rng.chance(50) { u32::MAX } else { wrong(rng) };
                edges[at].replaced_out_edge = wrong(rng);
            }
            5 if m > 0 => edges[at].adj_node = rng.below(n.max(1)) as u32,
            6 if m > 0 => edges[at].weight = *rng.pick(&[0, u32::MAX, u32::MAX - 1, 1]),
            7 if m > 0 => {
                edges.truncate(at);
            }
            8 => {
                let i = rng.below(first.len().max(1));
                if i < first.len() {
                    first[i] = if rng.chance(50) { wrong(rng) } else { rng.below(m + 1) as u32 };
                }
            }
            9 => {
                let l = rng.below(first.len() + 1);
                first.truncate(l);
            }
            10 if n > 0 => {
                let i = rng.below(n);
                g.ranks[i] = if rng.chance(50) { wrong(rng) } else { rng.below(n + 1) as u32 };
            }
            _ if n > 0 => {
                let l = rng.below(n);
                g.ranks.truncate(l);
            }
            _ => {}
        }
    }
    Some(if rng.chance(50) {
        g.convert_to_usize()
    } else {
        let b = bincode::serialize(&g).ok()?;
        let g: FastGraph32 = bincode::deserialize(&b).ok()?;
        g.convert_to_usize()
    })
}

struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// one random life of the library
pub fn round(rng: &mut Rng, size: usize, effort: usize, files: Option<&str>, log: &mut Log) {
    let g = input(rng, size, log);
    let fg = prepared(rng, &g, log);
    let mut calc = create_calculator(&fg);
    queries(rng, &fg, &mut calc, effort, 10, log);
    log.note(get_node_ordering(&fg).iter().fold(0, |a, x| a * 31 % 1_000_003 + *x as u64));
    // another graph with the same calculator
    if rng.chance(40) {
        let g2 = input(rng, size, log);
        let fg2 = prepared(rng, &g2, log);
        queries(rng, &fg2, &mut calc, 2, 10, log);
        queries(rng, &fg, &mut calc, 2, 10, log);
    }
    // copies
    if rng.chance(40) {
        let b = bincode::serialize(&fg).unwrap();
        let copy: FastGraph = bincode::deserialize(&b).unwrap();
        queries(rng, &copy, &mut calc, 2, 5, log);
        let copy2 = copy.clone();
        drop(copy);
        queries(rng, &copy2, &mut calc, 2, 5, log);
        let input: InputGraph = bincode::deserialize(&bincode::serialize(&g.clone()).unwrap()).unwrap();
        attempt(log, || prepare(&input));
        attempt(log, || bincode::deserialize::<FastGraph>(&b[..b.len() / 2]).is_err());
        attempt(log, || FastGraph32::new(&copy2).convert_to_usize().get_num_nodes());
        log.note(format!("{:?}", copy2).len() as u64 + g.unit_test_output_string().len() as u64);
    }
    // damaged contents
    for _ in 0..effort / 4 + 1 {
        if let Some(bad) = corrupted(rng, &fg) {
            log.corrupted += 1;
            let before = log.calls;
            let mut c2 = attempt(log, || create_calculator(&bad));
            if let Some(c2) = &mut c2 {
                queries(rng, &bad, c2, 5, 5, log);
            }
            // a calculator that was made for the intact graph, and the intact graph again
            queries(rng, &bad, &mut calc, 3, 5, log);
            queries(rng, &fg, &mut calc, 1, 0, log);
            attempt(log, || get_node_ordering(&bad));
            attempt(log, || FastGraph32::new(&bad).convert_to_usize());
            attempt(log, || bincode::serialize(&bad));
            log.corrupted_queries += log.calls - before;
        }
    }
    // threads
    if rng.chance(25) {
        log.threads += 2;
        let shared = Share(fg);
        let rngs: Vec<Rng> = (0..2).map(|i| Rng::new(rng.next(), "thread", i)).collect();
        std::thread::scope(|s| {
            for mut r in rngs {
                let shared = &shared;
                s.spawn(move || {
                    let fg: &FastGraph = shared.get();
                    let mut log = Log::default();
                    let mut calc = create_calculator(fg);
                    queries(&mut r, fg, &mut calc, 3, 10, &mut log);
                    let g = input(&mut r, size.min(6), &mut log);
                    prepared(&mut r, &g, &mut log);
                });
            }
        });
    }
    if let Some(dir) = files {
        if rng.chance(30) {
            let path = format!("{}/ub-{}-{:x}.gr", dir, std::process::id(), rng.next());
            attempt(log, || g.to_file(&path));
            attempt(log, || InputGraph::from_file(&path).get_num_edges());
            attempt(log, || g.to_dimacs_file(&path));
            attempt(log, || InputGraph::from_dimacs_file(&path).get_num_edges());
            let _ = std::fs::write(&path, "p sp 2 1\na 1 x 3\n");
            attempt(log, || InputGraph::from_dimacs_file(&path).get_num_edges());
            attempt(log, || InputGraph::from_file(&path).get_num_edges());
            let _ = std::fs::remove_file(&path);
        }
    }
}
