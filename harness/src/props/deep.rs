//! C19: long chains, shortcuts nested as deep as there are nodes, on threads with the default stack.
//! A stack overflow kills the process; the driver finds the case that was running.
use super::determ::bytes;
use crate::check::*;
use crate::gen::*;
use crate::oracle::Model;
use crate::run::*;
use fast_paths::*;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 10.0 } else { 1.0 };
    let k = ORDERS.len() as u64;
    // one of each order, at three scales
    ctx.run_cases("deep", k, 100_000, 6.0 * t, |c| chain(c, 60_000, 100_000));
    ctx.run_cases("deeper", k, 100_000, 8.0 * t, |c| chain(c, 250_000, 400_000));
    ctx.run_cases("deepest", if ctx.thorough { k } else { 4 }, 100_000, 5.0 * t, |c| chain(c, 900_000, 1_100_000));
    ctx.run_cases("heuristic", 4, 100_000, 8.0 * t, heuristic);
    ctx.run_cases("lists", 2, 1000, 3.0 * t, lists);
}

const ORDERS: &[&str] = &[
    "inner from the left", "inner from the right", "upwards", "downwards", "zigzag", "outwards", "inwards", "random",
    "every other", "blocks",
];

fn order(c: &mut Case, kind: &str, n: usize) -> Vec<usize> {
    let ends = |mut v: Vec<usize>| {
        v.push(0);
        v.push(n - 1);
        v
    };
    match kind {
        "inner from the left" => ends((1..n - 1).collect()),
        "inner from the right" => ends((1..n - 1).rev().collect()),
        "upwards" => (0..n).collect(),
        "downwards" => (0..n).rev().collect(),
        // left, right, left, right, .. towards the middle, which is contracted last
        "zigzag" => {
            let (mut a, mut b, mut v) = (1, n - 2, vec![]);
            while a < b {
                v.push(a);
                v.push(b);
                a += 1;
                b -= 1;
            }
            if a == b {
                v.push(a);
            }
            ends(v)
        }
        // from the middle, so that both ends of the shortcut move
        "outwards" => {
            let mid = n / 2;
            let mut v = vec![mid];
            let (mut a, mut b) = (mid, mid);
            while a > 1 || b < n - 2 {
                if a > 1 {
                    a -= 1;
                    v.push(a);
                }
                if b < n - 2 {
                    b += 1;
                    v.push(b);
                }
            }
            ends(v)
        }
        "inwards" => {
            let mut v: Vec<usize> = (1..n - 1).step_by(2).collect();
            v.extend((2..n - 1).step_by(2).rev());
            ends(v)
        }
        "random" => {
            let v = c.rng.perm(n - 2).into_iter().map(|x| x + 1).collect();
            ends(v)
        }
        "every other" => {
            let mut v: Vec<usize> = (1..n - 1).filter(|i| i % 2 == 1).collect();
            v.extend((1..n - 1).filter(|i| i % 2 == 0));
            ends(v)
        }
        _ => {
            let block = c.rng.range(2, 1000);
            let mut v: Vec<usize> = (1..n - 1).collect();
            v.sort_by_key(|i| (i / block % 2, if i / block % 3 == 0 { n - i } else { *i }));
            ends(v)
        }
    }
}

/// longest chain of shortcuts that contain one another, from the serialized graph
fn nesting(fg: &FastGraph) -> Option<u64> {
    let h = super::hier::look_into(fg).ok()??;
    // shortcuts refer to edges of the node they bypass, which was contracted earlier
    let (nf, nb) = (h.fwd.len(), h.bwd.len());
    let mut depth = vec![u32::MAX; nf + nb];
    for root in 0..nf + nb {
        let mut stack = vec![root];
        while let Some(&x) = stack.last() {
            if depth[x] != u32::MAX {
                stack.pop();
                continue;
            }
            let e = if x < nf { &h.fwd[x] } else { &h.bwd[x - nf] };
            match (e.rin, e.rout) {
                (super::hier::NONE, super::hier::NONE) => {
                    depth[x] = 0;
                    stack.pop();
                }
                (i, o) => {
                    let (a, b) = (nf.saturating_add(i), o);
                    if a >= nf + nb || b >= nf || stack.len() > nf + nb {
                        return None;
                    }
                    if depth[a] != u32::MAX && depth[b] != u32::MAX {
                        depth[x] = 1 + depth[a].max(depth[b]);
                        stack.pop();
                    } else {
                        if depth[a] == u32::MAX {
                            stack.push(a);
                        }
                        if depth[b] == u32::MAX {
                            stack.push(b);
                        }
                    }
                }
            }
        }
    }
    depth.iter().max().map(|d| *d as u64)
}

/// a path graph: weights of the edges i -> i+1 and back
struct Chain {
    fwd: Vec<usize>,
    bwd: Option<Vec<usize>>,
}

impl Chain {
    fn new(c: &mut Case, n: usize, back: bool) -> Chain {
        let regime = *c.rng.pick(&["unit", "tiny", "small"]);
        let fwd: Vec<usize> = (0..n - 1).map(|i| weight(&mut c.rng, regime, i)).collect();
        let bwd = if back { Some((0..n - 1).map(|i| weight(&mut c.rng, regime, i)).collect()) } else { None };
        Chain { fwd, bwd }
    }
    fn n(&self) -> usize {
        self.fwd.len() + 1
    }
    fn input(&self) -> InputGraph {
        let mut g = InputGraph::new();
        for (i, w) in self.fwd.iter().enumerate() {
            g.add_edge(i, i + 1, *w);
            if let Some(b) = &self.bwd {
                g.add_edge(i + 1, i, b[i]);
            }
        }
        g.freeze();
        g
    }
    fn check(&self, s: usize, t: usize, got: &Option<ShortestPath>) -> Verdict {
        let want = if s <= t {
            Some(self.fwd[s..t].iter().sum::<usize>())
        } else {
            self.bwd.as_ref().map(|b| b[t..s].iter().sum::<usize>())
        };
        check_dist(s, t, want.map(|w| w as u128), got)?;
        if let Some(p) = got {
            let nodes = p.get_nodes();
            let right = nodes.len() == s.max(t) - s.min(t) + 1
                && nodes.iter().enumerate().all(|(i, x)| *x == if s <= t { s + i } else { s - i });
            ensure!(right, "{} -> {}: the nodes are not the chain between them", s, t);
        }
        Ok(())
    }
}

fn ask(c: &mut Case, chain: &Chain, fg: &FastGraph, calc: &mut PathCalculator, k: usize) -> Verdict {
    let n = chain.n();
    let mut pairs = vec![(0, n - 1), (n - 1, 0), (1, n - 2), (n - 2, 1), (0, 0), (n / 2, n - 1), (n - 1, n / 2)];
    for _ in 0..k {
        pairs.push((c.rng.below(n), c.rng.below(n)));
    }
    for (s, t) in pairs {
        let got = calc.calc_path(fg, s, t);
        c.evals(1);
        chain.check(s, t, &got)?;
        if let Some(p) = &got {
            c.max("nodes_of_the_longest_path", p.get_nodes().len() as u64);
        }
    }
    Ok(())
}

fn chain(c: &mut Case, min: usize, max: usize) -> Verdict {
    let n = c.rng.range(min, max);
    let kind = ORDERS[c.idx as usize % ORDERS.len()];
    let back = c.rng.chance(60);
    let ch = Chain::new(c, n, back);
    let g = ch.input();
    let o = order(c, kind, n);
    let limit = if n < 120_000 { *c.rng.pick(&[1, 5, 100, 1000]) } else { *c.rng.pick(&[1, 5, 20, 100]) };
    c.about = format!("chain of {} nodes, {} directions, order '{}', limit {}", n, 1 + back as usize, kind, limit);
    c.distinct(crate::rng::hash_bytes(c.about.as_bytes()));
    let fg = prepare_with_order_with_params(&g, &o, &ParamsWithOrder::new(limit)).map_err(|e| format!("order rejected: {}", e))?;
    ensure!(get_node_ordering(&fg) == o, "another node ordering");
    c.evals(1);
    let mut calc = create_calculator(&fg);
    ask(c, &ch, &fg, &mut calc, 3)?;
    if let Some(d) = nesting(&fg) {
        c.max("depth_of_nested_shortcuts", d);
        c.count(&format!("order {}", kind), 1);
    }
    // the other things one can do with the graph
    let b = bytes(&fg);
    let copy: FastGraph = bincode::deserialize(&b).map_err(|e| format!("not deserialized: {}", e))?;
    drop(fg);
    ask(c, &ch, &copy, &mut calc, 1)?;
    if n < 120_000 {
        let small = FastGraph32::new(&copy);
        let again = small.clone().convert_to_usize();
        drop(small);
        ask(c, &ch, &again, &mut calc, 0)?;
        let text = serde_json::to_string(&again).map_err(|e| format!("not serialized: {}", e))?;
        let third: FastGraph = serde_json::from_str(&text).map_err(|e| format!("not deserialized: {}", e))?;
        ask(c, &ch, &third, &mut calc, 0)?;
        let debug = format!("{:?}", third);
        ensure!(debug.len() > n, "no debug output");
    }
    drop(copy.clone());
    drop(copy);
    drop(calc);
    Ok(())
}

/// orders that prepare() finds itself, and deep graphs that are not chains
fn heuristic(c: &mut Case) -> Verdict {
    let n = c.rng.range(150_000, 400_000);
    if c.idx % 4 < 2 {
        let ch = Chain::new(c, n, c.idx % 2 == 0);
        let g = ch.input();
        let params = if c.rng.chance(50) {
            Params::default()
        } else {
            // only the depth or only the edge quotient decides
            Params::new(*c.rng.pick(&[0.0, 100.0, -1.0]), 10, 5, 10)
        };
        c.about = format!("chain of {} nodes, {}", n, show_params(&params));
        c.distinct(crate::rng::hash_bytes(c.about.as_bytes()));
        let fg = prepare_with_params(&g, &params);
        let mut calc = create_calculator(&fg);
        ask(c, &ch, &fg, &mut calc, 5)?;
        if let Some(d) = nesting(&fg) {
            c.max("depth_of_nested_shortcuts_by_heuristic", d);
        }
        return Ok(());
    }
    let family = *c.rng.pick(&["ladder", "cycle_bidir", "cycle", "bintree", "detours", "lollipop"]);
    let family = if family == "lollipop" { "line_bidir" } else { family };
    let spec = gen_with(&mut c.rng, family, "small", n / 2);
    c.about = format!("{} of {} nodes", family, n / 2);
    c.distinct(spec.hash());
    let m: Model = spec.model();
    let fg = prepare(&spec.input());
    let mut calc = create_calculator(&fg);
    check_queries(c, &m, &fg, &mut calc, What::Both, 20)
}

/// as many sources and targets as there are nodes
fn lists(c: &mut Case) -> Verdict {
    let n = c.rng.range(300_000, 700_000);
    let ch = Chain::new(c, n, true);
    let g = ch.input();
    let o = order(c, "inner from the left", n);
    c.about = format!("lists for a chain of {} nodes", n);
    let fg = prepare_with_order(&g, &o).map_err(|e| format!("order rejected: {}", e))?;
    let mut calc = create_calculator(&fg);
    let far = 1 << 50;
    // only the first source and the last target are not far away
    let s: Vec<(usize, usize)> = (0..n / 2).map(|i| (i, if i == 0 { 0 } else { far })).collect();
    let t: Vec<(usize, usize)> = vec![(n - 1, 0), (n - 2, far)];
    let got = calc.calc_path_multiple_sources_and_targets(&fg, s, t);
    c.evals(1);
    ch.check(0, n - 1, &got)?;
    let s: Vec<(usize, usize)> = vec![(n - 1, 0)];
    let t: Vec<(usize, usize)> = (0..n / 2).map(|i| (i, if i == 0 { 0 } else { far })).collect();
    let got = calc.calc_path_multiple_sources_and_targets(&fg, s, t);
    c.evals(1);
    ch.check(n - 1, 0, &got)
}
