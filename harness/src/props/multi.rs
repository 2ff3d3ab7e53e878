//! C03: queries with several weighted sources and targets.
use crate::check::*;
use crate::gen::*;
use crate::oracle::Model;
use crate::run::*;
use fast_paths::*;
use std::collections::BTreeMap;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 8000, 10_000_000, 6.0 * t, |c| random(c, Size::Tiny, 40));
    ctx.run_cases("small", 1000, 10_000_000, 9.0 * t, |c| random(c, Size::Small, 120));
    ctx.run_cases("medium", 100, 1_000_000, 9.0 * t, |c| random(c, Size::Medium, 300));
    ctx.run_cases("large", 16, 100_000, 6.0 * t, |c| random(c, Size::Large, 300));
    ctx.run_cases("maps", 5, 10_000, 8.0 * t, map);
    ctx.run_cases("many", 4, 100_000, 4.0 * t, |c| many(c, Size::Large));
    let k = if ctx.thorough { 32 } else { 4 };
    ctx.run_cases("big", k, k, 0.0, |c| {
        random(c, Size::Big, 40)?;
        many(c, Size::Big)
    });
}

pub type List = Vec<(usize, usize)>;

fn entry_weight(c: &mut Case, typical: usize) -> usize {
    match c.rng.below(14) {
        0..=2 => 0,
        3 => 1,
        4 => WMAX,
        5 => WMAX - 1 - c.rng.below(3 * typical),
        6 => WMAX / 2 + c.rng.below(5) - 2,
        7 => (1 << 32) - 3 + c.rng.below(6),
        8 => typical * 1000,
        9 => 1 << c.rng.below(63),
        _ => c.rng.below(2 * typical + 1),
    }
}

pub fn list(c: &mut Case, n: usize, typical: usize, pool: &[usize]) -> List {
    let k = match c.rng.below(10) {
        0..=2 => 1,
        3..=5 => c.rng.range(2, 4),
        6 | 7 => c.rng.range(2, 12),
        8 => c.rng.range(10, 60),
        _ => {
            if n > 60 {
                c.rng.range(50, 250)
            } else {
                c.rng.range(1, 2 * n)
            }
        }
    };
    // sometimes all entries have plain weights, so that the graph decides
    let plain = c.rng.chance(45);
    let zero = c.rng.chance(15);
    let mut r: List = vec![];
    for _ in 0..k {
        let node = if !pool.is_empty() && c.rng.chance(35) { *c.rng.pick(pool) } else { c.rng.below(n) };
        let w = if zero {
            0
        } else if plain {
            c.rng.below(2 * typical + 1)
        } else {
            entry_weight(c, typical)
        };
        r.push((node, w));
    }
    // duplicates with other weights
    if c.rng.chance(40) {
        for _ in 0..c.rng.range(1, 3) {
            let (node, _) = *c.rng.pick(&r);
            let w = entry_weight(c, typical);
            let at = c.rng.below(r.len() + 1);
            r.insert(at, (node, w));
        }
    }
    r
}

fn smallest(list: &List) -> BTreeMap<usize, usize> {
    let mut r = BTreeMap::new();
    for &(n, w) in list {
        let e = r.entry(n).or_insert(w);
        *e = w.min(*e);
    }
    r.retain(|_, w| *w != WMAX);
    r
}

pub fn best(dist: &[Option<u128>], targets: &List) -> Option<u128> {
    targets
        .iter()
        .filter(|(_, w)| *w != WMAX)
        .filter_map(|(t, w)| dist[*t].map(|d| d + *w as u128))
        .min()
        .filter(|d| *d < WMAX as u128)
}

pub fn check_answer(m: &Model, sources: &List, targets: &List, want: Option<u128>, got: &Option<ShortestPath>) -> Verdict {
    let head = || {
        let cut = |l: &List| l.iter().take(40).cloned().collect::<Vec<_>>();
        format!("sources({}) {:?} targets({}) {:?}: ", sources.len(), cut(sources), targets.len(), cut(targets))
    };
    let p = match (want, got) {
        (None, None) => return Ok(()),
        (None, Some(_)) => return Err(format!("{}there is no path, but the answer is {}", head(), show(got))),
        (Some(w), None) => return Err(format!("{}the best total is {}, but there is no answer", head(), w)),
        (Some(w), Some(p)) => {
            ensure!(p.get_weight() as u128 == w, "{}the best total is {}, but the answer is {}", head(), w, show(got));
            p
        }
    };
    let (s, t) = (smallest(sources), smallest(targets));
    let nodes = p.get_nodes();
    ensure!(!nodes.is_empty(), "{}no nodes: {}", head(), show(got));
    let (a, b) = (nodes[0], nodes[nodes.len() - 1]);
    ensure!(p.get_source() == a && p.get_target() == b, "{}ends differ from source and target: {}", head(), show(got));
    ensure!(s.contains_key(&a), "{}does not start at a source: {}", head(), show(got));
    ensure!(t.contains_key(&b), "{}does not end at a target: {}", head(), show(got));
    check_nodes(m, p, s[&a] as u128 + t[&b] as u128).map_err(|e| format!("{}{}: {}", head(), show(got), e))
}

pub fn queries(c: &mut Case, m: &Model, fg: &FastGraph, n_queries: usize) -> Verdict {
    ensure!(fg.get_num_nodes() == m.n, "prepared graph has {} nodes instead of {}", fg.get_num_nodes(), m.n);
    let mut calc = create_calculator(fg);
    let weights: Vec<usize> = m.edges.values().cloned().collect();
    for _ in 0..n_queries {
        let typical = (*c.rng.pick(&weights)).min(1 << 50);
        let sources = list(c, m.n, typical, &[]);
        let pool: Vec<usize> = if c.rng.chance(50) { sources.iter().map(|e| e.0).collect() } else { vec![] };
        let targets = list(c, m.n, typical, &pool);
        let present: List = sources.iter().cloned().filter(|e| e.1 != WMAX).collect();
        let dist = m.dist_multi(&present, WMAX as u128);
        let want = best(&dist, &targets);
        let got = if m.n < 100 && c.rng.chance(25) {
            calc_path_multiple_sources_and_targets(fg, sources.clone(), targets.clone())
        } else {
            calc.calc_path_multiple_sources_and_targets(fg, sources.clone(), targets.clone())
        };
        c.evals(1);
        check_answer(m, &sources, &targets, want, &got)?;
        match &got {
            None => c.count("queries_without_path", 1),
            Some(p) => {
                c.count("queries_with_path", 1);
                c.count("without_edges", (p.get_nodes().len() == 1) as u64);
                c.max("largest_total", p.get_weight() as u64);
            }
        }
        c.max("longest_list", sources.len().max(targets.len()) as u64);
        c.count("lists_with_duplicates", (smallest(&sources).len() < present.len()) as u64);
        c.count("lists_with_absent_entries", (present.len() < sources.len()) as u64);
        // the order of the lists
        if c.rng.chance(30) {
            let (mut s2, mut t2) = (sources.clone(), targets.clone());
            c.rng.shuffle(&mut s2);
            c.rng.shuffle(&mut t2);
            let other = calc.calc_path_multiple_sources_and_targets(fg, s2.clone(), t2.clone());
            c.evals(1);
            c.count("reordered_lists", 1);
            check_answer(m, &s2, &t2, want, &other)?;
        }
    }
    Ok(())
}

fn random(c: &mut Case, size: Size, n_queries: usize) -> Verdict {
    let spec = gen(&mut c.rng, size);
    let m = spec.model();
    c.about = spec.show();
    let g = spec.input();
    let (fg, how) = prepare_any(&mut c.rng, &g);
    c.about = format!("{} preparation: {}", spec.show(), how);
    if m.edges.len() > 1 {
        c.distinct(spec.hash());
    }
    if c.idx < 1 {
        c.sample(c.about.chars().take(400).collect::<String>());
    }
    queries(c, &m, &fg, n_queries)?;
    observe_graph(c, &m, &fg);
    Ok(())
}

fn map(c: &mut Case) -> Verdict {
    let (spec, m) = super::query::map_input(c);
    c.about = format!("map {} weights {}", spec.family, spec.regime);
    let fg = prepare(&spec.input());
    c.distinct(spec.hash());
    queries(c, &m, &fg, 250)?;
    observe_graph(c, &m, &fg);
    Ok(())
}

/// very long lists
fn many(c: &mut Case, size: Size) -> Verdict {
    let spec = gen(&mut c.rng, size);
    let m = spec.model();
    c.about = spec.show();
    let fg = prepare(&spec.input());
    c.distinct(spec.hash());
    let mut calc = create_calculator(&fg);
    for _ in 0..4 {
        let k = *c.rng.pick(&[255usize, 256, 257, 1000, 3000]);
        let typical = 1 + c.rng.below(1 << 20);
        let sources: List = (0..k).map(|_| (c.rng.below(m.n), c.rng.below(typical))).collect();
        let l = *c.rng.pick(&[1usize, 255, 257, 1000]);
        // more than 2^16 entries on one side, one of which decides
        let (k, l) = match c.rng.below(8) {
            0 => (66_000 + c.rng.below(5000), l.min(300)),
            1 => (l.min(300), 66_000 + c.rng.below(5000)),
            _ => (k, l),
        };
        let targets: List = (0..l).map(|_| (c.rng.below(m.n), c.rng.below(typical))).collect();
        let want = best(&m.dist_multi(&sources, WMAX as u128), &targets);
        let got = calc.calc_path_multiple_sources_and_targets(&fg, sources.clone(), targets.clone());
        c.evals(1);
        c.max("longest_list", k.max(l) as u64);
        check_answer(&m, &sources, &targets, want, &got)?;
    }
    Ok(())
}
