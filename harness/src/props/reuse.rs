//! C04: a calculator that has been used for anything answers like a fresh one.
use super::multi::{list, List};
use crate::check::*;
use crate::gen::*;
use crate::run::*;
use fast_paths::*;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 3000, 10_000_000, 6.0 * t, |c| history(c, Size::Tiny, 400));
    ctx.run_cases("small", 500, 10_000_000, 8.0 * t, |c| history(c, Size::Small, 400));
    ctx.run_cases("medium", 50, 1_000_000, 7.0 * t, |c| history(c, Size::Medium, 300));
    ctx.run_cases("large", 8, 100_000, 5.0 * t, |c| history(c, Size::Large, 150));
    let k = if ctx.thorough { 32 } else { 4 };
    ctx.run_cases("big", k, k, 0.0, |c| history(c, Size::Big, 60));
    ctx.run_cases("epochs", 500, 10_000_000, 6.0 * t, epochs);
    ctx.run_cases("periods", 16, if ctx.thorough { 2000 } else { 64 }, 4.0 * t, periods);
    // counters of 8, 16 and (thorough) 24 bits
    ctx.run_cases("long", 8, if ctx.thorough { 64 } else { 16 }, 6.0 * t, long);
}

/// graphs with the same number of nodes
pub fn graphs(c: &mut Case, size: Size, k: usize) -> Vec<FastGraph> {
    let mut specs: Vec<Spec> = (0..k).map(|_| gen(&mut c.rng, size)).collect();
    let n = specs.iter().map(|s| s.model().n).max().unwrap();
    let mut r = vec![];
    for s in specs.iter_mut() {
        if s.model().n < n {
            let u = c.rng.below(n - 1);
            s.edges.push(if c.rng.chance(50) { (u, n - 1, 3) } else { (n - 1, u, 3) });
        }
        c.about.push_str(&format!("graph {} ", s.show()));
        c.distinct(s.hash());
        r.push(prepare_any(&mut c.rng, &s.input()).0);
    }
    r
}

pub enum Query {
    Single(usize, usize),
    Multi(List, List),
}

pub fn ask(calc: &mut PathCalculator, g: &FastGraph, q: &Query) -> Option<ShortestPath> {
    match q {
        Query::Single(s, t) => calc.calc_path(g, *s, *t),
        Query::Multi(s, t) => calc.calc_path_multiple_sources_and_targets(g, s.clone(), t.clone()),
    }
}

pub fn random_query(c: &mut Case, n: usize, pool: &[usize]) -> Query {
    match c.rng.below(10) {
        0 => {
            let u = c.rng.below(n);
            Query::Single(u, u)
        }
        1..=2 => Query::Single(*c.rng.pick(pool), *c.rng.pick(pool)),
        3..=6 => Query::Single(c.rng.below(n), c.rng.below(n)),
        _ => {
            let typical = 1 << c.rng.below(30);
            let s = list(c, n, typical, pool);
            let t = list(c, n, typical, pool);
            Query::Multi(s, t)
        }
    }
}

pub fn show_query(q: &Query) -> String {
    match q {
        Query::Single(s, t) => format!("{} -> {}", s, t),
        Query::Multi(s, t) => format!("{:?} -> {:?}", s, t),
    }
}

/// a query that has to be rejected
pub fn rejected(c: &mut Case, calc: &mut PathCalculator, g: &FastGraph, other: &FastGraph) -> Verdict {
    let n = g.get_num_nodes();
    let ok = c.rng.below(n);
    let bad = *c.rng.pick(&[n, n + 1, usize::MAX, usize::MAX - 1]);
    let kind = c.rng.below(8);
    let r = catch(|| match kind {
        0 => calc.calc_path(g, ok, bad),
        1 => calc.calc_path(g, bad, ok),
        2 => calc.calc_path_multiple_sources_and_targets(g, vec![], vec![(ok, 0)]),
        3 => calc.calc_path_multiple_sources_and_targets(g, vec![(ok, 0)], vec![]),
        4 => calc.calc_path_multiple_sources_and_targets(g, vec![(ok, 3), (bad, 5)], vec![(ok, 0)]),
        5 => calc.calc_path_multiple_sources_and_targets(g, vec![(ok, 3)], vec![(ok, 5), (bad, 5)]),
        6 => calc.calc_path_multiple_sources_and_targets(g, vec![(ok, 3), (ok, 1)], vec![(ok, 5), (bad, 5), (ok, 4)]),
        _ => calc.calc_path(other, 0, 1),
    });
    // whether it really is rejected is for another property to decide
    c.count("rejected_queries", r.is_err() as u64);
    Ok(())
}

fn history(c: &mut Case, size: Size, len: usize) -> Verdict {
    let k = c.rng.range(1, 3);
    let gs = graphs(c, size, k);
    let other_n = gs[0].get_num_nodes() + 1;
    let other = {
        let mut g = InputGraph::new();
        g.add_edge(0, other_n - 1, 4);
        g.freeze();
        prepare(&g)
    };
    replay(c, &gs, &other, len)
}

fn replay(c: &mut Case, gs: &[FastGraph], other: &FastGraph, len: usize) -> Verdict {
    let n = gs[0].get_num_nodes();
    let mut calc = create_calculator(&gs[0]);
    let pool: Vec<usize> = (0..c.rng.range(1, 4)).map(|_| c.rng.below(n)).collect();
    let switch = c.rng.chance(60);
    let mut last: Option<(Query, usize)> = None;
    let rejects = c.rng.chance(50);
    let mut which = 0;
    for i in 0..len {
        if rejects && c.rng.chance(7) {
            rejected(c, &mut calc, &gs[which], other)?;
            continue;
        }
        if switch && c.rng.chance(30) {
            which = c.rng.below(gs.len());
        }
        // now and then the same query again
        let q = match last.take() {
            Some((q, w)) if c.rng.chance(15) => {
                which = w;
                q
            }
            _ => random_query(c, n, &pool),
        };
        let got = ask(&mut calc, &gs[which], &q);
        let want = ask(&mut create_calculator(&gs[which]), &gs[which], &q);
        c.evals(1);
        c.count("answers_with_path", want.is_some() as u64);
        if !same(&got, &want) {
            return Err(format!(
                "query no. {} on graph {} of {}: {}: the used calculator says {}, a fresh one {}",
                i,
                which,
                gs.len(),
                show_query(&q),
                show(&got),
                show(&want)
            ));
        }
        last = Some((q, which));
    }
    c.count("histories", 1);
    c.max("longest_history", len as u64);
    Ok(())
}

/// for the sanitizers
pub fn any_history(c: &mut Case) -> Verdict {
    match c.rng.below(4) {
        0 => epochs(c),
        1 => history(c, Size::Tiny, 100),
        2 => history(c, Size::Small, 60),
        _ => history(c, Size::Medium, 15),
    }
}

/// the internal reset counters are sent close to their maximum after a few queries
fn epochs(c: &mut Case) -> Verdict {
    let k = c.rng.range(1, 2);
    let size = if c.rng.chance(50) { Size::Tiny } else { Size::Small };
    let gs = graphs(c, size, k);
    let n = gs[0].get_num_nodes() + 1;
    let mut g = InputGraph::new();
    g.add_edge(0, n - 1, 4);
    g.freeze();
    let other = prepare(&g);
    let at = c.rng.range(4, 40) as u32;
    // the end of the counter, or of fewer bits of it
    let end = if c.rng.chance(50) { u32::MAX } else { 1 << c.rng.range(16, 31) };
    let to = end - c.rng.below(40) as u32;
    hooks::skip(Some((at, to)));
    let before = hooks::num_skips();
    let r = replay(c, &gs, &other, 140);
    hooks::skip(None);
    c.count("counters_sent_close_to_their_maximum", hooks::num_skips() - before);
    r
}

mod hooks {
    #[cfg(fast_paths_verif)]
    pub fn skip(s: Option<(u32, u32)>) {
        fast_paths::verif_hooks::set_skip(s)
    }
    #[cfg(fast_paths_verif)]
    pub fn num_skips() -> u64 {
        fast_paths::verif_hooks::get_num_skips()
    }
    #[cfg(not(fast_paths_verif))]
    pub fn skip(_s: Option<(u32, u32)>) {}
    #[cfg(not(fast_paths_verif))]
    pub fn num_skips() -> u64 {
        0
    }
}

/// really many queries with one calculator
fn long(c: &mut Case) -> Verdict {
    let size = if c.idx % 2 == 0 { Size::Tiny } else { Size::Small };
    let gs = graphs(c, size, 2);
    let n = gs[0].get_num_nodes();
    let mut want = vec![vec![]; gs.len()];
    for (i, g) in gs.iter().enumerate() {
        for s in 0..n {
            for t in 0..n {
                want[i].push(calc_path(g, s, t));
            }
        }
    }
    let mut calc = create_calculator(&gs[0]);
    let total: u64 = match (c.idx, c.thorough()) {
        (0, true) => 40_000_000,
        (_, true) => 3_000_000,
        (0 | 1, _) => (1 << 24) + (1 << 16),
        _ => 400_000,
    };
    // few different queries at first, so that most entries get old
    let (mut s, mut t) = (0, 0);
    for i in 0..total {
        let which = (i / 1000 % 7 == 3) as usize;
        if i % 65536 > 65000 || i % 256 > 250 || i < 10 || i % 5000 == 0 {
            s = c.rng.below(n);
            t = c.rng.below(n);
        }
        let got = calc.calc_path(&gs[which], s, t);
        if !same(&got, &want[which][s * n + t]) {
            return Err(format!(
                "query no. {} on graph {}: {} -> {}: the used calculator says {}, a fresh one {}",
                i,
                which,
                s,
                t,
                show(&got),
                show(&want[which][s * n + t])
            ));
        }
    }
    c.evals(total);
    c.max("longest_history", total);
    Ok(())
}

/// Queries that may leave something behind are 2^8 - 1, 2^16 - 1 (and the like) queries apart; those in between touch
/// two nodes of their own only, so that whatever a counter of this size would bring back is still there.
fn periods(c: &mut Case) -> Verdict {
    let spec = gen(&mut c.rng, Size::Tiny);
    let mut edges = spec.edges.clone();
    let n = spec.model().n;
    edges.push((n, n + 1, 3));
    let g = Spec { edges, ..spec.clone() }.input();
    let fg = prepare_any(&mut c.rng, &g).0;
    c.about = spec.show();
    c.distinct(spec.hash());
    let want: Vec<_> = (0..n * n).map(|i| calc_path(&fg, i / n, i % n)).collect();
    let mut calc = create_calculator(&fg);
    let period = *c.rng.pick(&[15, 31, 63, 127, 255, 511, 1023, 4095, 32767, 65535, 65535, 65535]);
    // resets of a period, or of one query more
    let total = (period as u64 * 40).min(if c.thorough() { 2_000_000 } else { 300_000 });
    for i in 0..total {
        let (s, t) = if i % period < 6 { (c.rng.below(n), c.rng.below(n)) } else { (n, n + 1) };
        let got = calc.calc_path(&fg, s, t);
        let ok = if s < n {
            same(&got, &want[s * n + t])
        } else {
            got.as_ref().map_or(false, |p| p.get_weight() == 3 && p.get_nodes().len() == 2)
        };
        if !ok {
            return Err(format!(
                "query no. {}: {} -> {}: the used calculator says {}, a fresh one {}",
                i,
                s,
                t,
                show(&got),
                show(&calc_path(&fg, s, t))
            ));
        }
    }
    c.evals(total);
    c.count("periodic_histories", 1);
    c.max("longest_period", period);
    Ok(())
}
