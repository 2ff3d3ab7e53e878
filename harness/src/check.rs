//! Oracles shared by several properties.

use crate::oracle::Model;
use crate::run::*;
use fast_paths::*;

pub const WMAX: usize = usize::MAX;

/// what an answer of the library looks like from outside
pub fn show(p: &Option<ShortestPath>) -> String {
    match p {
        None => "none".into(),
        Some(p) => {
            let n = p.get_nodes();
            let mut s = format!("{}->{} weight {} nodes({}) ", p.get_source(), p.get_target(), p.get_weight(), n.len());
            if n.len() <= 60 {
                s.push_str(&format!("{:?}", n));
            } else {
                s.push_str(&format!("{:?}..{:?}", &n[..30], &n[n.len() - 30..]));
            }
            s
        }
    }
}

pub fn same(a: &Option<ShortestPath>, b: &Option<ShortestPath>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => {
            a.get_source() == b.get_source()
                && a.get_target() == b.get_target()
                && a.get_weight() == b.get_weight()
                && a.is_found() == b.is_found()
                && a.get_nodes() == b.get_nodes()
        }
        _ => false,
    }
}

/// C01: found exactly if reachable, with the minimum weight
pub fn check_dist(s: usize, t: usize, want: Option<u128>, got: &Option<ShortestPath>) -> Verdict {
    match (want, got) {
        (None, None) => Ok(()),
        (None, Some(p)) if !p.is_found() => Err(format!("{} -> {}: unreachable, but answer is a 'not found' path object", s, t)),
        (None, Some(_)) => Err(format!("{} -> {}: not reachable, but the answer is {}", s, t, show(got))),
        (Some(d), None) => Err(format!("{} -> {}: distance {}, but no path was found", s, t, d)),
        (Some(d), Some(p)) => {
            ensure!(
                p.get_weight() as u128 == d && p.is_found(),
                "{} -> {}: distance {}, but the answer is {}",
                s,
                t,
                d,
                show(got)
            );
            Ok(())
        }
    }
}

/// C02: the answer is a real simple path between s and t whose weight is as reported
pub fn check_path(m: &Model, s: usize, t: usize, got: &ShortestPath) -> Verdict {
    let head = || format!("query {} -> {}: {}: ", s, t, show(&Some(got.clone())));
    let nodes = got.get_nodes();
    ensure!(!nodes.is_empty(), "{}no nodes", head());
    ensure!(got.get_source() == s && nodes[0] == s, "{}does not start at the source", head());
    ensure!(got.get_target() == t && nodes[nodes.len() - 1] == t, "{}does not end at the target", head());
    if s == t {
        ensure!(nodes.len() == 1 && got.get_weight() == 0, "{}not just the node itself", head());
    }
    check_nodes(m, got, 0).map_err(|e| format!("{}{}", head(), e))
}

/// edges exist, no repeated node, edge weights plus `extra` give the reported weight
pub fn check_nodes(m: &Model, got: &ShortestPath, extra: u128) -> Verdict {
    let nodes = got.get_nodes();
    let sum = m.path_weight(nodes)?;
    ensure!(
        sum + extra == got.get_weight() as u128,
        "the edges add up to {}{}",
        sum,
        if extra > 0 { format!(" + {}", extra) } else { String::new() }
    );
    let mut sorted = nodes.clone();
    sorted.sort_unstable();
    ensure!(sorted.windows(2).all(|p| p[0] != p[1]), "a node occurs twice");
    ensure!(got.is_found(), "is_found() is false");
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    /// distances only (C01)
    Dist,
    /// path validity only (C02)
    Path,
    /// both
    Both,
}

/// Compares queries with the oracle: all pairs if this is not more than `budget`, otherwise all targets for
/// some sources, otherwise samples.
pub fn check_queries(
    case: &mut Case,
    m: &Model,
    fg: &FastGraph,
    calc: &mut PathCalculator,
    what: What,
    budget: usize,
) -> Verdict {
    let n = m.n;
    ensure!(fg.get_num_nodes() == n, "prepared graph has {} nodes instead of {}", fg.get_num_nodes(), n);
    let mut sources: Vec<usize> = if n * n <= budget {
        (0..n).collect()
    } else {
        let k = (budget / n).max(1);
        (0..k).map(|_| case.rng.below(n)).collect()
    };
    case.rng.shuffle(&mut sources);
    let mut targets: Vec<usize> =
        if n <= budget { (0..n).collect() } else { (0..budget).map(|_| case.rng.below(n)).collect() };
    case.rng.shuffle(&mut targets);
    let mut path_nodes = 0;
    let fresh = n <= 50 && case.rng.chance(20);
    for &s in &sources {
        let dist = if what != What::Path { m.dist(s) } else { vec![] };
        for &t in &targets {
            let got = if fresh { calc_path(fg, s, t) } else { calc.calc_path(fg, s, t) };
            case.evals(1);
            if what != What::Path {
                check_dist(s, t, dist[t], &got)?;
            }
            match &got {
                None => case.count("queries_without_path", 1),
                Some(p) => {
                    path_nodes += p.get_nodes().len();
                    if path_nodes > 200 * budget.max(10_000) {
                        return Ok(());
                    }
                    if what != What::Dist {
                        check_path(m, s, t, p)?;
                    }
                    case.count("queries_with_path", 1);
                    case.max("longest_path_nodes", p.get_nodes().len() as u64);
                    case.max("largest_weight", p.get_weight() as u64);
                }
            }
        }
    }
    Ok(())
}

pub fn observe_graph(case: &mut Case, m: &Model, fg: &FastGraph) {
    case.max("nodes", m.n as u64);
    case.max("edges", m.edges.len() as u64);
    let stored = fg.get_num_out_edges() as u64;
    case.max("stored_forward_edges", stored);
    case.count("shortcut_surplus", (stored + fg.get_num_in_edges() as u64).saturating_sub(2 * m.edges.len() as u64));
    case.count("graphs", 1);
}
