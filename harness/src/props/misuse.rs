//! C16: invalid calls are rejected, and nothing is broken afterwards.
use super::determ::bytes;
use super::multi::List;
use super::reuse::*;
use crate::check::*;
use crate::gen::*;
use crate::run::*;
use fast_paths::*;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 3000, 10_000_000, 8.0 * t, |c| queries(c, Size::Tiny, 60));
    ctx.run_cases("small", 500, 10_000_000, 8.0 * t, |c| queries(c, Size::Small, 80));
    ctx.run_cases("medium", 40, 10_000_000, 6.0 * t, |c| queries(c, Size::Medium, 60));
    let k = if ctx.thorough { 32 } else { 4 };
    ctx.run_cases("big", k, k, 0.0, |c| queries(c, Size::Big, 40));
    ctx.run_cases("calls", 1000, 10_000_000, 6.0 * t, calls);
    ctx.run_cases("calls_empty", 200, 1_000_000, 1.0 * t, calls_empty);
}

fn empty_graph() -> FastGraph {
    let mut g = InputGraph::new();
    g.freeze();
    prepare(&g)
}

fn path_graph(n: usize) -> FastGraph {
    let mut g = InputGraph::new();
    for i in 1..n {
        g.add_edge_bidir(i - 1, i, 2);
    }
    g.freeze();
    prepare(&g)
}

fn invalid_id(c: &mut Case, n: usize) -> usize {
    match c.rng.below(9) {
        0..=2 => n,
        3 => n + 1,
        4 => n + c.rng.below(2 * n + 10),
        5 => WMAX,
        6 => WMAX - 1,
        7 => 1 << 32,
        _ => (1 << 32) + c.rng.below(n),
    }
}

fn any_weight(c: &mut Case) -> usize {
    match c.rng.below(7) {
        0 | 1 => 0,
        2 => 1,
        3 => WMAX,
        4 => WMAX - 1,
        5 => WMAX / 2 + 1,
        _ => c.rng.below(1000),
    }
}

fn valid_list(c: &mut Case, n: usize, pool: &[usize]) -> List {
    let k = match c.rng.below(6) {
        0..=2 => 1,
        3 | 4 => c.rng.range(2, 5),
        _ => c.rng.range(5, 80),
    };
    (0..k)
        .map(|_| {
            let id = if c.rng.chance(50) { *c.rng.pick(pool) } else { c.rng.below(n) };
            (id, any_weight(c))
        })
        .collect()
}

fn spoil(c: &mut Case, list: &mut List, n: usize) -> &'static str {
    let bad = (invalid_id(c, n), any_weight(c));
    match c.rng.below(4) {
        0 => {
            list.push(bad);
            "last"
        }
        1 => {
            list.insert(0, bad);
            "first"
        }
        2 => {
            let at = c.rng.below(list.len() + 1);
            list.insert(at, bad);
            "somewhere"
        }
        _ => {
            let at = c.rng.below(list.len());
            list[at].0 = bad.0;
            "instead of another"
        }
    }
}

/// an invalid query: what it is, the graph to be used (None: another number of nodes), and the lists
fn invalid(c: &mut Case, n: usize, pool: &[usize]) -> (&'static str, bool, List, List) {
    let mut s = valid_list(c, n, pool);
    let mut t = valid_list(c, n, pool);
    if c.rng.chance(25) {
        // the answer could be found at once
        t = s.clone();
    }
    match c.rng.below(12) {
        0 => {
            s.clear();
            ("no sources", false, s, t)
        }
        1 => {
            t.clear();
            ("no targets", false, s, t)
        }
        2 => ("no sources and no targets", false, vec![], vec![]),
        3 => {
            spoil(c, &mut s, n);
            ("no targets, and a wrong source", false, s, vec![])
        }
        4 => {
            spoil(c, &mut t, n);
            ("no sources, and a wrong target", false, vec![], t)
        }
        5 | 6 => {
            spoil(c, &mut s, n);
            ("wrong source", false, s, t)
        }
        7 | 8 => {
            spoil(c, &mut t, n);
            ("wrong target", false, s, t)
        }
        9 => {
            spoil(c, &mut s, n);
            t = s.clone();
            ("the same wrong node in both", false, s, t)
        }
        10 => {
            if c.rng.chance(50) {
                // nodes that exist in both
                s = vec![(0, 0)];
                t = vec![(0, 0)];
            }
            ("another number of nodes", true, s, t)
        }
        _ => {
            // single queries
            let bad = invalid_id(c, n);
            let ok = c.rng.below(n);
            match c.rng.below(3) {
                0 => ("wrong source", false, vec![(bad, 0)], vec![(ok, 0)]),
                1 => ("wrong target", false, vec![(ok, 0)], vec![(bad, 0)]),
                _ => ("the same wrong node in both", false, vec![(bad, 0)], vec![(bad, 0)]),
            }
        }
    }
}

fn queries(c: &mut Case, size: Size, rounds: usize) -> Verdict {
    let k = c.rng.range(1, 2);
    let gs = graphs(c, size, k);
    let n = gs[0].get_num_nodes();
    let before: Vec<_> = gs.iter().map(bytes).collect();
    let mut others = vec![empty_graph(), path_graph(n + 1), path_graph(2 * n + 3)];
    if n > 2 {
        others.push(path_graph(n - 1));
    }
    if n > 4 {
        others.push(path_graph(2));
    }
    let mut calc = create_calculator(&gs[0]);
    let pool: Vec<usize> = (0..3).map(|_| c.rng.below(n)).collect();
    for round in 0..rounds {
        let g = &gs[c.rng.below(gs.len())];
        let (kind, foreign, s, t) = invalid(c, n, &pool);
        let how = c.rng.below(3);
        let single = s.len() == 1 && t.len() == 1 && s[0].1 == 0 && t[0].1 == 0 && c.rng.chance(70);
        let other = c.rng.pick(&others).clone();
        let used = if foreign { &other } else { g };
        let r = catch(|| match (how, single) {
            (0, true) if !foreign => calc_path(used, s[0].0, t[0].0),
            (0, false) if !foreign => calc_path_multiple_sources_and_targets(used, s.clone(), t.clone()),
            (1, true) => create_calculator(g).calc_path(used, s[0].0, t[0].0),
            (1, false) => create_calculator(g).calc_path_multiple_sources_and_targets(used, s.clone(), t.clone()),
            (_, true) => calc.calc_path(used, s[0].0, t[0].0),
            (_, false) => calc.calc_path_multiple_sources_and_targets(used, s.clone(), t.clone()),
        });
        c.evals(1);
        c.count(&format!("invalid: {}", kind), 1);
        if let Ok(a) = r {
            return Err(format!(
                "round {}: {}: graph with {} nodes{}, sources {:?} targets {:?}: not rejected, the answer is {}",
                round,
                kind,
                used.get_num_nodes(),
                if foreign { format!(", calculator for {}", n) } else { String::new() },
                s,
                t,
                show(&a)
            ));
        }
        // the calculator still works
        for _ in 0..c.rng.below(4) {
            let g = &gs[c.rng.below(gs.len())];
            let q = random_query(c, n, &pool);
            let free = c.rng.chance(35);
            let got = catch(|| match &q {
                Query::Single(s, t) if free => calc_path(g, *s, *t),
                Query::Multi(s, t) if free => calc_path_multiple_sources_and_targets(g, s.clone(), t.clone()),
                _ => ask(&mut calc, g, &q),
            })
            .map_err(|p| {
                let with = if free { "without" } else { "with the same" };
                format!("round {}: after a rejected query ({}): {} ({} calculator): panic {}", round, kind, show_query(&q), with, p.show())
            })?;
            let want = ask(&mut create_calculator(g), g, &q);
            c.evals(1);
            c.count("queries_after_rejections", 1);
            ensure!(
                same(&got, &want),
                "round {}: after a rejected query ({}): {}: {} instead of {}",
                round,
                kind,
                show_query(&q),
                show(&got),
                show(&want)
            );
        }
        // graphs without nodes accept nothing
        if round % 20 == 0 {
            let e = &others[0];
            let id = *c.rng.pick(&[0, 1, WMAX]);
            let w = any_weight(c);
            let mut calc = create_calculator(e);
            for i in 0..6 {
                let r = catch(|| match i {
                    0 => calc_path(e, id, id),
                    1 => calc_path(e, id, 0),
                    2 => calc.calc_path_multiple_sources_and_targets(e, vec![], vec![]),
                    3 => calc.calc_path_multiple_sources_and_targets(e, vec![(id, w)], vec![]),
                    4 => calc.calc_path(e, id, id),
                    _ => calc.calc_path(&gs[0], 0, 0),
                });
                c.evals(1);
                c.count("invalid: graph without nodes", 1);
                if let Ok(a) = r {
                    return Err(format!("graph without nodes, query {} ({}, weight {}): not rejected: {}", i, id, w, show(&a)));
                }
            }
        }
    }
    for (g, b) in gs.iter().zip(&before) {
        ensure!(bytes(g) == *b, "the prepared graph has changed");
    }
    Ok(())
}

/// calls that do not fit the state of an input graph, and orders that do not fit the graph
fn calls(c: &mut Case) -> Verdict {
    let size = if c.rng.chance(70) { Size::Tiny } else { Size::Small };
    let spec = gen(&mut c.rng, size);
    c.about = spec.show();
    c.distinct(spec.hash());
    let m = spec.model();
    let n = m.n;
    let mut g = spec.input();
    let want = bytes(&prepare(&g));
    let list = m.edge_list();
    for round in 0..12 {
        // thawed or frozen
        let frozen = c.rng.chance(60);
        let kind = c.rng.below(7);
        let (u, v, w) = (c.rng.below(n), c.rng.below(n + 5), any_weight(c));
        let mut order = c.rng.perm(n);
        let (what, rejected) = if frozen {
            match kind {
                0 | 1 => ("add_edge to a frozen graph", catch(|| g.add_edge(u, v, w)).is_err()),
                2 => ("add_edge_bidir to a frozen graph", catch(|| g.add_edge_bidir(u, v, w)).is_err()),
                3 => {
                    order[c.rng.below(n)] = invalid_id(c, n);
                    // a panic or an error
                    ("order with an invalid node", !matches!(catch(|| prepare_with_order(&g, &order)), Ok(Ok(_))))
                }
                4 => {
                    let at = c.rng.below(n);
                    order[at] = order[(at + 1) % n];
                    ("order with a repeated node", !matches!(catch(|| prepare_with_order(&g, &order)), Ok(Ok(_))))
                }
                5 => {
                    order.pop();
                    ("order that is too short", !matches!(catch(|| prepare_with_order(&g, &order)), Ok(Ok(_))))
                }
                _ => {
                    order.push(n);
                    ("order that is too long", !matches!(catch(|| prepare_with_order(&g, &order)), Ok(Ok(_))))
                }
            }
        } else {
            g.thaw();
            let r = match kind {
                0 => ("prepare from a thawed graph", catch(|| prepare(&g)).is_err()),
                1 => ("prepare_with_order from a thawed graph", !matches!(catch(|| prepare_with_order(&g, &order)), Ok(Ok(_)))),
                2 => ("get_edges of a thawed graph", catch(|| g.get_edges().len()).is_err()),
                3 => ("get_num_nodes of a thawed graph", catch(|| g.get_num_nodes()).is_err()),
                4 => ("get_num_edges of a thawed graph", catch(|| g.get_num_edges()).is_err()),
                5 => {
                    let p = Params::new(0.1, 5, 5, 5);
                    ("prepare_with_params from a thawed graph", catch(|| prepare_with_params(&g, &p)).is_err())
                }
                _ => ("reserved node id", catch(|| g.add_edge(u, WMAX, 1)).is_err()),
            };
            if c.rng.chance(50) {
                g.add_edge(u, u, w);
            }
            g.freeze();
            r
        };
        c.evals(1);
        c.count(&format!("invalid: {}", what), 1);
        ensure!(rejected, "round {}: {}: not rejected", round, what);
        ensure!(
            g.get_num_nodes() == n
                && g.get_edges().len() == list.len()
                && g.get_edges().iter().zip(&list).all(|(e, x)| (e.from, e.to, e.weight) == *x),
            "round {}: the input graph changed by a rejected call: {}",
            round,
            what
        );
        if c.rng.chance(30) {
            ensure!(bytes(&prepare(&g)) == want, "round {}: after a rejected call ({}) the graph is prepared differently", round, what);
            c.count("preparations_after_rejections", 1);
            c.evals(1);
        }
    }
    Ok(())
}

/// the same with graphs that have no edges, or none but skipped ones, and were never frozen or are thawed again
fn calls_empty(c: &mut Case) -> Verdict {
    let mut g = InputGraph::new();
    let mut log = String::from("new");
    for _ in 0..c.rng.below(4) {
        match c.rng.below(3) {
            0 => {
                let u = c.rng.below(9);
                g.add_edge(u, u, 3);
                log += ", loop";
            }
            1 => {
                let u = c.rng.below(9);
                g.add_edge_bidir(u, u + 1, 0);
                log += ", edge without weight";
            }
            _ => {
                g.freeze();
                g.thaw();
                log += ", freeze, thaw";
            }
        }
    }
    // or one that was stored
    if c.rng.chance(20) {
        g = serde_json::from_str(&serde_json::to_string(&g).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        log += ", stored and loaded";
    }
    c.about = log;
    c.distinct(crate::rng::hash_bytes(c.about.as_bytes()));
    let p = Params::new(0.1, 5, 5, 5);
    let file = std::env::var("FP_SCRATCH").unwrap_or_else(|_| "/verif/scratch".into());
    let file = std::path::Path::new(&file).join(format!("unfrozen-{}-{}", std::process::id(), c.idx));
    let calls: [(&str, bool); 8] = [
        ("get_edges", catch(|| g.get_edges().len()).is_err()),
        ("get_num_nodes", catch(|| g.get_num_nodes()).is_err()),
        ("get_num_edges", catch(|| g.get_num_edges()).is_err()),
        ("prepare", catch(|| prepare(&g)).is_err()),
        ("prepare_with_params", catch(|| prepare_with_params(&g, &p)).is_err()),
        ("prepare_with_order", !matches!(catch(|| prepare_with_order(&g, &[])), Ok(Ok(_)))),
        (
            "prepare_with_order_with_params",
            !matches!(catch(|| prepare_with_order_with_params(&g, &[], &ParamsWithOrder::new(3))), Ok(Ok(_))),
        ),
        ("to_file", !matches!(catch(|| g.to_file(file.to_str().unwrap())), Ok(Ok(_)))),
    ];
    let _ = std::fs::remove_file(&file);
    for (what, rejected) in calls {
        c.evals(1);
        c.count("invalid: graph without edges that is not frozen", 1);
        ensure!(rejected, "{} is not rejected although the graph is not frozen", what);
    }
    g.freeze();
    ensure!(g.get_num_nodes() == 0 && g.get_edges().is_empty() && prepare(&g).get_num_nodes() == 0, "the empty graph has changed");
    ensure!(catch(|| g.add_edge(0, 1, 1)).is_err(), "add_edge to a frozen graph is not rejected");
    Ok(())
}
