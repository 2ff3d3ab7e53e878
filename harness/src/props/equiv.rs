//! C26: ways of calling the library that are said to be the same have the same results.
use super::determ::bytes;
use super::multi::list;
use crate::check::*;
use crate::gen::*;
use crate::run::*;
use fast_paths::*;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 3000, 10_000_000, 6.0 * t, |c| case(c, Size::Tiny, 60));
    ctx.run_cases("small", 800, 10_000_000, 10.0 * t, |c| case(c, Size::Small, 200));
    ctx.run_cases("medium", 40, 1_000_000, 9.0 * t, |c| case(c, Size::Medium, 300));
    ctx.run_cases("large", 8, 1_000_000, 8.0 * t, |c| case(c, Size::Large, 300));
    ctx.run_cases("maps", 5, 10_000, 8.0 * t, |c| {
        let (spec, _) = super::query::map_input(c);
        all(c, &spec, 300)
    });
    ctx.run_cases("big", 2, 2, 0.0, |c| {
        let n = 66_500 + c.rng.below(3000);
        let family = ["roadlike", "line_bidir"][c.idx as usize % 2];
        let spec = gen_with(&mut c.rng, family, "small", n);
        all(c, &spec, 100)
    });
    ctx.run_cases("input", 3000, 10_000_000, 5.0 * t, input);
}

fn case(c: &mut Case, size: Size, budget: usize) -> Verdict {
    let spec = gen(&mut c.rng, size);
    all(c, &spec, budget)
}

fn all(c: &mut Case, spec: &Spec, budget: usize) -> Verdict {
    c.about = spec.show();
    c.distinct(spec.hash());
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    let g = spec.input();
    let fg = preparations(c, &g)?;
    queries(c, &fg, budget)
}

fn equal(c: &mut Case, a: &[u8], b: &FastGraph, what: &str) -> Verdict {
    c.evals(1);
    ensure!(a == bytes(b).as_slice(), "{}: another prepared graph", what);
    Ok(())
}

type Prepared = Result<Result<FastGraph, String>, PanicInfo>;

/// both graphs are equal, or both calls refuse
fn equal_results(c: &mut Case, a: &Prepared, b: &Prepared, what: &str) -> Verdict {
    c.evals(1);
    match (a, b) {
        (Ok(Ok(a)), Ok(Ok(b))) => ensure!(bytes(a) == bytes(b), "{}: another prepared graph", what),
        (Ok(Ok(_)), Ok(Err(e))) | (Ok(Err(e)), Ok(Ok(_))) => return Err(format!("{}: only one is refused: {}", what, e)),
        (Ok(Ok(_)), Err(p)) | (Err(p), Ok(Ok(_))) => return Err(format!("{}: only one panics: {}", what, p.show())),
        _ => c.count("refused_by_both", 1),
    }
    Ok(())
}

/// some parameters whose effort is bearable for a graph of this size
fn some_params(c: &mut Case, n: usize) -> Params {
    if n <= 45 {
        return params(&mut c.rng);
    }
    let mut p = Params::new(*c.rng.pick(&[0.1, 0.0, 1.0]), 100, c.rng.below(20), c.rng.range(10, 100));
    if c.rng.chance(50) {
        p.edge_quotient_factor = *c.rng.pick(&[0.5, 2.0]);
    }
    p
}

fn copy(p: &Params) -> Params {
    let mut q = Params::new(
        p.hierarchy_depth_factor,
        p.max_settled_nodes_initial_relevance,
        p.max_settled_nodes_neighbor_relevance,
        p.max_settled_nodes_contraction,
    );
    q.edge_quotient_factor = p.edge_quotient_factor;
    q
}

fn preparations(c: &mut Case, g: &InputGraph) -> Result<FastGraph, String> {
    let n = g.get_num_nodes();
    // preparing a large graph takes long, only some of the comparisons are made then
    let all = n <= 300;
    let some = |c: &mut Case| all || c.rng.chance(25);
    let fg = prepare(g);
    let want = bytes(&fg);
    equal(c, &want, &fg.clone(), "a prepared graph and its copy")?;
    if some(c) {
        equal(c, &want, &prepare_with_params(g, &Params::default()), "prepare and prepare_with_params with the defaults")?;
    }
    if some(c) {
        equal(c, &want, &FastGraphBuilder::build(g), "prepare and FastGraphBuilder::build")?;
    }
    if some(c) {
        let b = FastGraphBuilder::build_with_params(g, &Params::default());
        equal(c, &want, &b, "prepare and build_with_params with the defaults")?;
    }
    let mut result = fg.clone();
    // the same order and the same limit: the same hierarchy again
    let own = |c: &mut Case, fg: &FastGraph, p: &Params| -> Verdict {
        let l = p.max_settled_nodes_contraction;
        let again = prepare_with_order_with_params(g, &get_node_ordering(fg), &ParamsWithOrder::new(l))
            .map_err(|e| format!("own ordering refused: {}", e))?;
        c.count("prepared_again_with_own_ordering", 1);
        let what = || format!("preparing with the ordering and limit of a prepared graph, {}", show_params(p));
        equal(c, &bytes(fg), &again, &what())
    };
    if all || c.rng.chance(50) {
        own(c, &fg, &Params::default())?;
    }
    if some(c) {
        let p = some_params(c, n);
        let a = prepare_with_params(g, &p);
        let b = FastGraphBuilder::build_with_params(g, &copy(&p));
        equal(c, &bytes(&a), &b, &format!("prepare_with_params and build_with_params, {}", show_params(&p)))?;
        own(c, &a, &copy(&p))?;
        if c.rng.chance(50) {
            result = a;
        }
    }

    let mut order = get_node_ordering(&fg);
    c.evals(1);
    ensure!(order == fg.get_node_ordering(), "get_node_ordering differs as function and as method");
    if n <= 64 && c.rng.chance(70) {
        order = c.rng.perm(n);
    }
    if c.rng.chance(15) {
        // nothing that may be accepted
        match c.rng.below(4) {
            0 => {
                order.pop();
            }
            1 => order.push(n),
            2 => order[0] = order[n - 1],
            _ => order[n / 2] = n,
        }
    }
    let default = catch(|| prepare_with_order(g, &order));
    if some(c) {
        let o = catch(|| prepare_with_order_with_params(g, &order, &ParamsWithOrder::default()));
        equal_results(c, &default, &o, "prepare_with_order and the same with the default parameters")?;
    }
    if some(c) {
        let o = catch(|| FastGraphBuilder::build_with_order(g, &order));
        equal_results(c, &default, &o, "prepare_with_order and build_with_order")?;
    }
    if some(c) {
        let o = catch(|| FastGraphBuilder::build_with_order_with_params(g, &order, &ParamsWithOrder::default()));
        equal_results(c, &default, &o, "prepare_with_order and build_with_order_with_params with the defaults")?;
    }
    if some(c) {
        let l = if n <= 64 { limit(&mut c.rng) } else { c.rng.range(20, 200) };
        let x = catch(|| prepare_with_order_with_params(g, &order, &ParamsWithOrder::new(l)));
        let y = catch(|| FastGraphBuilder::build_with_order_with_params(g, &order, &ParamsWithOrder::new(l)));
        equal_results(c, &x, &y, &format!("prepare_with_order_with_params and build_with_order_with_params, limit {}", l))?;
    }
    Ok(result)
}

type Answer = Result<Option<ShortestPath>, PanicInfo>;

fn equal_answers(c: &mut Case, a: &Answer, b: &Answer, what: impl Fn() -> String) -> Verdict {
    c.evals(1);
    match (a, b) {
        (Ok(a), Ok(b)) => ensure!(same(a, b), "{}: {} and {}", what(), show(a), show(b)),
        (Err(_), Err(_)) => c.count("rejected_by_both", 1),
        (Ok(a), Err(p)) => return Err(format!("{}: {} and panic {}", what(), show(a), p.show())),
        (Err(p), Ok(b)) => return Err(format!("{}: panic {} and {}", what(), p.show(), show(b))),
    }
    Ok(())
}

fn queries(c: &mut Case, fg: &FastGraph, budget: usize) -> Verdict {
    let n = fg.get_num_nodes();
    let mut calc = create_calculator(fg);
    let mut other = PathCalculator::new(n);
    let cheap = n <= 3000;
    for i in 0..budget {
        let (mut s, mut t) = (c.rng.below(n), c.rng.below(n));
        if c.rng.chance(4) {
            s = t;
        }
        if c.rng.chance(3) {
            t = *c.rng.pick(&[n, n + 1, usize::MAX]);
            if c.rng.chance(50) {
                std::mem::swap(&mut s, &mut t);
            }
        }
        let a: Answer = catch(|| calc.calc_path(fg, s, t));
        let b: Answer = catch(|| other.calc_path(fg, s, t));
        equal_answers(c, &a, &b, || format!("query {} -> {}, calculators made by create_calculator and new", s, t))?;
        if cheap || i % 20 == 0 {
            let b = catch(|| calc_path(fg, s, t));
            equal_answers(c, &a, &b, || format!("query {} -> {}, with a calculator and as function", s, t))?;
            let b = catch(|| calc_path_multiple_sources_and_targets(fg, vec![(s, 0)], vec![(t, 0)]));
            equal_answers(c, &a, &b, || format!("query {} -> {}, and with lists as function", s, t))?;
        }
        let b = catch(|| other.calc_path_multiple_sources_and_targets(fg, vec![(s, 0)], vec![(t, 0)]));
        equal_answers(c, &a, &b, || format!("query {} -> {}, as nodes and as lists", s, t))?;
        // weights of single entries only shift the result
        if let Ok(Some(p)) = &a {
            let (x, y) = (c.rng.below(1000), 1usize << c.rng.below(60));
            let b = other.calc_path_multiple_sources_and_targets(fg, vec![(s, x)], vec![(t, y)]);
            let want = p.get_weight() as u128 + x as u128 + y as u128;
            if want < WMAX as u128 {
                c.evals(1);
                let got = b.as_ref().map(|b| b.get_weight() as u128);
                ensure!(got == Some(want), "query ({}, {}) -> ({}, {}): {}, but {} without weights", s, x, t, y, show(&b), show(&a.unwrap()));
            }
            c.count("shifted", 1);
        }
        c.count("queries", 1);
    }
    for i in 0..budget.min(40) {
        let (mut s, mut t) = (list(c, n, 1000, &[]), list(c, n, 1000, &[]));
        if c.rng.chance(8) {
            let at = c.rng.below(t.len());
            t[at].0 = n;
        }
        if c.rng.chance(4) {
            s.clear();
        }
        if c.rng.chance(4) {
            t.clear();
        }
        let a: Answer = catch(|| calc.calc_path_multiple_sources_and_targets(fg, s.clone(), t.clone()));
        let b: Answer = if cheap || i % 8 == 0 {
            catch(|| calc_path_multiple_sources_and_targets(fg, s.clone(), t.clone()))
        } else {
            catch(|| other.calc_path_multiple_sources_and_targets(fg, s.clone(), t.clone()))
        };
        equal_answers(c, &a, &b, || format!("query {:?} -> {:?}, with a calculator and as function", s, t))?;
        c.count("list_queries", 1);
    }
    Ok(())
}

/// InputGraph: two-way edges, copies, the default
fn input(c: &mut Case) -> Verdict {
    let (mut a, mut b) = (InputGraph::new(), InputGraph::default());
    let regime = if c.rng.chance(50) { "small" } else { "huge" };
    let n = c.rng.range(1, 12);
    for i in 0..c.rng.below(40) {
        let (u, v, mut w) = (c.rng.below(n), c.rng.below(n), weight(&mut c.rng, regime, i));
        if c.rng.chance(5) {
            w = 0;
        }
        c.evals(1);
        if c.rng.chance(50) {
            let (x, y) = (a.add_edge_bidir(u, v, w), b.add_edge(u, v, w) + b.add_edge(v, u, w));
            ensure!(x == y, "add_edge_bidir({}, {}, {}) returned {}, add_edge in both directions {}", u, v, w, x, y);
            c.count("two_way_edges", 1);
        } else {
            let (x, y) = (a.add_edge(u, v, w), b.add_edge(u, v, w));
            ensure!(x == y, "add_edge({}, {}, {}) returned {} and {}", u, v, w, x, y);
        }
        if c.rng.chance(10) {
            let copy = a.clone();
            a = copy;
        }
        if c.rng.chance(5) {
            b.freeze();
            b.thaw();
        }
    }
    let mut early = a.clone();
    a.freeze();
    b.freeze();
    early.freeze();
    let late = a.clone();
    let edges = |g: &InputGraph| g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect::<Vec<_>>();
    let want = edges(&a);
    c.distinct(crate::rng::hash_bytes(format!("{:?}", want).as_bytes()));
    for (what, g) in [("built from single edges", &b), ("copied before freezing", &early), ("copied afterwards", &late)] {
        c.evals(1);
        ensure!(
            edges(g) == want && g.get_num_nodes() == a.get_num_nodes() && g.get_num_edges() == want.len(),
            "a graph {} differs: {:?} and {:?}",
            what,
            want,
            edges(g)
        );
    }
    Ok(())
}
