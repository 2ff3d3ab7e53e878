//! C05 (parameters) and C06 (given orders).
use crate::check::*;
use crate::gen::*;
use crate::oracle::Model;
use crate::run::*;
use fast_paths::*;

pub fn run_params(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 5000, 10_000_000, 5.0 * t, |c| params_case(c, Size::Tiny, 3, 100));
    ctx.run_cases("small", 1000, 10_000_000, 12.0 * t, |c| params_case(c, Size::Small, 4, 2000));
    ctx.run_cases("medium", 60, 1_000_000, 14.0 * t, |c| params_case(c, Size::Medium, 2, 8000));
    ctx.run_cases("hubs", 40, 1_000_000, 4.0 * t, |c| {
        let spec = gen_hubs(&mut c.rng);
        let m = spec.model();
        // hubs early or late
        let mut p = Params::new(factor(&mut c.rng), c.rng.below(20), c.rng.below(5), c.rng.below(20));
        p.edge_quotient_factor = factor(&mut c.rng);
        c.about = format!("{} {}", spec.show(), show_params(&p));
        c.distinct(spec.hash());
        let fg = prepare_with_params(&spec.input(), &p);
        verify(c, &m, &fg, 8000)
    });
    ctx.run_cases("maps", 16, 10_000, 12.0 * t, params_map);
    let k = if ctx.thorough { 32 } else { 4 };
    ctx.run_cases("big", k, k, 0.0, |c| params_case(c, Size::Big, 1, 2500));
    ctx.run_cases("empty", 50, 50, 0.0, empty);
}

fn params_case(c: &mut Case, size: Size, k: usize, budget: usize) -> Verdict {
    let mut spec = gen(&mut c.rng, size);
    if size == Size::Medium && c.rng.chance(70) {
        let n = c.rng.range(60, 120);
        spec = gen_with(&mut c.rng, spec.family, spec.regime, n);
    }
    let m = spec.model();
    c.about = spec.show();
    let g = spec.input();
    c.distinct(spec.hash());
    // the effort of some combinations is cubic
    let wild = m.n <= 125 && !is_hub(&g);
    for i in 0..k {
        let p = if wild {
            params(&mut c.rng)
        } else {
            let mut p = Params::new(factor(&mut c.rng).abs().min(1.0), c.rng.below(200), c.rng.below(20), c.rng.range(0, 100));
            p.edge_quotient_factor = 0.5 + c.rng.below(100) as f32 / 50.0;
            p
        };
        if wild && i == 0 && c.rng.chance(30) {
            let order = if m.n <= 64 { c.rng.perm(m.n) } else { get_node_ordering(&prepare(&g)) };
            let l = limit(&mut c.rng);
            c.about = format!("{} order {:?} limit {}", spec.show(), order, l);
            let r = prepare_with_order_with_params(&g, &order, &ParamsWithOrder::new(l));
            let fg = r.map_err(|e| format!("order rejected: {}", e))?;
            verify(c, &m, &fg, budget)?;
            continue;
        }
        c.about = format!("{} {}", spec.show(), show_params(&p));
        if c.idx < 2 && i == 0 {
            c.sample(c.about.chars().take(300).collect::<String>());
        }
        let fg = prepare_with_params(&g, &p);
        c.count("parameter_sets", 1);
        c.count("limits_all_zero", (p.max_settled_nodes_contraction == 0) as u64);
        c.count("factors_not_finite", !(p.hierarchy_depth_factor.is_finite() && p.edge_quotient_factor.is_finite()) as u64);
        verify(c, &m, &fg, budget)?;
    }
    Ok(())
}

fn is_hub(g: &InputGraph) -> bool {
    let mut degree = vec![0; g.get_num_nodes()];
    for e in g.get_edges() {
        degree[e.from] += 1;
        degree[e.to] += 1;
    }
    degree.len() > 40 && degree.iter().any(|d| *d > 50)
}

fn verify(c: &mut Case, m: &Model, fg: &FastGraph, budget: usize) -> Verdict {
    let mut calc = create_calculator(fg);
    check_queries(c, m, fg, &mut calc, What::Both, budget)?;
    observe_graph(c, m, fg);
    Ok(())
}

fn params_map(c: &mut Case) -> Verdict {
    // the small maps more often
    let name = ["graph_23rd.gr", "graph_ballard.gr", "graph_23rd.gr", "bremen_time.gr", "graph_ballard.gr", "south_seattle_car.gr", "graph_23rd.gr", "bremen_dist.gr"]
        [c.idx as usize % 8];
    let spec = Spec { family: name, regime: "original", edges: read_map(name) };
    let m = spec.model();
    let g = spec.input();
    let mut p = Params::new(
        *c.rng.pick(&[0.0, 0.01, 0.1, 0.5, 1.0, 3.0]),
        *c.rng.pick(&[0, 1, 10, 100, 500, usize::MAX]),
        *c.rng.pick(&[0, 1, 2, 10, 50]),
        *c.rng.pick(&[20, 50, 100, 400]),
    );
    if c.rng.chance(40) {
        p.edge_quotient_factor = *c.rng.pick(&[0.5, 1.0, 2.0, 10.0]);
    }
    if p.max_settled_nodes_initial_relevance == usize::MAX && m.n > 5000 {
        p.max_settled_nodes_initial_relevance = 2000;
    }
    c.about = format!("{} {}", name, show_params(&p));
    c.distinct(spec.hash() ^ c.idx);
    let fg = prepare_with_params(&g, &p);
    c.count("parameter_sets", 1);
    verify(c, &m, &fg, 2 * m.n)
}

/// no nodes at all
fn empty(c: &mut Case) -> Verdict {
    let mut g = InputGraph::new();
    if c.rng.chance(50) {
        g.add_edge(3, 3, 1);
        g.add_edge(3, 4, 0);
    }
    g.freeze();
    let fg = prepare_with_params(&g, &params(&mut c.rng));
    ensure!(fg.get_num_nodes() == 0 && fg.get_num_out_edges() == 0 && fg.get_num_in_edges() == 0, "empty graph is not empty");
    ensure!(get_node_ordering(&fg).is_empty(), "empty graph has an ordering");
    let l = limit(&mut c.rng);
    ensure!(prepare_with_order_with_params(&g, &[], &ParamsWithOrder::new(l)).is_ok(), "empty order rejected");
    c.evals(2);
    Ok(())
}

pub fn run_order(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("all_orders", 800, 10_000_000, 8.0 * t, all_orders);
    ctx.run_cases("small", 600, 10_000_000, 10.0 * t, |c| order_case(c, Size::Small, 2000));
    ctx.run_cases("hubs", 40, 1_000_000, 4.0 * t, |c| {
        let spec = gen_hubs(&mut c.rng);
        let m = spec.model();
        c.distinct(spec.hash());
        let (fg, how) = prepare_wild(&mut c.rng, &spec.input());
        c.about = format!("{} {}", spec.show(), how);
        verify(c, &m, &fg, 8000)
    });
    ctx.run_cases("medium", 60, 1_000_000, 8.0 * t, |c| order_case(c, Size::Medium, 5000));
    ctx.run_cases("large", 10, 1_000_000, 6.0 * t, |c| order_case(c, Size::Large, 20_000));
    ctx.run_cases("maps", 5, 10_000, 8.0 * t, order_map);
    ctx.run_cases("big", 3, 3, 0.0, order_big);
    ctx.run_cases("all_sequences", 60, 10_000_000, 3.0 * t, all_sequences);
    ctx.run_cases("structured", 60, 1_000_000, 6.0 * t, structured);
    ctx.run_cases("invalid", 2000, 10_000_000, 4.0 * t, |c| invalid(c, if c.idx % 3 == 0 { Size::Small } else { Size::Tiny }));
    ctx.run_cases("invalid_large", 60, 1_000_000, 4.0 * t, |c| {
        let size = if c.idx % 3 == 0 { Size::Large } else { Size::Medium };
        invalid(c, size)
    });
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}

fn checked_order(c: &mut Case, g: &InputGraph, order: &[usize], lim: Option<usize>) -> Result<FastGraph, String> {
    let fg = match lim {
        None => prepare_with_order(g, order),
        Some(l) => prepare_with_order_with_params(g, order, &ParamsWithOrder::new(l)),
    }
    .map_err(|e| format!("permutation {:?} rejected: {}", &order[..order.len().min(100)], e))?;
    c.evals(1);
    let got = get_node_ordering(&fg);
    ensure!(got == order, "order {:?}, but the ordering of the result is {:?}", &order[..order.len().min(100)], &got[..got.len().min(100)]);
    Ok(fg)
}

fn all_orders(c: &mut Case) -> Verdict {
    let n = c.rng.range(2, 5);
    let mut spec = gen(&mut c.rng, Size::Tiny);
    while spec.model().n > 5 {
        spec = gen_with(&mut c.rng, spec.family, spec.regime, n);
        if spec.model().n > 5 {
            spec = gen(&mut c.rng, Size::Tiny);
        }
    }
    let m = spec.model();
    let g = spec.input();
    c.distinct(spec.hash());
    if c.idx < 2 {
        c.sample(format!("all orders of {}", spec.show()));
    }
    for o in permutations(m.n) {
        c.about = format!("{} order {:?}", spec.show(), o);
        let fg = checked_order(c, &g, &o, None)?;
        verify(c, &m, &fg, 100)?;
        c.count("orders", 1);
    }
    Ok(())
}

/// all sequences of ids of the right length: the permutations are accepted, nothing else is
fn all_sequences(c: &mut Case) -> Verdict {
    let mut spec = gen(&mut c.rng, Size::Tiny);
    let most = if c.idx % 20 == 0 { 5 } else { 4 };
    while spec.model().n > most {
        spec = gen(&mut c.rng, Size::Tiny);
    }
    let m = spec.model();
    let g = spec.input();
    c.distinct(spec.hash());
    let n = m.n;
    for k in 0..(n as u64).pow(n as u32) {
        let mut k = k;
        let mut order = vec![];
        for _ in 0..n {
            order.push((k % n as u64) as usize);
            k /= n as u64;
        }
        let mut s = order.clone();
        s.sort_unstable();
        c.about = format!("{} order {:?}", spec.show(), order);
        if s == (0..n).collect::<Vec<_>>() {
            checked_order(c, &g, &order, None)?;
            continue;
        }
        let r = catch(|| prepare_with_order(&g, &order));
        c.evals(1);
        c.count("sequences_with_repetitions", 1);
        ensure!(!matches!(r, Ok(Ok(_))), "an order that is no permutation was accepted");
    }
    Ok(())
}

/// another graph with the same number of nodes
fn changed(c: &mut Case, spec: &Spec, n: usize) -> Spec {
    let mut s = spec.clone();
    for (i, e) in s.edges.iter_mut().enumerate() {
        if c.rng.chance(50) {
            e.2 = weight(&mut c.rng, spec.regime, i);
        }
        if c.rng.chance(5) {
            std::mem::swap(&mut e.0, &mut e.1);
        }
    }
    // removed and new edges
    let keep = c.rng.range(60, 100);
    s.edges.retain(|e| e.0 < n && e.1 < n && c.rng.chance(keep));
    for i in 0..c.rng.below(4) {
        let (u, v) = (c.rng.below(n), c.rng.below(n));
        let w = weight(&mut c.rng, spec.regime, i);
        s.edges.push((u, v, w));
    }
    if s.model().n != n {
        s.edges.push((n - 1, c.rng.below(n - 1), 5));
    }
    s
}

fn order_case(c: &mut Case, size: Size, budget: usize) -> Verdict {
    let mut spec = gen(&mut c.rng, size);
    if size == Size::Medium {
        let n = c.rng.range(80, 160);
        spec = gen_with(&mut c.rng, spec.family, spec.regime, n);
    }
    let m = spec.model();
    let g = spec.input();
    c.distinct(spec.hash());
    let n = m.n;
    // the order is either free, or the one of a prepared graph, more or less disturbed
    let heuristic = get_node_ordering(&prepare(&g));
    let mut sorted = heuristic.clone();
    sorted.sort_unstable();
    ensure!(sorted == (0..n).collect::<Vec<_>>(), "the ordering of a prepared graph is no permutation: {:?}", heuristic);
    let mut order = heuristic.clone();
    if n <= 64 {
        match c.rng.below(6) {
            0 => order.reverse(),
            1 => order = (0..n).collect(),
            2 => order = (0..n).rev().collect(),
            3 => {}
            _ => order = c.rng.perm(n),
        }
    } else {
        for _ in 0..c.rng.below(n / 4) {
            let i = c.rng.below(n);
            let j = (i + c.rng.below(5)).min(n - 1);
            order.swap(i, j);
        }
    }
    let lim = if n <= 64 && c.rng.chance(60) { Some(limit(&mut c.rng)) } else { None };
    c.about = format!("{} order {:?} limit {:?}", spec.show(), &order[..n.min(200)], lim);
    let fg = checked_order(c, &g, &order, lim)?;
    verify(c, &m, &fg, budget)?;
    c.count("orders", 1);
    // reuse it for a changed graph
    let spec2 = changed(c, &spec, n);
    let m2 = spec2.model();
    if n > 64 && m2.n == n {
        // an unsuitable order can take long
        order = heuristic;
    }
    c.about = format!("changed graph {} order {:?}", spec2.show(), &order[..n.min(200)]);
    let fg2 = checked_order(c, &spec2.input(), &order, None)?;
    verify(c, &m2, &fg2, budget)?;
    c.count("changed_graphs", 1);
    // the ordering can be used again and again
    let fg3 = checked_order(c, &g, &get_node_ordering(&fg2), lim)?;
    verify(c, &m, &fg3, budget / 2)
}

fn order_map(c: &mut Case) -> Verdict {
    let (spec, m) = super::query::map_input(c);
    c.about = format!("map {} weights {}", spec.family, spec.regime);
    let g = spec.input();
    c.distinct(spec.hash());
    let order = get_node_ordering(&prepare(&g));
    let fg = checked_order(c, &g, &order, None)?;
    verify(c, &m, &fg, m.n)?;
    // other weights, e.g. for traffic
    let mut spec2 = spec.clone();
    for e in spec2.edges.iter_mut() {
        if c.rng.chance(30) {
            e.2 = e.2 * c.rng.range(50, 300) / 100 + 1;
        }
    }
    let fg2 = checked_order(c, &spec2.input(), &order, None)?;
    c.count("changed_graphs", 1);
    verify(c, &spec2.model(), &fg2, m.n)
}

fn order_big(c: &mut Case) -> Verdict {
    let family = ["line_bidir", "bintree", "roadlike"][c.idx as usize];
    let n = 66_500 + c.rng.below(3000);
    let spec = gen_with(&mut c.rng, family, "mid", n);
    let m = spec.model();
    c.about = format!("{} with {} nodes", family, m.n);
    c.distinct(spec.hash());
    let g = spec.input();
    let order = get_node_ordering(&prepare(&g));
    let fg = checked_order(c, &g, &order, None)?;
    verify(c, &m, &fg, 2500)
}

/// orders with a structure (sorted, reversed, interleaved, by degree, ...) for more nodes, on graphs where any order is quick
fn structured(c: &mut Case) -> Verdict {
    let family = *c.rng.pick(&["line_bidir", "line", "cycle", "cycle_bidir", "ladder", "hubchains", "star_bidir", "lollipop", "detours"]);
    let regime = *c.rng.pick(&["small", "mid", "two", "unit", "tiny", "wide"]);
    let n = match family {
        "star_bidir" | "hubchains" | "lollipop" => c.rng.range(65, 180),
        "ladder" => c.rng.range(65, 400),
        _ => c.rng.range(65, 1500),
    };
    let spec = gen_with(&mut c.rng, family, regime, n);
    let m = spec.model();
    let n = m.n;
    let g = spec.input();
    c.distinct(spec.hash());
    let ids: Vec<usize> = (0..n).collect();
    let mut degree = vec![0; n];
    for e in &m.edge_list() {
        degree[e.0] += 1;
        degree[e.1] += 1;
    }
    let kind = c.rng.below(9);
    let order = match kind {
        0 => ids,
        1 => ids.into_iter().rev().collect(),
        2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        3 => {
            let k = c.rng.below(n);
            (k..n).chain(0..k).collect()
        }
        // in blocks
        4 => {
            let b = c.rng.range(2, 40);
            let mut blocks: Vec<&[usize]> = ids.chunks(b).collect();
            blocks.reverse();
            blocks.concat()
        }
        5 => {
            let mut v = ids;
            v.sort_by_key(|x| degree[*x]);
            v
        }
        // sorted but for a few nodes
        6 => {
            let mut v = ids;
            for _ in 0..c.rng.range(1, 3) {
                let (i, j) = (c.rng.below(n), c.rng.below(n));
                v.swap(i, j);
            }
            v
        }
        // by the bits of the id in reverse
        7 => {
            let mut v = ids;
            v.sort_by_key(|x| x.reverse_bits());
            v
        }
        _ => c.rng.perm(n),
    };
    let lim = if c.rng.chance(40) { Some(*c.rng.pick(&[0, 1, 5, 50, 1000])) } else { None };
    c.about = format!("{} weights {} with {} nodes, order of kind {} ({:?}...) limit {:?}", family, regime, n, kind, &order[..8], lim);
    if c.idx < 2 {
        c.sample(c.about.clone());
    }
    let fg = checked_order(c, &g, &order, lim)?;
    c.count("structured_orders", 1);
    verify(c, &m, &fg, 3000)
}

/// everything that is not a permutation
fn invalid(c: &mut Case, size: Size) -> Verdict {
    let spec = gen(&mut c.rng, size);
    let m = spec.model();
    let n = m.n;
    let g = spec.input();
    c.distinct(spec.hash());
    let mut order = c.rng.perm(n);
    let kind = c.rng.below(10);
    match kind {
        0 => {
            order.pop();
        }
        1 => order.clear(),
        2 => order.push(n),
        3 => {
            let x = *c.rng.pick(&order);
            order.push(x);
        }
        4 => order = (0..2 * n).collect(),
        // right length
        5 => {
            let i = c.rng.below(n);
            order[i] = *c.rng.pick(&[n, n + 1, usize::MAX, usize::MAX - 1, 1 << 32, (1 << 32) + i]);
        }
        6 => {
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            order[i] = order[j];
            if i == j {
                order[i] = order[(i + 1) % n];
            }
        }
        7 => {
            let x = order[0];
            order.iter_mut().for_each(|o| *o = x);
        }
        8 if n >= 4 => {
            // others with the same sum, exclusive or, and for blocks of eight also sum of squares
            let block = if n >= 8 && c.rng.chance(50) { 8 } else { 4 };
            let first = block * c.rng.below(n / block);
            for x in order.iter_mut() {
                if *x >= first && *x < first + block && (*x - first).count_ones() % 2 == 1 {
                    let near = [0, 0, 3, 0, 5, 0, 0, 6];
                    *x = first + near[*x - first];
                }
            }
        }
        _ => {
            // two wrong entries that a checksum would miss
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            if i != j && order[i] > 0 && order[j] + 1 < n && order[i] != order[j] + 1 {
                order[i] -= 1;
                order[j] += 1;
            } else {
                order[0] = order[n - 1];
            }
        }
    }
    c.about = if n > 300 { format!("{} order of {} nodes, change of kind {}", spec.show(), n, kind) } else { format!("{} order {:?}", spec.show(), order) };
    let l = limit(&mut c.rng);
    let plain = c.rng.chance(50);
    let mut s = order.clone();
    s.sort_unstable();
    if s == (0..n).collect::<Vec<_>>() {
        return Ok(());
    }
    let r = catch(|| {
        if plain {
            prepare_with_order(&g, &order)
        } else {
            prepare_with_order_with_params(&g, &order, &ParamsWithOrder::new(l))
        }
    });
    c.evals(1);
    match &r {
        Ok(Ok(_)) => return Err("an order that is no permutation was accepted".into()),
        Ok(Err(_)) => c.count("invalid_orders_with_error", 1),
        Err(_) => {
            ensure!(order.len() == n, "an order of the wrong length panics instead of returning an error");
            c.count("invalid_orders_with_panic", 1)
        }
    }
    // the graph can still be used
    let order = if n > 64 { get_node_ordering(&prepare(&g)) } else { c.rng.perm(n) };
    let fg = checked_order(c, &g, &order, None)?;
    verify(c, &m, &fg, 60)
}
