//! C17 (well-formed hierarchies) and C20 (no needless shortcuts).
use crate::check::WMAX;
use crate::gen::*;
use crate::oracle::Model;
use crate::run::*;
use fast_paths::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, HashSet};

pub const NONE: usize = usize::MAX;

#[derive(Clone, Debug)]
pub struct E {
    pub base: usize,
    pub adj: usize,
    pub w: usize,
    pub rin: usize,
    pub rout: usize,
}

pub struct Hier {
    pub ranks: Vec<usize>,
    pub fwd: Vec<E>,
    pub first_fwd: Vec<usize>,
    pub bwd: Vec<E>,
    pub first_bwd: Vec<usize>,
}

/// through the public fields of the 32-bit representation, or through serde if the values are too large
pub fn look_into(fg: &FastGraph) -> Result<Option<Hier>, String> {
    if let Ok(g) = catch(|| FastGraph32::new(fg)) {
        let u = |x: u32| if x == u32::MAX { NONE } else { x as usize };
        macro_rules! edges {
            ($list:expr) => {
                $list
                    .iter()
                    .map(|e| E {
                        base: u(e.base_node),
                        adj: u(e.adj_node),
                        w: u(e.weight),
                        rin: u(e.replaced_in_edge),
                        rout: u(e.replaced_out_edge),
                    })
                    .collect()
            };
        }
        return Ok(Some(Hier {
            ranks: g.ranks.iter().map(|x| u(*x)).collect(),
            fwd: edges!(g.edges_fwd),
            first_fwd: g.first_edge_ids_fwd.iter().map(|x| u(*x)).collect(),
            bwd: edges!(g.edges_bwd),
            first_bwd: g.first_edge_ids_bwd.iter().map(|x| u(*x)).collect(),
        }));
    }
    let v = serde_json::to_value(fg).map_err(|e| format!("serializing failed: {}", e))?;
    let list = |k: &str| -> Option<Vec<usize>> { v.get(k)?.as_array()?.iter().map(|x| x.as_u64().map(|x| x as usize)).collect() };
    let edges = |k: &str| -> Option<Vec<E>> {
        v.get(k)?
            .as_array()?
            .iter()
            .map(|x| {
                let f = |k: &str| x.get(k).and_then(|x| x.as_u64()).map(|x| x as usize);
                Some(E {
                    base: f("base_node")?,
                    adj: f("adj_node")?,
                    w: f("weight")?,
                    rin: f("replaced_in_edge")?,
                    rout: f("replaced_out_edge")?,
                })
            })
            .collect()
    };
    Ok((|| {
        Some(Hier {
            ranks: list("ranks")?,
            fwd: edges("edges_fwd")?,
            first_fwd: list("first_edge_ids_fwd")?,
            bwd: edges("edges_bwd")?,
            first_bwd: list("first_edge_ids_bwd")?,
        })
    })())
}

fn well_formed(c: &mut Case, m: &Model, fg: &FastGraph) -> Verdict {
    let h = match look_into(fg)? {
        Some(h) => h,
        None => {
            c.count("not_inspected", 1);
            return Ok(());
        }
    };
    let n = m.n;
    ensure!(fg.get_num_nodes() == n, "{} nodes instead of {}", fg.get_num_nodes(), n);
    ensure!(h.ranks.len() == n, "{} ranks for {} nodes", h.ranks.len(), n);
    let mut node_at = vec![NONE; n];
    for (v, &r) in h.ranks.iter().enumerate() {
        ensure!(r < n && node_at[r] == NONE, "the ranks are no permutation: node {} has rank {}", v, r);
        node_at[r] = v;
    }
    ensure!(get_node_ordering(fg) == node_at, "the node ordering does not belong to the ranks");
    ensure!(fg.get_num_out_edges() == h.fwd.len() && fg.get_num_in_edges() == h.bwd.len(), "wrong edge counts");
    let mut stored = [BTreeMap::new(), BTreeMap::new()];
    for dir in 0..2 {
        let name = ["forward", "backward"][dir];
        let (edges, first) = if dir == 0 { (&h.fwd, &h.first_fwd) } else { (&h.bwd, &h.first_bwd) };
        ensure!(
            first.len() == n + 1 && first[0] == 0 && first[n] == edges.len() && first.windows(2).all(|p| p[0] <= p[1]),
            "the {} edge ranges are wrong",
            name
        );
        for r in 0..n {
            let v = node_at[r];
            let (b, e) = if dir == 0 {
                (fg.begin_out_edges(v), fg.end_out_edges(v))
            } else {
                (fg.begin_in_edges(v), fg.end_in_edges(v))
            };
            ensure!(b == first[r] && e == first[r + 1], "{} range {}..{} of node {} does not match {}..{}", name, b, e, v, first[r], first[r + 1]);
            for (id, x) in edges.iter().enumerate().take(e).skip(b) {
                c.evals(1);
                let about = || format!("{} edge {} {:?} of node {} (rank {})", name, id, x, v, r);
                ensure!(x.base == v, "{}: wrong base node", about());
                ensure!(x.adj < n && h.ranks[x.adj] > r, "{}: does not lead to a node of higher rank", about());
                // the real direction
                let (from, to) = if dir == 0 { (v, x.adj) } else { (x.adj, v) };
                ensure!(stored[dir].insert((v, x.adj), x.w).is_none(), "{}: there is another one between the same nodes", about());
                if x.rin == NONE && x.rout == NONE {
                    let w = m.edges.get(&(from, to));
                    ensure!(w == Some(&x.w), "{}: not an input edge (the input has {:?})", about(), w);
                    c.count("plain_edges", 1);
                    continue;
                }
                c.count("shortcuts", 1);
                ensure!(x.rin < h.bwd.len() && x.rout < h.fwd.len(), "{}: replaces edges that do not exist", about());
                let (i, o) = (&h.bwd[x.rin], &h.fwd[x.rout]);
                ensure!(i.base == o.base, "{}: the replaced edges {:?} and {:?} do not meet", about(), i, o);
                ensure!(i.adj == from && o.adj == to, "{}: the replaced edges {:?} and {:?} do not lead from {} to {}", about(), i, o, from, to);
                ensure!(i.base < n && h.ranks[i.base] < r, "{}: the replaced edges meet at node {} of rank {}", about(), i.base, h.ranks[i.base]);
                ensure!(
                    i.w as u128 + o.w as u128 == x.w as u128,
                    "{}: the weights of the replaced edges {:?} and {:?} do not add up",
                    about(),
                    i,
                    o
                );
            }
        }
    }
    for (&(u, v), &w) in &m.edges {
        c.evals(1);
        let got = if h.ranks[u] < h.ranks[v] { stored[0].get(&(u, v)) } else { stored[1].get(&(v, u)) };
        ensure!(got.map_or(false, |x| *x <= w), "the input edge {}>{}:{} is not represented (stored: {:?})", u, v, w, got);
    }
    Ok(())
}

pub fn run_well_formed(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 5000, 10_000_000, 5.0 * t, |c| hier_case(c, Size::Tiny));
    ctx.run_cases("small", 2000, 10_000_000, 8.0 * t, |c| hier_case(c, Size::Small));
    ctx.run_cases("medium", 100, 1_000_000, 8.0 * t, |c| hier_case(c, Size::Medium));
    ctx.run_cases("hubs", 60, 1_000_000, 4.0 * t, |c| {
        let spec = gen_hubs(&mut c.rng);
        let (fg, how) = prepare_wild(&mut c.rng, &spec.input());
        c.about = format!("{} preparation {}", spec.show(), how);
        c.distinct(spec.hash());
        let m = spec.model();
        well_formed(c, &m, &fg)
    });
    ctx.run_cases("large", 8, 1_000_000, 7.0 * t, |c| hier_case(c, Size::Large));
    ctx.run_cases("maps", 10, 10_000, 8.0 * t, |c| {
        let (spec, m) = super::query::map_input(c);
        c.about = format!("map {} weights {}", spec.family, spec.regime);
        c.distinct(spec.hash());
        let g = spec.input();
        let fg = if c.idx % 2 == 0 { prepare(&g) } else { prepare_with_params(&g, &Params::new(0.1, 500, 2, 50)) };
        well_formed(c, &m, &fg)?;
        let fg = prepare_with_order(&g, &get_node_ordering(&fg)).map_err(|e| format!("order rejected: {}", e))?;
        well_formed(c, &m, &fg)
    });
    ctx.run_cases("big", 6, 6, 0.0, |c| {
        let n = 66_000 + c.rng.below(3000);
        let family = ["roadlike", "bintree", "grid", "line_bidir", "cycle", "detours"][c.idx as usize % 6];
        let spec = gen_with(&mut c.rng, family, "mid", n);
        c.about = format!("{} with {} nodes", spec.family, n);
        c.distinct(spec.hash());
        let m = spec.model();
        well_formed(c, &m, &prepare(&spec.input()))
    });
}

fn hier_case(c: &mut Case, size: Size) -> Verdict {
    let mut spec = gen(&mut c.rng, size);
    if size != Size::Large && c.rng.chance(8) {
        let n = c.rng.range(3, 60);
        spec = gen_with(&mut c.rng, spec.family, "huge", n);
    }
    c.about = spec.show();
    let g = spec.input();
    let (fg, how) = prepare_any(&mut c.rng, &g);
    c.about = format!("{} preparation {}", spec.show(), how);
    c.distinct(spec.hash());
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    let m = spec.model();
    well_formed(c, &m, &fg)
}

// ------------------------------------------------------------------ C20

pub fn run_minimal(ctx: &Ctx) {
    let t = if ctx.thorough { 15.0 } else { 1.0 };
    ctx.run_cases("tiny", 5000, 10_000_000, 6.0 * t, |c| minimal_case(c, Size::Tiny));
    ctx.run_cases("small", 2000, 10_000_000, 14.0 * t, |c| minimal_case(c, Size::Small));
    ctx.run_cases("medium", 50, 1_000_000, 12.0 * t, |c| minimal_case(c, Size::Medium));
    ctx.run_cases("roads", 4, 1_000, 8.0 * t, minimal_roads);
    ctx.run_cases("far", 16, if ctx.thorough { 2000 } else { 16 }, 6.0 * t, minimal_far);
    ctx.run_cases("hubs", 16, 100_000, 3.0 * t, |c| {
        let mut spec = gen_hubs(&mut c.rng);
        spec.edges.retain(|e| e.0 < 110 && e.1 < 110);
        spec.edges.push((0, 1, 5));
        let m = spec.model();
        c.about = spec.show();
        let g = spec.input();
        let order = c.rng.perm(m.n);
        let fg = prepare_with_order_with_params(&g, &order, &ParamsWithOrder::new(WMAX)).map_err(|e| format!("order rejected: {}", e))?;
        c.distinct(spec.hash());
        no_needless(c, &m, &fg)
    });
}

/// The only other path has very many nodes: a long chain (or ladder, or tree of chains), and bridges whose two heavy
/// edges are just as long as the way along the chain, or a bit longer or shorter. The bridges are contracted first.
fn minimal_far(c: &mut Case) -> Verdict {
    let n = [300, 700, 1500, 2500, 4000, 6000, 12_000, 40_000, 70_000][c.idx as usize % 9] + c.rng.below(100);
    let kind = c.rng.below(3);
    let mut edges: Vec<(usize, usize, usize)> = vec![];
    let mut at = vec![0usize; n];
    for i in 1..n {
        let w = if kind == 1 { 1 } else { c.rng.range(1, 5) };
        at[i] = at[i - 1] + w;
        edges.push((i - 1, i, w));
        if kind != 2 {
            edges.push((i, i - 1, w));
        }
    }
    let bridges = 12;
    for b in 0..bridges {
        // some over nearly everything
        let (u, v) = if b % 3 == 0 { (c.rng.below(n / 20), n - 1 - c.rng.below(n / 20)) } else { (c.rng.below(n), c.rng.below(n)) };
        let (u, v) = (u.min(v), u.max(v));
        if v < u + 3 {
            continue;
        }
        let d = at[v] - at[u] + c.rng.below(2);
        let x = c.rng.range(1, d - 1);
        edges.push((u, n + b, x));
        edges.push((n + b, v, d - x));
        // and something at the bridge
        edges.push((n + b, n + bridges + b, 1));
        edges.push((n + bridges + b, n + b, 1));
    }
    let spec = Spec { family: "far", regime: "far", edges };
    let m = spec.model();
    c.about = format!("chain of {} nodes with bridges, kind {}: {}", n, kind, spec.show());
    let g = spec.input();
    let all = get_node_ordering(&prepare_with_params(&g, &Params::new(0.1, 10, 1, 10)));
    let mut order: Vec<usize> = (n..m.n).collect();
    order.extend(all.into_iter().filter(|v| *v < n));
    let fg = prepare_with_order_with_params(&g, &order, &ParamsWithOrder::new(WMAX)).map_err(|e| format!("order rejected: {}", e))?;
    c.distinct(spec.hash());
    c.max("nodes_of_the_longest_way_around", n as u64);
    no_needless(c, &m, &fg)
}

fn unlimited(c: &mut Case, g: &InputGraph) -> Result<(FastGraph, String), String> {
    let n = g.get_num_nodes();
    let max = *c.rng.pick(&[WMAX, WMAX, WMAX - 1, 10_000_000]);
    if n <= 64 && c.rng.chance(60) {
        let order = c.rng.perm(n);
        let fg = prepare_with_order_with_params(g, &order, &ParamsWithOrder::new(max)).map_err(|e| format!("order rejected: {}", e))?;
        return Ok((fg, format!("order {:?} limit {}", order, max)));
    }
    if c.rng.chance(30) {
        let order = get_node_ordering(&prepare(g));
        let fg = prepare_with_order_with_params(g, &order, &ParamsWithOrder::new(max)).map_err(|e| format!("order rejected: {}", e))?;
        return Ok((fg, format!("own order limit {}", max)));
    }
    // the limits that only affect the order do not matter
    let other = if n <= 45 { limit(&mut c.rng) } else { c.rng.below(30) };
    let p = Params::new(*c.rng.pick(&[0.0, 0.1, 1.0]), other, other, max);
    Ok((prepare_with_params(g, &p), show_params(&p)))
}

fn minimal_case(c: &mut Case, size: Size) -> Verdict {
    let mut spec = gen(&mut c.rng, size);
    if size == Size::Medium {
        let n = c.rng.range(60, 150);
        spec = gen_with(&mut c.rng, spec.family, spec.regime, n);
    }
    let m = spec.model();
    c.about = spec.show();
    let g = spec.input();
    let (fg, how) = unlimited(c, &g)?;
    c.about = format!("{} preparation {}", spec.show(), how);
    c.distinct(spec.hash());
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    no_needless(c, &m, &fg)
}

fn minimal_roads(c: &mut Case) -> Verdict {
    let n = c.rng.range(300, 700);
    let regime = *c.rng.pick(&["mid", "tiny", "few"]);
    let spec = gen_with(&mut c.rng, "roadlike", regime, n);
    let m = spec.model();
    c.about = spec.show();
    let g = spec.input();
    let order = get_node_ordering(&prepare(&g));
    let fg = prepare_with_order_with_params(&g, &order, &ParamsWithOrder::new(WMAX)).map_err(|e| format!("order rejected: {}", e))?;
    c.distinct(spec.hash());
    no_needless(c, &m, &fg)
}

/// When node v was contracted, the graph consisted of the nodes with at least its rank, with edges that were not
/// heavier than ... the ones below: input edges, and those final shortcuts whose middle node has a lower rank. (Edges
/// that were replaced by better ones later are missing here, so this never claims a path that did not exist.)
fn no_needless(c: &mut Case, m: &Model, fg: &FastGraph) -> Verdict {
    let h = match look_into(fg)? {
        Some(h) => h,
        None => {
            c.count("not_inspected", 1);
            return Ok(());
        }
    };
    let n = m.n;
    ensure!(h.ranks.len() == n, "{} ranks for {} nodes", h.ranks.len(), n);
    // (from, to, weight, rank of the middle node + 1)
    let mut arcs: Vec<Vec<(usize, usize, usize)>> = vec![vec![]; n];
    for (&(u, v), &w) in &m.edges {
        arcs[u].push((v, w, 0));
    }
    let mut shortcuts: Vec<(usize, usize, usize, usize)> = vec![];
    let mut bad = false;
    for (dir, list) in [(0, &h.fwd), (1, &h.bwd)] {
        for x in list.iter() {
            if x.rin == NONE {
                continue;
            }
            if x.rin >= h.bwd.len() || x.base >= n || x.adj >= n || h.bwd[x.rin].base >= n {
                bad = true;
                continue;
            }
            let mid = h.bwd[x.rin].base;
            let (from, to) = if dir == 0 { (x.base, x.adj) } else { (x.adj, x.base) };
            arcs[from].push((to, x.w, h.ranks[mid] + 1));
            shortcuts.push((from, to, x.w, mid));
        }
    }
    ensure!(!bad, "the stored graph is not well-formed");
    let mut seen = HashSet::new();
    for (from, to, w, mid) in shortcuts {
        if !seen.insert((from, to, mid)) {
            continue;
        }
        let rank = h.ranks[mid];
        c.evals(1);
        c.count("shortcuts", 1);
        // Dijkstra in the remaining graph without the middle node
        let mut dist: BTreeMap<usize, u128> = BTreeMap::new();
        let mut heap = BinaryHeap::new();
        dist.insert(from, 0);
        heap.push(Reverse((0u128, from)));
        while let Some(Reverse((d, u))) = heap.pop() {
            if dist[&u] != d {
                continue;
            }
            if u == to {
                return Err(format!(
                    "the shortcut {}>{}:{} bypasses node {} (rank {}), but there was another path with weight {}",
                    from, to, w, mid, rank, d
                ));
            }
            for &(v, x, since) in &arcs[u] {
                if v == mid || h.ranks[v] < rank || since > rank {
                    continue;
                }
                let nd = d + x as u128;
                if nd <= w as u128 && dist.get(&v).map_or(true, |y| nd < *y) {
                    dist.insert(v, nd);
                    heap.push(Reverse((nd, v)));
                }
            }
        }
    }
    Ok(())
}
