//! Graph generators: topology families x weight regimes x clutter (loops, duplicates, relabelling).
use crate::oracle::Model;
use crate::rng::Rng;
use fast_paths::*;

#[derive(Clone, Debug)]
pub struct Spec {
    pub family: &'static str,
    pub regime: &'static str,
    /// everything that is passed to add_edge, including what it has to skip
    pub edges: Vec<(usize, usize, usize)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large,
    /// more than 2^16 nodes
    Big,
}

const BIG_FAMILIES: &[&str] = &["roadlike", "line_bidir", "bintree", "ladder", "cycle", "line"];

fn family(rng: &mut Rng, sz: Size) -> &'static str {
    *rng.pick(if sz == Size::Big { BIG_FAMILIES } else { FAMILIES })
}

pub const FAMILIES: &[&str] = &[
    "gnm1", "gnm2", "gnm4", "dense", "line", "line_bidir", "cycle", "cycle_bidir", "star", "star_bidir", "complete",
    "grid", "grid_oneway", "tree_bidir", "dag", "bipartite", "wheel", "clusters", "components", "ladder",
    "preferential", "roadlike", "hubchains", "bintree", "lollipop", "gaps", "diamonds", "tree_out", "detours",
];

pub const REGIMES: &[&str] = &[
    "unit", "tiny", "small", "mid", "pow2", "near32", "near53", "wide", "two", "few", "decreasing",
];

pub fn weight(rng: &mut Rng, regime: &str, i: usize) -> usize {
    match regime {
        "unit" => 1,
        "tiny" => rng.range(1, 3),
        "small" => rng.range(1, 99),
        "mid" => rng.range(1, 1_000_000),
        "pow2" => 1 << rng.below(30),
        "near32" => (1usize << 32) - 5 + rng.below(10),
        "near53" => (1usize << 53) - 5 + rng.below(10),
        "wide" => {
            let b = rng.below(51);
            (1usize << b) + rng.below(1 << b)
        }
        "two" => *rng.pick(&[1, 1000]),
        "few" => *rng.pick(&[5, 5, 5, 10, 15]),
        "decreasing" => 1_000_000 / (i + 1) + 1,
        // close to the limits of the integer range
        "huge" => match rng.below(8) {
            0 => usize::MAX - rng.below(4),
            1 => usize::MAX / 2 + rng.below(3) - 1,
            2 => usize::MAX / 3 + rng.below(3),
            3 => usize::MAX / 4 + rng.below(1000),
            4 => (1usize << 63) + rng.below(3) - 1,
            5 => usize::MAX - rng.below(1 << 20),
            _ => rng.range(1, 9),
        },
        _ => unreachable!(),
    }
}

fn size(rng: &mut Rng, size: Size) -> usize {
    match size {
        Size::Tiny => rng.range(2, 8),
        Size::Small => rng.range(9, 40),
        // also the sizes at which blocks of bits are full
        Size::Medium => match rng.below(20) {
            0..=2 => *rng.pick(&[63, 64, 64, 65, 127, 128, 129, 255, 256, 256, 257]),
            3 => rng.range(41, 79),
            4 => rng.range(300, 520),
            _ => rng.range(80, 300),
        },
        Size::Large => match rng.below(8) {
            0 => *rng.pick(&[1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097]),
            1 => rng.range(520, 1500),
            _ => rng.range(1500, 4000),
        },
        Size::Big => rng.range(66_000, 69_000),
    }
}

/// directed node pairs of a topology with about n nodes, and whether it is sparse enough for any order
pub fn topology(rng: &mut Rng, family: &str, n: usize) -> Vec<(usize, usize)> {
    let mut e = vec![];
    fn both(e: &mut Vec<(usize, usize)>, u: usize, v: usize) {
        e.push((u, v));
        e.push((v, u));
    }
    match family {
        "gnm1" | "gnm2" | "gnm4" | "gaps" => {
            let deg = match family {
                "gnm1" => 1.2,
                "gnm4" if n <= 300 => 4.0,
                "gaps" => 0.6,
                _ => 2.2,
            };
            for _ in 0..((n as f64 * deg) as usize).max(1) {
                e.push((rng.below(n), rng.below(n)));
            }
        }
        "dense" => {
            let n = n.min(40);
            for u in 0..n {
                for v in 0..n {
                    if u != v && rng.chance(40) {
                        e.push((u, v));
                    }
                }
            }
        }
        "line" => (0..n - 1).for_each(|i| e.push((i, i + 1))),
        "line_bidir" => (0..n - 1).for_each(|i| both(&mut e, i, i + 1)),
        "cycle" => (0..n).for_each(|i| e.push((i, (i + 1) % n))),
        "cycle_bidir" => (0..n).for_each(|i| both(&mut e, i, (i + 1) % n)),
        "star" => {
            for i in 1..n {
                if rng.chance(50) {
                    e.push((0, i))
                } else {
                    e.push((i, 0))
                }
            }
        }
        "star_bidir" => (1..n).for_each(|i| both(&mut e, 0, i)),
        "complete" => {
            let n = n.min(28);
            for u in 0..n {
                for v in 0..n {
                    if u != v {
                        e.push((u, v));
                    }
                }
            }
        }
        "grid" | "grid_oneway" | "roadlike" => {
            let w = if n < 12 { 2 } else { rng.range(2, ((n as f64).sqrt() as usize).min(50)) };
            let h = (n / w).max(1);
            let edge = |e: &mut Vec<(usize, usize)>, rng: &mut Rng, u, v| match family {
                "grid" => both(e, u, v),
                "grid_oneway" => e.push(if rng.chance(50) { (u, v) } else { (v, u) }),
                _ => match rng.below(20) {
                    0 | 1 => {}
                    2 | 3 => e.push((u, v)),
                    4 => e.push((v, u)),
                    _ => both(e, u, v),
                },
            };
            for y in 0..h {
                for x in 0..w {
                    let u = y * w + x;
                    if x + 1 < w {
                        edge(&mut e, rng, u, u + 1);
                    }
                    if y + 1 < h {
                        edge(&mut e, rng, u, u + w);
                    }
                }
            }
        }
        "tree_bidir" => (1..n).for_each(|i| {
            let p = rng.below(i);
            both(&mut e, p, i)
        }),
        "tree_out" => (1..n).for_each(|i| {
            let p = rng.below(i);
            e.push((p, i))
        }),
        "bintree" => (1..n).for_each(|i| both(&mut e, (i - 1) / 2, i)),
        "dag" => {
            let width = rng.range(2, 5);
            for u in 0..n {
                let layer = u / width;
                for _ in 0..rng.range(1, 3) {
                    let v = (layer + 1) * width + rng.below(width);
                    if v < n {
                        e.push((u, v));
                    }
                }
            }
        }
        "bipartite" => {
            let n = n.min(60);
            let h = (n / 2).max(1);
            for u in 0..h {
                for _ in 0..3 {
                    if h < n {
                        e.push((u, rng.range(h, n - 1)));
                        e.push((rng.range(h, n - 1), u));
                    }
                }
            }
        }
        "wheel" => {
            let n = n.max(4);
            for i in 1..n {
                both(&mut e, i, if i + 1 < n { i + 1 } else { 1 });
                if rng.chance(60) {
                    e.push((0, i));
                }
                if rng.chance(60) {
                    e.push((i, 0));
                }
            }
        }
        "clusters" => {
            let h = (n / 2).max(1);
            for c in 0..2 {
                for _ in 0..h * 2 {
                    e.push((c * h + rng.below(h), c * h + rng.below(h)));
                }
            }
            if n >= 4 {
                e.push((rng.below(h), h + rng.below(h)));
                if rng.chance(50) {
                    e.push((h + rng.below(h), rng.below(h)));
                }
            }
        }
        "components" => {
            let k = rng.range(2, 4);
            let h = (n / k).max(2);
            for c in 0..k {
                for _ in 0..h * 2 {
                    e.push((c * h + rng.below(h), c * h + rng.below(h)));
                }
            }
        }
        "ladder" => {
            let h = (n / 2).max(1);
            for i in 0..h {
                both(&mut e, 2 * i, 2 * i + 1);
                if i + 1 < h {
                    both(&mut e, 2 * i, 2 * i + 2);
                    both(&mut e, 2 * i + 1, 2 * i + 3);
                }
            }
        }
        "preferential" => {
            let mut ends = vec![0usize];
            for i in 1..n {
                for _ in 0..2 {
                    let p = *rng.pick(&ends);
                    match rng.below(3) {
                        0 => e.push((p, i)),
                        1 => e.push((i, p)),
                        _ => both(&mut e, p, i),
                    }
                    ends.push(p);
                }
                ends.push(i);
            }
        }
        "hubchains" => {
            let k = rng.range(2, 6);
            for i in 1..n {
                let prev = if i <= k { 0 } else { i - k };
                both(&mut e, prev, i);
                if i + k >= n && rng.chance(50) {
                    e.push((i, 0));
                }
            }
        }
        "lollipop" => {
            let c = (n / 2).clamp(2, 15);
            for u in 0..c {
                for v in 0..c {
                    if u != v {
                        e.push((u, v));
                    }
                }
            }
            for i in c..n {
                both(&mut e, i - 1, i);
            }
        }
        "diamonds" => {
            // a chain of diamonds: exponentially many (often equally long) paths
            let mut i = 0;
            while i + 3 < n.max(4) {
                e.push((i, i + 1));
                e.push((i, i + 2));
                e.push((i + 1, i + 3));
                e.push((i + 2, i + 3));
                if rng.chance(30) {
                    e.push((i + 3, i));
                }
                i += 3;
            }
        }
        "detours" => {
            // a chain with a parallel direct edge for many sub-chains
            for i in 0..n - 1 {
                both(&mut e, i, i + 1);
            }
            for _ in 0..n / 2 {
                let a = rng.below(n);
                let b = (a + rng.range(2, 12)).min(n - 1);
                e.push(if rng.chance(50) { (a, b) } else { (b, a) });
            }
        }
        _ => unreachable!(),
    }
    e
}

pub fn gen_with(rng: &mut Rng, family: &'static str, regime: &'static str, n: usize) -> Spec {
    // contracting a hub is quadratic in its degree
    let n = match family {
        "star" | "star_bidir" | "wheel" | "preferential" => n.min(700),
        "gnm2" | "gnm4" => n.min(2200),
        "hubchains" if n < 5000 => n.min(3000),
        _ => n,
    };
    let pairs = topology(rng, family, n);
    let symmetric = rng.chance(40);
    let mut edges: Vec<(usize, usize, usize)> = Vec::with_capacity(pairs.len());
    let mut i = 0;
    while i < pairs.len() {
        let (u, v) = pairs[i];
        let w = weight(rng, regime, i);
        edges.push((u, v, w));
        if i + 1 < pairs.len() && pairs[i + 1] == (v, u) {
            let w2 = if symmetric { w } else { weight(rng, regime, i) };
            edges.push((v, u, w2));
            i += 1;
        }
        i += 1;
    }
    let max = edges.iter().map(|e| e.0.max(e.1)).max().unwrap_or(1);
    // detours: make the direct edges roughly as long as the chain they replace
    if family == "detours" && regime != "huge" {
        for e in edges.iter_mut() {
            let d = if e.0 > e.1 { e.0 - e.1 } else { e.1 - e.0 };
            if d > 1 {
                e.2 = e.2.saturating_mul(d).min(1 << 56);
            }
        }
    }
    // node ids without any meaning
    if rng.chance(60) {
        let span = if rng.chance(15) { max + 1 + rng.below(max + 2) } else { max + 1 };
        let p = rng.perm(span);
        for e in edges.iter_mut() {
            e.0 = p[e.0];
            e.1 = p[e.1];
        }
    }
    // things that have to be skipped
    let max = edges.iter().map(|e| e.0.max(e.1)).max().unwrap_or(1);
    if rng.chance(25) {
        for _ in 0..rng.range(1, 4) {
            let u = rng.below(max + 3);
            let x = weight(rng, regime, 0);
            edges.push((u, u, x));
        }
        for _ in 0..rng.range(1, 4) {
            edges.push((rng.below(max + 3), rng.below(max + 3), 0));
        }
    }
    if rng.chance(35) && !edges.is_empty() {
        for _ in 0..rng.range(1, 1 + edges.len() / 3) {
            let (u, v, _) = *rng.pick(&edges);
            let x = weight(rng, regime, 0);
            edges.push((u, v, x));
        }
    }
    if !edges.iter().any(|e| e.0 != e.1 && e.2 > 0) {
        edges.push((0, 1, 7));
    }
    if rng.chance(70) {
        rng.shuffle(&mut edges);
    }
    Spec { family, regime, edges }
}

pub fn gen(rng: &mut Rng, sz: Size) -> Spec {
    let family = family(rng, sz);
    let regime = *rng.pick(REGIMES);
    let n = size(rng, sz);
    gen_with(rng, family, regime, n)
}

pub fn gen_regime(rng: &mut Rng, sz: Size, regime: &'static str) -> Spec {
    let family = family(rng, sz);
    let n = size(rng, sz);
    gen_with(rng, family, regime, n)
}

impl Spec {
    pub fn model(&self) -> Model {
        Model::new(&self.edges)
    }
    pub fn input(&self) -> InputGraph {
        let mut g = InputGraph::new();
        for &(u, v, w) in &self.edges {
            g.add_edge(u, v, w);
        }
        g.freeze();
        g
    }
    pub fn hash(&self) -> u64 {
        let mut h = 1469598103934665603u64;
        for &(u, v, w) in &self.edges {
            for x in [u, v, w] {
                h = (h ^ x as u64).wrapping_mul(0x100000001b3).rotate_left(23);
            }
        }
        h
    }
    pub fn show(&self) -> String {
        let mut s = format!("family={} weights={} edges({})=[", self.family, self.regime, self.edges.len());
        for (i, (u, v, w)) in self.edges.iter().enumerate() {
            if i == 400 {
                s.push_str(" ...");
                break;
            }
            s.push_str(&format!("{}>{}:{} ", u, v, w));
        }
        s.push(']');
        s
    }
}

pub fn input_from_model(m: &Model) -> InputGraph {
    let mut g = InputGraph::new();
    for (&(u, v), &w) in &m.edges {
        g.add_edge(u, v, w);
    }
    g.freeze();
    g
}

pub fn limit(rng: &mut Rng) -> usize {
    match rng.below(12) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 5,
        5 => 10,
        6 => 50,
        7 => 100,
        8 => 500,
        9 => usize::MAX,
        10 => usize::MAX - 1,
        _ => rng.below(1000),
    }
}

pub fn factor(rng: &mut Rng) -> f32 {
    *rng.pick(&[
        0.0, 0.1, 0.1, 0.5, 1.0, 2.0, 10.0, 1e-6, 1e6, -0.1, -1.0, -1e9, 1e30, f32::MAX, f32::MIN, f32::MIN_POSITIVE,
        f32::INFINITY, f32::NEG_INFINITY, f32::NAN,
    ])
}

pub fn params(rng: &mut Rng) -> Params {
    let mut p = Params::new(factor(rng), limit(rng), limit(rng), limit(rng));
    if rng.chance(40) {
        p.edge_quotient_factor = factor(rng);
    }
    p
}

pub fn show_params(p: &Params) -> String {
    format!(
        "Params(depth={}, quotient={}, initial={}, neighbor={}, contraction={})",
        p.hierarchy_depth_factor,
        p.edge_quotient_factor,
        p.max_settled_nodes_initial_relevance,
        p.max_settled_nodes_neighbor_relevance,
        p.max_settled_nodes_contraction
    )
}

/// Prepares the graph in one of the possible ways. Wild orders only for small graphs.
pub fn prepare_any(rng: &mut Rng, g: &InputGraph) -> (FastGraph, String) {
    let n = g.get_num_nodes();
    let mut degree = vec![0; n];
    for e in g.get_edges() {
        degree[e.from] += 1;
        degree[e.to] += 1;
    }
    // the effort for hubs is cubic if the limits are high
    let hub = n > 40 && degree.iter().any(|d| *d > 50);
    match rng.below(10) {
        0..=4 => (prepare(g), "default".into()),
        5 | 6 => {
            let p = if n > 150 || hub {
                Params::new(*rng.pick(&[0.0, 0.1, 0.5, 1.0]), 100, *rng.pick(&[1, 2, 5, 10, 20]), *rng.pick(&[20, 100, 500]))
            } else {
                params(rng)
            };
            let s = show_params(&p);
            (prepare_with_params(g, &p), s)
        }
        7 | 8 if n <= 64 => {
            let order = rng.perm(n);
            let l = limit(rng);
            let f = prepare_with_order_with_params(g, &order, &ParamsWithOrder::new(l)).expect("order rejected");
            (f, format!("order={:?} limit={}", order, l))
        }
        _ => {
            // slightly disturbed heuristic order
            let mut order = get_node_ordering(&prepare(g));
            for _ in 0..rng.below(n.min(20) + 1) {
                let i = rng.below(n);
                let j = (i + 1 + rng.below(3)).min(n - 1);
                order.swap(i, j);
            }
            (prepare_with_order(g, &order).expect("order rejected"), "disturbed heuristic order".into())
        }
    }
}

/// Unfavourable orders and low limits for graphs with up to some hundred nodes: hubs are contracted while they have
/// many edges.
pub fn prepare_wild(rng: &mut Rng, g: &InputGraph) -> (FastGraph, String) {
    let n = g.get_num_nodes();
    let mut degree = vec![0; n];
    for e in g.get_edges() {
        degree[e.from] += 1;
        degree[e.to] += 1;
    }
    let mut order = rng.perm(n);
    match rng.below(5) {
        0 => {}
        1 => order.sort_by_key(|v| std::cmp::Reverse(degree[*v])),
        2 => order.sort_by_key(|v| degree[*v]),
        3 => {
            // some of the others, then the hub, then the rest
            let hub = (0..n).max_by_key(|v| degree[*v]).unwrap();
            let i = order.iter().position(|v| *v == hub).unwrap();
            let j = rng.below(n / 3 + 1);
            order.swap(i, j);
        }
        _ => {
            order = get_node_ordering(&prepare_with_params(g, &Params::new(0.1, 10, 2, 10)));
            for _ in 0..rng.range(1, 30) {
                let (i, j) = (rng.below(n), rng.below(n));
                order.swap(i, j);
            }
        }
    }
    let l = *rng.pick(&[0, 0, 1, 2, 3, 5, 10, 20]);
    let f = prepare_with_order_with_params(g, &order, &ParamsWithOrder::new(l)).expect("order rejected");
    (f, format!("order={:?} limit={}", order, l))
}

/// a graph with hubs
pub fn gen_hubs(rng: &mut Rng) -> Spec {
    let n = rng.range(80, 170);
    let regime = *rng.pick(REGIMES);
    let family = *rng.pick(&["star_bidir", "star", "preferential", "wheel", "clusters", "roadlike", "tree_bidir", "hubchains"]);
    let mut s = gen_with(rng, family, regime, n);
    // chains and loops of the leaves
    for _ in 0..rng.below(n) {
        let (u, v) = (rng.below(n), rng.below(n + 20));
        let w = weight(rng, regime, 1);
        s.edges.push(if rng.chance(50) { (u, v, w) } else { (v, u, w) });
    }
    s
}

pub fn repo() -> String {
    std::env::var("FP_REPO").unwrap_or_else(|_| "/repo".into())
}

pub const MAPS: &[&str] =
    &["bremen_dist.gr", "bremen_time.gr", "graph_23rd.gr", "graph_ballard.gr", "south_seattle_car.gr"];

/// our own reader of the map files, so that the reader of the library is not trusted
pub fn read_map(name: &str) -> Vec<(usize, usize, usize)> {
    let path = format!("{}/meta/test_maps/{}", repo(), name);
    let text = std::fs::read_to_string(&path).unwrap_or_else(|e| crate::run::harness_error(&format!("{}: {}", path, e)));
    let mut r = vec![];
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("a ") {
            let v: Vec<usize> = rest.split_whitespace().map(|x| x.parse().unwrap()).collect();
            r.push((v[0], v[1], v[2]));
        }
    }
    r
}
