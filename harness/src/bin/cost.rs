//! C22, C23 and C25: a program whose instructions are counted from outside (by valgrind). It has one job per run and does
//! as little as possible besides that job; the caller takes differences between runs.
//!
//!   cost make FAMILY SIZE SEED FILE             writes a network (native)
//!   cost prep FILE PARAMS OUT                   prepares it, stores the prepared graph, prints the edge counts
//!   cost load FILE PARAMS                       the same without preparing (the base of prep)
//!   cost query GRAPH FILE SEED K                K random queries with one calculator
//!   cost dijkstra FILE SEED K                   the same queries by plain Dijkstra
//!   cost scale JOB SIZE SEED R FILE             something of that size R times, after the same preparations
//! PARAMS: default | ratio,initial,neighbor,contraction | order:GRAPH,limit | hub:SIZE,limit | identity:SIZE
use fast_paths::*;
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::io::Write;

#[allow(dead_code)]
#[path = "../rng.rs"]
mod rng;
use rng::Rng;

type Edges = Vec<(usize, usize, usize)>;

fn die(m: &str) -> ! {
    eprintln!("HARNESS-ERROR {}", m);
    std::process::exit(2)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| -> usize { a[i].parse().unwrap_or_else(|_| die("number expected")) };
    match a.get(1).map(|s| s.as_str()) {
        Some("make") => {
            let (family, size, seed) = (a[2].as_str(), num(3), num(4) as u64);
            let e = make(family, size, seed);
            write_edges(&a[5], &e);
            println!("nodes {} edges {}", 1 + e.iter().map(|x| x.0.max(x.1)).max().unwrap(), e.len());
        }
        Some("prep") | Some("load") => {
            let e = read_edges(&a[2]);
            let mut g = InputGraph::new();
            for &(u, v, w) in &e {
                g.add_edge(u, v, w);
            }
            g.freeze();
            let (order, params) = params(&a[3]);
            if a[1] == "load" {
                println!("loaded {}", g.get_num_edges());
                return;
            }
            let f = match (order, params) {
                (Some(o), P::Order(p)) => prepare_with_order_with_params(&g, &o, &p).unwrap(),
                (_, P::Free(p)) => prepare_with_params(&g, &p),
                (_, P::Default) => prepare(&g),
                _ => die("params"),
            };
            println!("nodes {} input {} out {} in {}", g.get_num_nodes(), g.get_num_edges(), f.get_num_out_edges(), f.get_num_in_edges());
            if let Some(out) = a.get(4) {
                std::fs::write(out, bincode::serialize(&f).unwrap()).unwrap();
            }
        }
        Some("query") => {
            let f: FastGraph = bincode::deserialize(&std::fs::read(&a[2]).unwrap()).unwrap();
            let (seed, k, limit) = (num(3) as u64, num(4), num(5));
            let mut c = create_calculator(&f);
            let (mut sum, mut found) = (0u64, 0);
            for (s, t) in pairs(seed, k, limit.min(f.get_num_nodes())) {
                if let Some(p) = c.calc_path(&f, s, t) {
                    sum = sum.wrapping_mul(31).wrapping_add(p.get_weight() as u64);
                    found += 1;
                }
            }
            println!("queries {} found {} sum {}", k, found, sum);
        }
        Some("dijkstra") => {
            let e = read_edges(&a[2]);
            let (seed, k, limit) = (num(3) as u64, num(4), num(5));
            let d = Plain::new(&e);
            let (mut sum, mut found) = (0u64, 0);
            let mut s = Search::new(d.first.len() - 1);
            for (u, v) in pairs(seed, k, limit.min(d.first.len() - 1)) {
                if let Some(w) = d.run(&mut s, u, v) {
                    sum = sum.wrapping_mul(31).wrapping_add(w as u64);
                    found += 1;
                }
            }
            println!("queries {} found {} sum {}", k, found, sum);
        }
        Some("scale") => {
            let sum = scale(&a[2], num(3), num(4) as u64, num(5), &a[6]);
            println!("queries {} sum {}", num(5), sum);
        }
        _ => die("unknown job"),
    }
}

// ------------------------------------------------------------------ C25

struct Narrow(FastGraph);
impl serde::Serialize for Narrow {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serialize_32(&self.0, s)
    }
}
impl<'de> serde::Deserialize<'de> for Narrow {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        deserialize_32(d).map(Narrow)
    }
}

fn input(e: &Edges) -> InputGraph {
    let mut g = InputGraph::new();
    for &(u, v, w) in e {
        g.add_edge(u, v, w);
    }
    g
}

fn frozen(e: &Edges) -> InputGraph {
    let mut g = input(e);
    g.freeze();
    g
}

fn line(n: usize) -> InputGraph {
    frozen(&make("line", n, 1))
}

/// orders of the line: by themselves they make no shortcuts that are not needed
fn line_order(kind: &str, n: usize, rng: &mut Rng) -> Vec<usize> {
    match kind {
        "identity" => (0..n).collect(),
        "reverse" => (0..n).rev().collect(),
        // a single shortcut in the end, which is nested as deep as the line is long
        "inner" => (1..n - 1).chain([0, n - 1]).collect(),
        "random" => rng.perm(n),
        // every second of those that are left
        _ => {
            let mut o: Vec<usize> = (0..n).collect();
            o.sort_by_key(|i| (i + 1).trailing_zeros());
            o
        }
    }
}

fn line_graph(kind: &str, n: usize, rng: &mut Rng) -> FastGraph {
    prepare_with_order(&line(n), &line_order(kind, n, rng)).unwrap()
}

fn scale(job: &str, n: usize, seed: u64, r: usize, file: &str) -> usize {
    let mut rng = Rng::new(seed, job, n as u64);
    let rng = &mut rng;
    let (what, kind) = job.split_once(':').unwrap_or((job, ""));
    let mut sum = 0usize;
    let mut random = |m: usize, nodes: usize| -> Edges { (0..m).map(|_| (rng.below(nodes), rng.below(nodes), 1 + rng.below(1000))).collect() };
    let store = |e: &Edges| frozen(e);
    match what {
        "build" => {
            let e: Edges = match kind {
                "random" => random(n, n / 3),
                "sorted" | "reversed" | "pipe" | "pairs" => {
                    let mut e = random(n, n / 3);
                    e.sort();
                    match kind {
                        "reversed" => e.reverse(),
                        "pipe" => e = e.iter().step_by(2).chain(e.iter().skip(1).step_by(2).rev()).cloned().collect(),
                        "pairs" => e = e.chunks(2).flat_map(|c| c.iter().rev()).cloned().collect(),
                        _ => {}
                    }
                    e
                }
                "few" => random(n, 20),
                "same" => (0..n).map(|i| (3, 4, 1 + i * 7919 % n)).collect(),
                "equal" => vec![(3, 4, 5); n],
                "decreasing" => (0..n).map(|i| (3, 4, n - i)).collect(),
                "star" => (0..n).map(|i| (0, 1 + i * 7919 % n, 3)).collect(),
                "skipped" => (0..n).map(|i| (i, i + i % 2, 0)).chain([(1, 2, 3)]).collect(),
                _ => die("build"),
            };
            for _ in 0..r {
                sum += frozen(&e).get_num_edges();
            }
        }
        "both" => {
            let e = random(n / 2, n / 3);
            for _ in 0..r {
                let mut g = InputGraph::new();
                for &(u, v, w) in &e {
                    g.add_edge_bidir(u, v, w);
                }
                g.freeze();
                sum += g.get_num_edges();
            }
        }
        "thaw" => {
            let mut g = store(&random(n, n / 3));
            for _ in 0..r {
                g.thaw();
                g.add_edge(1, 2, 5000);
                g.freeze();
                sum += g.get_num_edges();
            }
        }
        "read" => {
            let g = store(&random(n, n / 3));
            for _ in 0..r {
                for e in g.get_edges() {
                    sum += e.from + g.get_num_nodes() + g.get_num_edges();
                }
            }
        }
        "text" => {
            let g = store(&random(n, n / 3));
            for _ in 0..r {
                sum += g.unit_test_output_string().len();
            }
        }
        "file" | "dimacs" => {
            let g = store(&random(n, n / 3));
            for _ in 0..r {
                if what == "file" {
                    g.to_file(file).unwrap();
                    sum += InputGraph::from_file(file).get_num_edges();
                } else {
                    g.to_dimacs_file(file).unwrap();
                    sum += InputGraph::from_dimacs_file(file).get_num_edges();
                }
            }
        }
        "comments" => {
            let mut text = String::from("c x\np sp 3 1\na 1 2 3\n");
            for i in 0..n {
                text.push_str(if i % 2 == 0 { "c some comment\n" } else { "\n" });
            }
            std::fs::write(file, text).unwrap();
            for _ in 0..r {
                sum += InputGraph::from_file(file).get_num_edges() + InputGraph::from_dimacs_file(file).get_num_edges();
            }
        }
        "bincode" | "narrow" | "convert" | "clone" | "order" | "calculator" | "input_bincode" => {
            let f = line_graph(if kind == "" { "halves" } else { kind }, n, rng);
            let f = Narrow(f);
            let g = line(n);
            for _ in 0..r {
                sum += match what {
                    "bincode" => bincode::deserialize::<FastGraph>(&bincode::serialize(&f.0).unwrap()).unwrap().get_num_out_edges(),
                    "narrow" => bincode::deserialize::<Narrow>(&bincode::serialize(&f).unwrap()).unwrap().0.get_num_out_edges(),
                    "convert" => FastGraph32::new(&f.0).convert_to_usize().get_num_out_edges(),
                    "clone" => f.0.clone().get_num_out_edges(),
                    "order" => get_node_ordering(&f.0)[n / 2],
                    "calculator" => {
                        create_calculator(&f.0);
                        1
                    }
                    _ => bincode::deserialize::<InputGraph>(&bincode::serialize(&g).unwrap()).unwrap().get_num_edges(),
                };
            }
        }
        // along the whole line
        "path" => {
            let f = line_graph(kind, n, rng);
            let mut c = create_calculator(&f);
            for i in 0..r {
                let (s, t) = if i % 2 == 0 { (0, n - 1) } else { (n - 1, 0) };
                let p = c.calc_path(&f, s, t).unwrap();
                assert_eq!(p.get_nodes().len(), n);
                sum += p.get_weight();
            }
        }
        // the same without a calculator
        "once" => {
            let f = line_graph(kind, n, rng);
            for _ in 0..r {
                sum += calc_path(&f, n / 2, n - 1).unwrap().get_nodes().len();
            }
        }
        // one start and many ends, or the other way round
        "list" => {
            let f = line_graph("halves", 2000, rng);
            let mut c = create_calculator(&f);
            let l: Vec<(usize, usize)> = (0..n).map(|_| (rng.below(2000), rng.below(500))).collect();
            for i in 0..r {
                let (a, b) = if (kind == "ends") == (i % 2 == 0) { (vec![(7, 0)], l.clone()) } else { (l.clone(), vec![(7, 0)]) };
                sum += c.calc_path_multiple_sources_and_targets(&f, a, b).unwrap().get_weight();
            }
        }
        // a path that starts in the middle of many edges
        "star_path" => {
            let mut e: Edges = (1..n).flat_map(|i| [(0, i, i), (i, 0, n - i)]).collect();
            e.push((1, n, 4));
            let f = prepare_with_order_with_params(&frozen(&e), &(1..n + 1).chain([0]).collect::<Vec<_>>(), &ParamsWithOrder::new(1)).unwrap();
            let mut c = create_calculator(&f);
            for i in 0..r {
                for (s, t) in [(0, 1 + i % 100), (1 + i % 100, 0), (2, 3)] {
                    sum += c.calc_path(&f, s, t).unwrap().get_weight();
                }
            }
        }
        "prepare_line" => {
            let g = line(n);
            let order = line_order(kind, n, rng);
            for _ in 0..r {
                sum += prepare_with_order(&g, &order).unwrap().get_num_out_edges();
            }
        }
        "prepare" => {
            let e: Edges = match kind {
                "line" => make("line", n, 1),
                "isolated" => vec![(0, n - 1, 3)],
                "pairs" => (0..n / 2).map(|i| (2 * i, 2 * i + 1, 1 + i % 9)).collect(),
                "tree" => (1..n).flat_map(|i| [(i, i / 2, 1 + i % 5), (i / 2, i, 1 + i % 7)]).collect(),
                "oneway" => (1..n).map(|i| (i - 1, i, 1 + i % 7)).collect(),
                _ => die("prepare"),
            };
            let g = frozen(&e);
            for _ in 0..r {
                sum += prepare(&g).get_num_out_edges();
            }
        }
        _ => die("unknown job"),
    }
    sum
}

enum P {
    Default,
    Free(Params),
    Order(ParamsWithOrder),
}

fn params(s: &str) -> (Option<Vec<usize>>, P) {
    if s == "default" {
        return (None, P::Default);
    }
    if let Some(r) = s.strip_prefix("order:") {
        let (file, limit) = r.split_once(',').unwrap_or_else(|| die("order"));
        let f: FastGraph = bincode::deserialize(&std::fs::read(file).unwrap()).unwrap();
        return (Some(f.get_node_ordering()), P::Order(ParamsWithOrder::new(limit.parse().unwrap())));
    }
    if let Some(r) = s.strip_prefix("hub:") {
        // the hub first, then the nodes without exits, then the line from its end
        let (size, limit) = r.split_once(',').unwrap_or_else(|| die("order"));
        let size: usize = size.parse().unwrap();
        let mut o: Vec<usize> = (size..size + 21).collect();
        o.extend((0..size).rev());
        return (Some(o), P::Order(ParamsWithOrder::new(limit.parse().unwrap())));
    }
    if let Some(r) = s.strip_prefix("identity:") {
        let size: usize = r.parse().unwrap();
        return (Some((0..size).collect()), P::Order(ParamsWithOrder::new(100)));
    }
    let v: Vec<&str> = s.split(',').collect();
    let n = |i: usize| v[i].parse::<usize>().unwrap();
    (None, P::Free(Params::new(v[0].parse().unwrap(), n(1), n(2), n(3))))
}

fn write_edges(file: &str, e: &Edges) {
    let mut b = Vec::with_capacity(e.len() * 24);
    for &(u, v, w) in e {
        for x in [u, v, w] {
            b.extend_from_slice(&(x as u64).to_le_bytes());
        }
    }
    std::fs::File::create(file).and_then(|mut f| f.write_all(&b)).unwrap_or_else(|e| die(&e.to_string()));
}

fn read_edges(file: &str) -> Edges {
    let b = std::fs::read(file).unwrap_or_else(|e| die(&e.to_string()));
    let x = |i: usize| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap()) as usize;
    (0..b.len() / 24).map(|i| (x(3 * i), x(3 * i + 1), x(3 * i + 2))).collect()
}

fn pairs(seed: u64, k: usize, n: usize) -> impl Iterator<Item = (usize, usize)> {
    let mut rng = Rng::new(seed, "pairs", 0);
    (0..k).map(move |_| (rng.below(n), rng.below(n)))
}

// ------------------------------------------------------------------ plain Dijkstra

struct Plain {
    first: Vec<usize>,
    adj: Vec<(usize, usize)>,
}

struct Search {
    dist: Vec<usize>,
    stamp: Vec<u32>,
    now: u32,
    heap: BinaryHeap<Reverse<(usize, usize)>>,
}

impl Search {
    fn new(n: usize) -> Self {
        Search { dist: vec![0; n], stamp: vec![0; n], now: 0, heap: BinaryHeap::new() }
    }
}

impl Plain {
    fn new(e: &Edges) -> Self {
        let n = 1 + e.iter().map(|x| x.0.max(x.1)).max().unwrap();
        let mut first = vec![0; n + 1];
        for x in e {
            first[x.0 + 1] += 1;
        }
        for i in 0..n {
            first[i + 1] += first[i];
        }
        let mut at = first.clone();
        let mut adj = vec![(0, 0); e.len()];
        for x in e {
            adj[at[x.0]] = (x.1, x.2);
            at[x.0] += 1;
        }
        Plain { first, adj }
    }
    fn run(&self, s: &mut Search, u: usize, v: usize) -> Option<usize> {
        s.now += 1;
        s.heap.clear();
        s.dist[u] = 0;
        s.stamp[u] = s.now;
        s.heap.push(Reverse((0, u)));
        while let Some(Reverse((d, x))) = s.heap.pop() {
            if d > s.dist[x] {
                continue;
            }
            if x == v {
                return Some(d);
            }
            for &(y, w) in &self.adj[self.first[x]..self.first[x + 1]] {
                if s.stamp[y] != s.now || d + w < s.dist[y] {
                    s.stamp[y] = s.now;
                    s.dist[y] = d + w;
                    s.heap.push(Reverse((d + w, y)));
                }
            }
        }
        None
    }
}

// ------------------------------------------------------------------ networks

fn make(family: &str, size: usize, seed: u64) -> Edges {
    let mut rng = Rng::new(seed, family, size as u64);
    if let Some(r) = family.strip_prefix("pad:") {
        // another network and, apart from it, a number of nodes that its queries never visit
        let mut e = make(r, 30, seed);
        let n = 1 + e.iter().map(|x| x.0.max(x.1)).max().unwrap();
        for i in 0..size - 1 {
            e.push((n + i, n + i + 1, 1 + rng.below(100)));
            e.push((n + i + 1, n + i, 1 + rng.below(100)));
        }
        return e;
    }
    if let Some(r) = family.strip_prefix("copies:") {
        // a number of equal networks side by side
        let one = make(r, 30, seed);
        let n = 1 + one.iter().map(|x| x.0.max(x.1)).max().unwrap();
        return (0..size).flat_map(|i| one.iter().map(move |&(u, v, w)| (i * n + u, i * n + v, w))).collect();
    }
    match family {
        // streets with slow and fast rows and columns, some missing, some one-way
        "roads" | "even" => {
            let k = size;
            let at = |x: usize, y: usize| x * k + y;
            let mut e = vec![];
            for x in 0..k {
                for y in 0..k {
                    for (x2, y2, line) in [(x + 1, y, y), (x, y + 1, x)] {
                        if x2 >= k || y2 >= k {
                            continue;
                        }
                        let fast = if family == "even" { 1 } else if line % 32 == 16 { 6 } else if line % 8 == 4 { 3 } else { 1 };
                        if fast == 1 && rng.chance(12) {
                            continue;
                        }
                        let w = (300 + rng.below(600)) / fast;
                        let turned = rng.chance(50);
                        let (a, b) = if turned { (at(x2, y2), at(x, y)) } else { (at(x, y), at(x2, y2)) };
                        e.push((a, b, w));
                        if !rng.chance(10) {
                            e.push((b, a, w));
                        }
                    }
                }
            }
            e
        }
        // with the identical order every search could go on to the end of the line
        "line" => (0..size - 1).flat_map(|i| [(i, i + 1, 1 + i % 7), (i + 1, i, 1 + i % 5)]).collect(),
        // a long line, many places of which lead to one node, and that to nodes without exits: no search of a
        // witness for these can succeed, and none is stopped by the weight
        "hub" => {
            let (d, k) = (100, 20);
            let mut e = vec![];
            for i in 0..size - 1 {
                e.push((i, i + 1, 1));
                e.push((i + 1, i, 1));
            }
            for i in 0..d {
                e.push((i * (size / d), size, 100_000 + rng.below(1_000_000)));
            }
            for j in 0..k {
                e.push((size, size + 1 + j, 1 + rng.below(1_000_000)));
            }
            // any order of adding them
            rng.shuffle(&mut e);
            e
        }
        map => {
            let path = format!("{}/meta/test_maps/{}", std::env::var("FP_REPO").unwrap_or_else(|_| "/repo".into()), map);
            let text = std::fs::read_to_string(&path).unwrap_or_else(|e| die(&format!("{}: {}", path, e)));
            text.lines()
                .filter_map(|l| l.strip_prefix("a "))
                .map(|l| {
                    let v: Vec<usize> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
                    (v[0], v[1], v[2])
                })
                .collect()
        }
    }
}
