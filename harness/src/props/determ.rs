//! C07: preparation is deterministic.
use crate::gen::*;
use crate::rng::*;
use crate::run::*;
use fast_paths::*;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 3000, 10_000_000, 4.0 * t, |c| variants(c, Size::Tiny, 4));
    ctx.run_cases("small", 1000, 10_000_000, 9.0 * t, |c| variants(c, Size::Small, 4));
    ctx.run_cases("medium", 60, 1_000_000, 9.0 * t, |c| variants(c, Size::Medium, 3));
    ctx.run_cases("large", 8, 1_000_000, 8.0 * t, |c| variants(c, Size::Large, 2));
    ctx.run_cases("maps", 5, 10_000, 8.0 * t, map);
    ctx.run_cases("processes", 8, if ctx.thorough { 80 } else { 16 }, 8.0 * t, processes);
    ctx.run_cases("big", 2, 2, 0.0, big);
}

pub fn bytes(fg: &FastGraph) -> Vec<u8> {
    bincode::serialize(fg).unwrap_or_else(|e| violate(&format!("a prepared graph could not be serialized: {}", e)))
}

/// the way the graph is prepared, fixed by numbers so that it can be repeated
#[derive(Clone, Debug)]
enum How {
    Default,
    Params(Params2),
    Order(Vec<usize>, usize),
}

#[derive(Clone, Debug)]
struct Params2(f32, f32, usize, usize, usize);

fn how(c: &mut Case, g: &InputGraph) -> How {
    let n = g.get_num_nodes();
    match c.rng.below(10) {
        0..=4 => How::Default,
        5..=7 => {
            if n <= 45 {
                let p = params(&mut c.rng);
                How::Params(Params2(
                    p.hierarchy_depth_factor,
                    p.edge_quotient_factor,
                    p.max_settled_nodes_initial_relevance,
                    p.max_settled_nodes_neighbor_relevance,
                    p.max_settled_nodes_contraction,
                ))
            } else {
                How::Params(Params2(*c.rng.pick(&[0.1, 0.0, 1.0]), 1.0, 100, c.rng.below(20), c.rng.range(10, 100)))
            }
        }
        _ if n <= 64 => {
            let o = c.rng.perm(n);
            How::Order(o, limit(&mut c.rng))
        }
        _ => How::Order(get_node_ordering(&prepare(g)), 100),
    }
}

fn prep(g: &InputGraph, how: &How) -> FastGraph {
    match how {
        How::Default => prepare(g),
        How::Params(p) => {
            let mut q = Params::new(p.0, p.2, p.3, p.4);
            q.edge_quotient_factor = p.1;
            prepare_with_params(g, &q)
        }
        How::Order(o, l) => prepare_with_order_with_params(g, o, &ParamsWithOrder::new(*l))
            .unwrap_or_else(|e| violate(&format!("order rejected: {}", e))),
    }
}

/// the same set of edges added in another way
fn disguised(rng: &mut Rng, spec: &Spec) -> InputGraph {
    // must not matter
    logging(rng.chance(25));
    let m = spec.model();
    let mut edges = m.edge_list();
    match rng.below(4) {
        0 => {}
        1 => edges.reverse(),
        _ => rng.shuffle(&mut edges),
    }
    let mut g = InputGraph::new();
    let freezing = rng.chance(50);
    let dups = rng.chance(60);
    for (i, &(u, v, w)) in edges.iter().enumerate() {
        if dups && rng.chance(15) {
            g.add_edge(u, v, w.saturating_add(rng.below(3)));
        }
        if dups && rng.chance(5) {
            g.add_edge(u, u, w);
            g.add_edge(m.n + 3, m.n + 3, w);
            g.add_edge(u, m.n + 3, 0);
        }
        if freezing && rng.chance(if edges.len() > 500 { 1 } else { 10 }) && i % 7 == 0 {
            g.freeze();
            g.thaw();
        }
        if rng.chance(10) && m.edges.get(&(v, u)) == Some(&w) {
            g.add_edge_bidir(u, v, w);
        } else {
            g.add_edge(u, v, w);
        }
        if dups && rng.chance(15) {
            g.add_edge(u, v, w.saturating_add(rng.below(1000)));
        }
    }
    g.freeze();
    if rng.chance(30) {
        g = g.clone();
    }
    g
}

fn compare(c: &mut Case, want: &[u8], got: &FastGraph, what: &str) -> Verdict {
    let b = bytes(got);
    c.evals(1);
    if b != want {
        let at = b.iter().zip(want).position(|(a, b)| a != b).unwrap_or(b.len().min(want.len()));
        return Err(format!(
            "prepared {}: {} bytes instead of {}, first difference at byte {}",
            what,
            b.len(),
            want.len(),
            at
        ));
    }
    Ok(())
}

fn variants(c: &mut Case, size: Size, repeats: usize) -> Verdict {
    let spec = gen(&mut c.rng, size);
    c.about = spec.show();
    all_variants(c, &spec, repeats)
}

fn all_variants(c: &mut Case, spec: &Spec, repeats: usize) -> Verdict {
    let g = spec.input();
    let how = how(c, &g);
    let shown: String = format!("{:?}", how).chars().take(300).collect();
    c.about = format!("{} preparation {}", c.about, shown);
    let want = bytes(&prep(&g, &how));
    c.distinct(hash_bytes(&want));
    c.max("bytes_of_a_graph", want.len() as u64);
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    for i in 0..repeats {
        compare(c, &want, &prep(&g, &how), "again")?;
        let mut rng = c.rng.clone();
        c.rng.next();
        let d = disguised(&mut rng, spec);
        compare(c, &want, &prep(&d, &how), "from the same edges that were added differently")?;
        c.count("repeated", 2);
        if i == 0 {
            let (spec, how) = (&spec, &how);
            // another thread, with other thread local state
            let r = std::thread::scope(|s| s.spawn(|| Share(catch(|| prep(&spec.input(), how)))).join().map(|r| r.0));
            match r {
                Ok(Ok(fg)) => compare(c, &want, &fg, "in another thread")?,
                Ok(Err(p)) => return Err(format!("panic in another thread only: {}", p.show())),
                Err(_) => harness_error("thread"),
            }
            c.count("other_threads", 1);
        }
    }
    Ok(())
}

fn map(c: &mut Case) -> Verdict {
    let (spec, _) = super::query::map_input(c);
    c.about = format!("map {} weights {}", spec.family, spec.regime);
    all_variants(c, &spec, 1)
}

fn big(c: &mut Case) -> Verdict {
    let n = 66_500 + c.rng.below(3000);
    let family = ["roadlike", "bintree"][c.idx as usize % 2];
    let spec = gen_with(&mut c.rng, family, "small", n);
    c.about = format!("{} {} nodes", family, n);
    all_variants(c, &spec, 1)
}

fn one_for_process(seed: u64, idx: u64, i: u64) -> u64 {
    let mut rng = Rng::new(seed, "process graphs", idx * 1000 + i);
    let size = *rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]);
    let mut spec = gen(&mut rng, size);
    if i == 0 {
        spec = Spec { family: "map", regime: "original", edges: read_map("graph_23rd.gr") };
    }
    let g = spec.input();
    let order = rng.perm(g.get_num_nodes());
    let fg = match rng.below(3) {
        0 if g.get_num_nodes() <= 64 => {
            prepare_with_order(&g, &order).unwrap_or_else(|e| violate(&format!("order rejected: {}", e)))
        }
        1 => prepare_with_params(&g, &Params::new(0.1, 100, 3, 50)),
        _ => prepare(&g),
    };
    hash_bytes(&bytes(&fg))
}

const PER_PROCESS: u64 = 40;

pub fn child(args: &[String]) {
    let seed: u64 = args[0].parse().unwrap();
    let idx: u64 = args[1].parse().unwrap();
    for i in 0..PER_PROCESS {
        println!("{}", one_for_process(seed, idx, i));
    }
}

fn processes(c: &mut Case) -> Verdict {
    let exe = std::env::current_exe().unwrap_or_else(|e| harness_error(&format!("{}", e)));
    let seed = c.ctx.seed;
    let out = std::process::Command::new(exe)
        .args(["child", "determ", &seed.to_string(), &c.idx.to_string()])
        // another environment
        .env("FP_IRRELEVANT", "x".repeat(100 + 50 * c.idx as usize))
        .output()
        .unwrap_or_else(|e| harness_error(&format!("{}", e)));
    let there: Vec<u64> = String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.parse().ok()).collect();
    for i in 0..PER_PROCESS {
        let here = one_for_process(seed, c.idx, i);
        c.evals(1);
        match there.get(i as usize) {
            None => return Err(format!("another process failed to prepare graph {} ({:?})", i, out.status)),
            Some(h) => ensure!(*h == here, "graph {} of stream {} differs if another process prepares it", i, c.idx),
        }
    }
    c.distinct(c.idx);
    c.count("graphs_prepared_in_another_process", PER_PROCESS);
    Ok(())
}
