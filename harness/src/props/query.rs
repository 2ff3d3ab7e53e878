//! C01 (exact distances) and C02 (real paths): queries against an independent Dijkstra in u128.
use crate::check::*;
use crate::gen::*;
use crate::oracle::Model;
use crate::run::*;
use fast_paths::*;

pub fn run(ctx: &Ctx, what: What) {
    let t = if ctx.thorough { 10.0 } else { 1.0 };
    // every digraph with three nodes and weights 1..3, in every order
    ctx.run_cases("exhaustive3", 4096, 4096, 0.0, |c| exhaustive3(c, what));
    ctx.run_cases("tiny", 10_000, 10_000_000, 3.0 * t, |c| random(c, what, Size::Tiny, 100));
    ctx.run_cases("small", 3000, 10_000_000, 5.0 * t, |c| random(c, what, Size::Small, 2000));
    ctx.run_cases("medium", 200, 1_000_000, 7.0 * t, |c| random(c, what, Size::Medium, 20_000));
    ctx.run_cases("hubs", 60, 1_000_000, 4.0 * t, |c| hubs(c, what));
    ctx.run_cases("large", 16, 100_000, 5.0 * t, |c| random(c, what, Size::Large, 40_000));
    ctx.run_cases("maps", 10, 10_000, 8.0 * t, |c| map(c, what));
    ctx.run_cases("big", 9, if ctx.thorough { 90 } else { 9 }, 8.0 * t, |c| big(c, what));
}

fn exhaustive3(c: &mut Case, what: What) -> Verdict {
    let mut edges = vec![];
    let mut x = c.idx;
    for u in 0..3 {
        for v in 0..3 {
            if u != v {
                if x % 4 > 0 {
                    edges.push((u, v, (x % 4) as usize));
                }
                x /= 4;
            }
        }
    }
    if edges.is_empty() {
        return Ok(());
    }
    let spec = Spec { family: "exhaustive3", regime: "tiny", edges };
    let m = spec.model();
    let g = spec.input();
    c.distinct(spec.hash());
    let mut calc = PathCalculator3::new(m.n);
    let orders: Vec<Vec<usize>> = if m.n == 3 {
        vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]]
    } else {
        vec![vec![0, 1], vec![1, 0]]
    };
    for o in &orders {
        c.about = format!("{} order {:?}", spec.show(), o);
        let fg = prepare_with_order(&g, o).map_err(|e| format!("order rejected: {}", e))?;
        check_queries(c, &m, &fg, calc.get(&fg), what, 100)?;
    }
    c.about = spec.show();
    let fg = prepare(&g);
    check_queries(c, &m, &fg, calc.get(&fg), what, 100)?;
    observe_graph(c, &m, &fg);
    Ok(())
}

/// creates the calculator when it is first needed
struct PathCalculator3(Option<PathCalculator>);
impl PathCalculator3 {
    fn new(_n: usize) -> Self {
        PathCalculator3(None)
    }
    fn get(&mut self, fg: &FastGraph) -> &mut PathCalculator {
        self.0.get_or_insert_with(|| create_calculator(fg))
    }
}

fn random(c: &mut Case, what: What, size: Size, budget: usize) -> Verdict {
    let spec = gen(&mut c.rng, size);
    let m = spec.model();
    c.about = spec.show();
    let g = spec.input();
    let (fg, how) = prepare_any(&mut c.rng, &g);
    c.about = format!("{} preparation: {}", spec.show(), how);
    if m.edges.len() > 1 {
        c.distinct(spec.hash());
    }
    if c.idx < 2 {
        c.sample(format!("{}", c.about.chars().take(400).collect::<String>()));
    }
    c.count(&format!("family_{}", spec.family), 1);
    c.count(&format!("weights_{}", spec.regime), 1);
    let mut calc = create_calculator(&fg);
    check_queries(c, &m, &fg, &mut calc, what, budget)?;
    observe_graph(c, &m, &fg);
    Ok(())
}

/// graphs with hubs and unfavourable orders: many edges at a node when it is contracted
fn hubs(c: &mut Case, what: What) -> Verdict {
    let spec = gen_hubs(&mut c.rng);
    let m = spec.model();
    c.about = spec.show();
    let g = spec.input();
    let (fg, how) = prepare_wild(&mut c.rng, &g);
    c.about = format!("{} preparation: {}", spec.show(), how);
    c.distinct(spec.hash());
    let mut calc = create_calculator(&fg);
    check_queries(c, &m, &fg, &mut calc, what, 8000)?;
    observe_graph(c, &m, &fg);
    Ok(())
}

pub fn map_input(c: &mut Case) -> (Spec, Model) {
    let name = MAPS[(c.idx as usize) % MAPS.len()];
    let mut edges = read_map(name);
    let round = c.idx as usize / MAPS.len();
    let regime = if round == 0 { "original" } else { *c.rng.pick(&["original", "unit", "tiny", "wide", "mid"]) };
    if regime != "original" {
        for i in 0..edges.len() {
            edges[i].2 = weight(&mut c.rng, regime, i);
        }
    }
    let spec = Spec { family: name, regime, edges };
    let m = spec.model();
    (spec, m)
}

fn map(c: &mut Case, what: What) -> Verdict {
    let (spec, m) = map_input(c);
    c.about = format!("map {} weights {}", spec.family, spec.regime);
    let g = spec.input();
    let fg = if c.idx % 2 == 0 {
        prepare(&g)
    } else {
        // the parameters that are recommended for road networks
        prepare_with_params(&g, &Params::new(0.1, 500, 2, 50))
    };
    c.distinct(spec.hash());
    c.count(&format!("map_{}", spec.family), 1);
    let mut calc = create_calculator(&fg);
    check_queries(c, &m, &fg, &mut calc, what, 2 * m.n)?;
    observe_graph(c, &m, &fg);
    Ok(())
}

/// more than 2^16 nodes (and edges, and shortcuts)
fn big(c: &mut Case, what: What) -> Verdict {
    let n = 66_000 + c.rng.below(10_000);
    let family = ["grid", "line_bidir", "roadlike", "ladder", "cycle", "bintree", "gaps", "detours", "hubchains"]
        [c.idx as usize % 9];
    let n = match family {
        "gaps" => 2 * n,
        "hubchains" => n / 3,
        _ => n,
    };
    let regime = *c.rng.pick(&["mid", "small", "near32", "wide", "unit"]);
    let spec = gen_with(&mut c.rng, family, regime, n);
    let m = spec.model();
    c.about = format!("{} weights {} nodes {}", family, regime, m.n);
    let g = spec.input();
    let fg = prepare(&g);
    c.distinct(spec.hash());
    c.count(&format!("big_{}", family), 1);
    let mut calc = create_calculator(&fg);
    for _ in 0..3 {
        check_queries(c, &m, &fg, &mut calc, what, 2500)?;
    }
    observe_graph(c, &m, &fg);
    Ok(())
}
