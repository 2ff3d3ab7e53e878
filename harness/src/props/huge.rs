//! C18: weights close to the limits of the integer range. Runs with and without overflow checks.
use crate::check::*;
use crate::gen::*;
use crate::oracle::Model;
use crate::run::*;
use fast_paths::*;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 4000, 10_000_000, 6.0 * t, |c| huge(c, Size::Tiny, 100, 30));
    ctx.run_cases("small", 1000, 10_000_000, 7.0 * t, |c| huge(c, Size::Small, 1600, 60));
    ctx.run_cases("medium", 50, 10_000_000, 6.0 * t, |c| huge(c, Size::Medium, 6000, 100));
    ctx.run_cases("large", 8, 10_000_000, 4.0 * t, |c| huge(c, Size::Large, 12_000, 60));
    ctx.run_cases("maps", 5, 1000, 4.0 * t, map);
    let k = if ctx.thorough { 32 } else { 4 };
    ctx.run_cases("big", k, k, 0.0, |c| huge(c, Size::Big, 2500, 20));
    // overflow checks for all other weights, too
    ctx.run_cases("plain", 500, 10_000_000, 5.0 * t, plain);
}

const KINDS: &[&str] = &["huge", "balanced", "signed", "top", "mixed", "power", "chain"];

fn huge_weight(rng: &mut crate::rng::Rng, kind: &str, i: usize, k: usize) -> usize {
    match kind {
        "huge" => weight(rng, "huge", i),
        // about k edges reach the maximum
        "balanced" => (WMAX / k - 2).saturating_add(rng.below(5)).max(1),
        "signed" => {
            let b = *rng.pick(&[(1usize << 63) - 2, (1 << 62) - 2, (1 << 63) - (1 << 62), 1, 1 << 33]);
            b + rng.below(5)
        }
        "top" => WMAX - rng.below(3 * k),
        "mixed" => {
            if rng.chance(15) {
                WMAX / 2 + rng.below(1000)
            } else {
                rng.range(1, 99)
            }
        }
        "power" => 1 << rng.below(64),
        _ => {
            // powers of two that add up to the maximum
            let b = 1usize << (63 - i % 64);
            if rng.chance(90) {
                b
            } else {
                (b + rng.below(3)).saturating_sub(1).max(1)
            }
        }
    }
}

fn reweigh(c: &mut Case, spec: &mut Spec) {
    let kind = *c.rng.pick(KINDS);
    let k = c.rng.range(1, 12);
    for (i, e) in spec.edges.iter_mut().enumerate() {
        if e.2 > 0 {
            e.2 = huge_weight(&mut c.rng, kind, i, k);
        }
    }
    c.count(&format!("weights_{}", kind), 1);
    // new nodes whose distance is just below, at, or just above the maximum
    let m = spec.model();
    for _ in 0..c.rng.below(5) {
        let s = c.rng.below(m.n);
        let found: Vec<(usize, u128)> =
            m.dist(s).iter().enumerate().filter_map(|(t, d)| d.map(|d| (t, d))).filter(|(t, _)| *t != s).collect();
        if found.is_empty() {
            continue;
        }
        let (t, d) = *c.rng.pick(&found);
        let w = (WMAX as u128 - d + c.rng.below(5) as u128).saturating_sub(3).min(WMAX as u128) as usize;
        let x = spec.edges.iter().map(|e| e.0.max(e.1)).max().unwrap_or(0) + 1;
        spec.edges.push((t, x, w.max(1)));
        if c.rng.chance(40) {
            spec.edges.push((x, t, w.max(1)));
        }
        c.count("distances_placed_around_the_maximum", 1);
    }
}

fn observe(c: &mut Case, m: &Model) {
    // how close the real distances come to the limit
    let s = c.rng.below(m.n);
    let exact = m.dist_multi(&[(s, 0)], u128::MAX);
    for d in exact.iter().flatten() {
        if *d >= WMAX as u128 {
            c.count("distances_at_or_beyond_the_maximum", 1);
        } else if *d >= WMAX as u128 - 1000 {
            c.count("distances_less_than_1000_below_the_maximum", 1);
        } else if *d >= 1 << 63 {
            c.count("distances_beyond_2^63", 1);
        }
    }
}

fn ask_all(c: &mut Case, m: &Model, spec: &Spec, budget: usize, multi: usize) -> Verdict {
    let g = spec.input();
    let (fg, how) = prepare_any(&mut c.rng, &g);
    c.about = format!("{} preparation: {}", spec.show(), how);
    let mut calc = create_calculator(&fg);
    check_queries(c, m, &fg, &mut calc, What::Both, budget)?;
    super::multi::queries(c, m, &fg, multi)?;
    observe(c, m);
    Ok(())
}

fn huge(c: &mut Case, size: Size, budget: usize, multi: usize) -> Verdict {
    let mut spec = gen_regime(&mut c.rng, size, "small");
    reweigh(c, &mut spec);
    c.about = spec.show();
    c.distinct(spec.hash());
    let m = spec.model();
    ask_all(c, &m, &spec, budget, multi)
}

fn map(c: &mut Case) -> Verdict {
    let (mut spec, _) = super::query::map_input(c);
    reweigh(c, &mut spec);
    let m = spec.model();
    c.about = format!("map {} with huge weights", spec.family);
    c.distinct(spec.hash());
    let fg = prepare(&spec.input());
    let mut calc = create_calculator(&fg);
    check_queries(c, &m, &fg, &mut calc, What::Both, 2 * m.n)?;
    super::multi::queries(c, &m, &fg, 60)?;
    observe(c, &m);
    Ok(())
}

fn plain(c: &mut Case) -> Verdict {
    let size = *c.rng.pick(&[Size::Tiny, Size::Small, Size::Medium]);
    let spec = gen(&mut c.rng, size);
    c.about = spec.show();
    c.distinct(spec.hash());
    let m = spec.model();
    ask_all(c, &m, &spec, 1000, 30)
}
