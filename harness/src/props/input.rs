//! C08: the input graph against a map of the smallest weights.
use crate::check::WMAX;
use crate::run::*;
use fast_paths::*;
use std::collections::BTreeMap;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 15.0 } else { 1.0 };
    ctx.run_cases("short", 20_000, 100_000_000, 8.0 * t, |c| {
        let len = c.rng.range(1, 60);
        machine(c, len)
    });
    ctx.run_cases("long", 100, 1_000_000, 8.0 * t, |c| {
        let len = c.rng.range(500, 5000);
        machine(c, len)
    });
    ctx.run_cases("huge", 4, 1000, 6.0 * t, |c| {
        let len = c.rng.range(50_000, 200_000);
        machine(c, len)
    });
}

#[derive(Clone)]
struct Shadow {
    edges: BTreeMap<(usize, usize), usize>,
    n: usize,
    frozen: bool,
}

impl Shadow {
    fn add(&mut self, u: usize, v: usize, w: usize) {
        let e = self.edges.entry((u, v)).or_insert(w);
        *e = w.min(*e);
        self.n = self.n.max(u + 1).max(v + 1);
    }
}

fn node(c: &mut Case, ids: usize, big: bool) -> usize {
    if big && c.rng.chance(10) {
        return *c.rng.pick(&[65535, 65536, 1 << 20, u32::MAX as usize, 1 << 32, (1 << 32) + 1, 1 << 62, WMAX - 1, WMAX - 2]);
    }
    c.rng.below(ids)
}

fn weight(c: &mut Case) -> usize {
    match c.rng.below(12) {
        0 => 0,
        1 => 1,
        2 => WMAX,
        3 => WMAX - 1,
        4 => *c.rng.pick(&[1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) + 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1]),
        5..=8 => c.rng.range(1, 5),
        _ => c.rng.range(1, 1000),
    }
}

fn compare(c: &mut Case, g: &InputGraph, s: &Shadow) -> Verdict {
    c.evals(1);
    ensure!(g.get_num_nodes() == s.n, "{} nodes instead of {}", g.get_num_nodes(), s.n);
    ensure!(g.get_num_edges() == s.edges.len(), "{} edges instead of {}", g.get_num_edges(), s.edges.len());
    let e = g.get_edges();
    ensure!(e.len() == s.edges.len(), "{} edges are listed instead of {}", e.len(), s.edges.len());
    for (i, (x, ((u, v), w))) in e.iter().zip(&s.edges).enumerate() {
        ensure!(
            x.from == *u && x.to == *v && x.weight == *w,
            "edge no. {} is {}>{}:{} instead of {}>{}:{}",
            i,
            x.from,
            x.to,
            x.weight,
            u,
            v,
            w
        );
    }
    let text = g.unit_test_output_string();
    let lines = text.lines().filter(|l| !l.is_empty()).count();
    ensure!(lines == s.edges.len(), "the text output has {} lines for {} edges", lines, s.edges.len());
    c.max("edges", s.edges.len() as u64);
    Ok(())
}

fn machine(c: &mut Case, len: usize) -> Verdict {
    let mut g = if c.rng.chance(80) { InputGraph::new() } else { InputGraph::default() };
    let mut s = Shadow { edges: BTreeMap::new(), n: 0, frozen: false };
    let ids = match c.rng.below(4) {
        0 => c.rng.range(1, 3),
        1 => c.rng.range(2, 8),
        2 => c.rng.range(8, 50),
        _ => 3 + len / 2,
    };
    let big = c.rng.chance(40);
    let sorted = c.rng.chance(15);
    let freeze_chance = if len > 10_000 { 0 } else { *c.rng.pick(&[0, 2, 10, 30]) };
    let mut log: Vec<String> = vec![];
    let mut h = 0u64;
    for i in 0..len {
        let op = c.rng.below(100);
        let (mut u, mut v, mut w) = (node(c, ids, big), node(c, ids, big), weight(c));
        if sorted {
            u = i * ids / len;
            v = c.rng.below(ids);
            w = w.max(1);
        }
        if !s.edges.is_empty() && len < 10_000 && c.rng.chance(25) {
            // an edge that exists already, with about the same weight
            let k = c.rng.below(s.edges.len());
            let (&(a, b), &x) = s.edges.iter().nth(k).unwrap();
            u = a;
            v = b;
            w = x.saturating_add(c.rng.below(3)).saturating_sub(1);
        }
        let mut step = |t: String| {
            if log.len() < 300 {
                log.push(t)
            }
        };
        h = h.rotate_left(7) ^ (u as u64) ^ ((v as u64) << 20) ^ ((w as u64) << 40) ^ op as u64;
        if freeze_chance > 0 && op < freeze_chance {
            if !s.frozen {
                step("freeze".into());
                g.freeze();
                s.frozen = true;
                c.about = log.join(" ");
                compare(c, &g, &s)?;
                c.count("freezes", 1);
            } else if c.rng.chance(20) {
                step("freeze(again)".into());
                // whatever this does, it must not change the graph
                let _ = catch(|| g.freeze());
                c.about = log.join(" ");
                compare(c, &g, &s)?;
            } else {
                step("thaw".into());
                g.thaw();
                s.frozen = false;
                c.count("thaws", 1);
            }
            continue;
        }
        if op >= 97 && len < 10_000 {
            step("clone".into());
            let d = g.clone();
            if s.frozen {
                compare(c, &d, &s)?;
            }
            g = d;
            continue;
        }
        if !s.frozen && op >= 93 {
            // reading is not possible now
            step("read".into());
            c.about = log.join(" ");
            for k in 0..3 {
                let r = catch(|| match k {
                    0 => g.get_edges().len(),
                    1 => g.get_num_edges(),
                    _ => g.get_num_nodes(),
                });
                c.evals(1);
                ensure!(r.is_err(), "a graph that is not frozen can be read (function {})", k);
            }
            c.count("rejected_reads", 3);
            continue;
        }
        let bidir = c.rng.chance(30);
        step(format!("{}{}>{}:{}", if bidir { "bidir " } else { "" }, u, v, w));
        let r = catch(|| if bidir { g.add_edge_bidir(u, v, w) } else { g.add_edge(u, v, w) });
        c.evals(1);
        if s.frozen {
            c.about = log.join(" ");
            ensure!(r.is_err(), "an edge could be added to a frozen graph");
            c.count("rejected_adds", 1);
            compare(c, &g, &s)?;
            if c.rng.chance(50) {
                g.thaw();
                s.frozen = false;
            }
            continue;
        }
        let want = if u == v || w == 0 {
            0
        } else if bidir {
            2
        } else {
            1
        };
        match r {
            Ok(got) if got == want => {}
            Ok(got) => {
                return Err(format!("adding {}>{}:{} (bidir {}) returned {} instead of {}", u, v, w, bidir, got, want))
            }
            Err(p) => return Err(format!("adding {}>{}:{} (bidir {}): panic {}", u, v, w, bidir, p.show())),
        }
        if want > 0 {
            s.add(u, v, w);
        }
        if want > 1 {
            s.add(v, u, w);
        }
        c.count(if want == 0 { "skipped_adds" } else { "accepted_adds" }, 1);
    }
    if !s.frozen {
        g.freeze();
        s.frozen = true;
    }
    c.about = log.join(" ");
    compare(c, &g, &s)?;
    // the reserved id is never accepted
    if c.rng.chance(10) {
        g.thaw();
        let r = catch(|| g.add_edge(WMAX, 0, 1));
        g.freeze();
        if r.is_ok() {
            ensure!(g.get_num_nodes() > s.n, "an edge of node {} was accepted, but there are {} nodes", WMAX, g.get_num_nodes());
        } else {
            compare(c, &g, &s)?;
        }
    }
    if s.edges.len() > 1 {
        c.distinct(h);
    }
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    Ok(())
}
