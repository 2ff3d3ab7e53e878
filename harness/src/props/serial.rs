//! C09 (serde round trips) and C10 (32-bit representation).
use super::multi::list;
use crate::check::*;
use crate::gen::*;
use crate::oracle::Model;
use crate::run::*;
use bincode::Options;
use fast_paths::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ formats

pub const FORMATS: &[&str] =
    &["bincode", "bincode varint", "bincode big endian", "json", "json pretty", "json value", "bincode stream", "json stream",
    "ron", "ron pretty", "compact"];

pub fn write<T: Serialize>(format: &str, x: &T) -> Result<Vec<u8>, String> {
    let e = |e: &dyn std::fmt::Display| format!("serializing as {} failed: {}", format, e);
    match format {
        "bincode" => bincode::serialize(x).map_err(|x| e(&x)),
        "bincode varint" => bincode::options().with_varint_encoding().serialize(x).map_err(|x| e(&x)),
        "bincode big endian" => {
            bincode::options().with_fixint_encoding().with_big_endian().serialize(x).map_err(|x| e(&x))
        }
        "bincode stream" => {
            let mut v = vec![];
            bincode::serialize_into(&mut v, x).map_err(|x| e(&x))?;
            Ok(v)
        }
        "json" => serde_json::to_vec(x).map_err(|x| e(&x)),
        "json pretty" => serde_json::to_vec_pretty(x).map_err(|x| e(&x)),
        "json value" => {
            // sorts the keys
            let v = serde_json::to_value(x).map_err(|x| e(&x))?;
            Ok(v.to_string().into_bytes())
        }
        "compact" => {
            let v = serde_json::to_value(x).map_err(|x| e(&x))?;
            Ok(v.to_string().into_bytes())
        }
        "ron" => ron::to_string(x).map(|s| s.into_bytes()).map_err(|x| e(&x)),
        "ron pretty" => {
            let how = ron::ser::PrettyConfig::new().struct_names(true);
            ron::ser::to_string_pretty(x, how).map(|s| s.into_bytes()).map_err(|x| e(&x))
        }
        "json stream" => {
            let mut v = vec![];
            serde_json::to_writer(&mut v, x).map_err(|x| e(&x))?;
            Ok(v)
        }
        _ => unreachable!(),
    }
}

pub fn read<T: DeserializeOwned>(format: &str, b: &[u8]) -> Result<T, String> {
    let e = |e: &dyn std::fmt::Display| format!("deserializing as {} failed: {}", format, e);
    match format {
        "bincode" => bincode::deserialize(b).map_err(|x| e(&x)),
        "bincode varint" => bincode::options().with_varint_encoding().deserialize(b).map_err(|x| e(&x)),
        "bincode big endian" => {
            bincode::options().with_fixint_encoding().with_big_endian().deserialize(b).map_err(|x| e(&x))
        }
        "bincode stream" => bincode::deserialize_from(b).map_err(|x| e(&x)),
        "json" | "json pretty" => serde_json::from_slice(b).map_err(|x| e(&x)),
        "json value" => {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(|x| e(&x))?;
            serde_json::from_value(v).map_err(|x| e(&x))
        }
        "compact" => {
            let v: serde_json::Value = serde_json::from_slice(b).map_err(|x| e(&x))?;
            T::deserialize(crate::compact::Compact(&v)).map_err(|x| e(&x))
        }
        "ron" | "ron pretty" => ron::de::from_bytes(b).map_err(|x| e(&x)),
        "json stream" => serde_json::from_reader(b).map_err(|x| e(&x)),
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------ answers

/// identical counts, ordering and answers
pub fn same_graph(c: &mut Case, a: &FastGraph, b: &FastGraph, budget: usize) -> Verdict {
    let n = a.get_num_nodes();
    c.evals(1);
    ensure!(b.get_num_nodes() == n, "{} nodes instead of {}", b.get_num_nodes(), n);
    ensure!(
        b.get_num_out_edges() == a.get_num_out_edges() && b.get_num_in_edges() == a.get_num_in_edges(),
        "edge counts {}, {} instead of {}, {}",
        b.get_num_out_edges(),
        b.get_num_in_edges(),
        a.get_num_out_edges(),
        a.get_num_in_edges()
    );
    ensure!(get_node_ordering(a) == get_node_ordering(b), "the node ordering differs");
    if n == 0 {
        return Ok(());
    }
    let (mut ca, mut cb) = (create_calculator(a), create_calculator(b));
    let pairs: Vec<(usize, usize)> = if n * n <= budget {
        (0..n * n).map(|i| (i / n, i % n)).collect()
    } else {
        (0..budget).map(|_| (c.rng.below(n), c.rng.below(n))).collect()
    };
    let mut nodes = 0;
    for (s, t) in pairs {
        let (x, y) = (ca.calc_path(a, s, t), cb.calc_path(b, s, t));
        c.evals(1);
        ensure!(same(&x, &y), "query {} -> {}: {} before, {} afterwards", s, t, show(&x), show(&y));
        nodes += x.map_or(0, |p| p.get_nodes().len());
        if nodes > 3_000_000 {
            break;
        }
    }
    for _ in 0..3 {
        let (s, t) = (list(c, n, 1000, &[]), list(c, n, 1000, &[]));
        let x = ca.calc_path_multiple_sources_and_targets(a, s.clone(), t.clone());
        let y = cb.calc_path_multiple_sources_and_targets(b, s.clone(), t.clone());
        c.evals(1);
        ensure!(same(&x, &y), "query {:?} -> {:?}: {} before, {} afterwards", s, t, show(&x), show(&y));
    }
    Ok(())
}

// ------------------------------------------------------------------ C09

pub fn run_serde(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 2000, 10_000_000, 5.0 * t, |c| serde_case(c, Size::Tiny, 60));
    ctx.run_cases("small", 800, 10_000_000, 9.0 * t, |c| serde_case(c, Size::Small, 300));
    ctx.run_cases("medium", 40, 1_000_000, 7.0 * t, |c| serde_case(c, Size::Medium, 1000));
    ctx.run_cases("large", 8, 1_000_000, 6.0 * t, |c| serde_case(c, Size::Large, 2000));
    ctx.run_cases("maps", 5, 10_000, 6.0 * t, serde_map);
    ctx.run_cases("big", 2, 2, 0.0, serde_big);
    ctx.run_cases("input", 3000, 10_000_000, 6.0 * t, serde_input);
}

#[derive(Serialize, Deserialize)]
struct Larger {
    name: String,
    before: Vec<u16>,
    graph: FastGraph,
    more: Vec<FastGraph>,
    maybe: Option<FastGraph>,
    input: InputGraph,
    after: (u8, i64, String),
}

fn serde_case(c: &mut Case, size: Size, budget: usize) -> Verdict {
    let mut spec = gen(&mut c.rng, size);
    if c.rng.chance(10) {
        spec = gen_with(&mut c.rng, spec.family, "huge", 12);
    }
    c.about = spec.show();
    let g = spec.input();
    let (fg, how) = prepare_any(&mut c.rng, &g);
    c.about = format!("{} preparation {}", spec.show(), how);
    c.distinct(spec.hash());
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    round_trips(c, &fg, &g, budget)
}

fn serde_map(c: &mut Case) -> Verdict {
    let (spec, _) = super::query::map_input(c);
    c.about = format!("map {} weights {}", spec.family, spec.regime);
    c.distinct(spec.hash());
    let g = spec.input();
    let fg = prepare(&g);
    round_trips(c, &fg, &g, 3000)
}

fn serde_big(c: &mut Case) -> Verdict {
    let n = 66_000 + c.rng.below(3000);
    let spec = gen_with(&mut c.rng, ["roadlike", "bintree"][c.idx as usize % 2], "mid", n);
    c.about = format!("{} with {} nodes", spec.family, n);
    c.distinct(spec.hash());
    let g = spec.input();
    let fg = prepare(&g);
    round_trips(c, &fg, &g, 1000)
}

fn round_trips(c: &mut Case, fg: &FastGraph, g: &InputGraph, budget: usize) -> Verdict {
    let large = fg.get_num_nodes() > 1000;
    let mut formats: Vec<&str> = FORMATS.to_vec();
    c.rng.shuffle(&mut formats);
    if large {
        formats.truncate(2);
    }
    for f in formats {
        let b = write(f, fg)?;
        let mut fg2: FastGraph = read(f, &b)?;
        same_graph(c, fg, &fg2, budget).map_err(|e| format!("after a round trip as {}: {}", f, e))?;
        // as often as wanted
        for i in 0..2 {
            let b2 = write(f, &fg2)?;
            c.evals(1);
            ensure!(b == b2, "serializing the deserialized graph as {} gives other bytes (round {})", f, i);
            fg2 = read(f, &b2)?;
        }
        let via = if f == "json" { "bincode" } else { "json" };
        let fg3: FastGraph = read(via, &write(via, &fg2)?)?;
        ensure!(write(f, &fg3)? == b, "a round trip as {} and {} changes the graph", f, via);
        c.count("round_trips", 4);
        c.max("bytes", b.len() as u64);
    }
    let f = *c.rng.pick(FORMATS);
    let x = Larger {
        name: "graphs \"\u{e4}\"".into(),
        before: vec![1, 2, 3],
        graph: fg.clone(),
        more: if large { vec![] } else { vec![fg.clone(), fg.clone()] },
        maybe: if c.rng.chance(50) { Some(fg.clone()) } else { None },
        input: g.clone(),
        after: (255, -7, "end".into()),
    };
    let b = write(f, &x)?;
    let y: Larger = read(f, &b)?;
    ensure!(y.name == x.name && y.before == x.before && y.after == x.after && y.more.len() == x.more.len(), "the surroundings changed ({})", f);
    ensure!(y.maybe.is_some() == x.maybe.is_some(), "an optional graph got lost ({})", f);
    ensure!(write(f, &y)? == b, "a larger structure is not the same after a round trip as {}", f);
    for h in std::iter::once(&y.graph).chain(&y.more).chain(&y.maybe) {
        same_graph(c, fg, h, budget / 2).map_err(|e| format!("inside a larger structure as {}: {}", f, e))?;
    }
    ensure!(format!("{:?}", y.input) == format!("{:?}", g), "the input graph inside a larger structure changed ({})", f);
    c.count("larger_structures", 1);
    Ok(())
}

fn edges_of(g: &InputGraph) -> Vec<(usize, usize, usize)> {
    g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect()
}

fn serde_input(c: &mut Case) -> Verdict {
    let size = if c.rng.chance(50) { Size::Tiny } else { Size::Small };
    let mut spec = gen(&mut c.rng, size);
    if c.rng.chance(30) {
        let i = c.rng.below(spec.edges.len());
        spec.edges[i].2 = *c.rng.pick(&[WMAX, WMAX - 1, 1 << 63, (1 << 53) + 1, 1 << 32]);
    }
    if c.rng.chance(10) {
        let u = *c.rng.pick(&[1 << 32, (1 << 53) + 1, WMAX - 1]);
        spec.edges.push((u, 0, 1));
    }
    c.about = spec.show();
    c.distinct(spec.hash());
    let f = *c.rng.pick(FORMATS);
    // the state in which it is stored: frozen, thawed, never frozen, or halfway
    let state = c.rng.below(4);
    let half = c.rng.below(spec.edges.len() + 1);
    let mut g = InputGraph::new();
    for (i, &(u, v, w)) in spec.edges.iter().enumerate() {
        if state == 3 && i == half {
            break;
        }
        g.add_edge(u, v, w);
    }
    if state < 2 {
        g.freeze();
    }
    if state == 1 {
        g.thaw();
    }
    let b = write(f, &g)?;
    let mut h: InputGraph = read(f, &b)?;
    c.evals(3);
    ensure!(write(f, &h)? == b, "serializing the deserialized input graph as {} gives other bytes", f);
    ensure!(format!("{:?}", h) == format!("{:?}", g), "the edges changed with {}", f);
    if state == 0 {
        ensure!(catch(|| h.clone().add_edge(0, 1, 1)).is_err(), "a frozen input graph is not frozen after a round trip as {}", f);
        ensure!(catch(|| edges_of(&h)).map_or(false, |e| e == edges_of(&g)), "the edges changed with {}", f);
        ensure!(h.get_num_nodes() == g.get_num_nodes(), "{} nodes instead of {} ({})", h.get_num_nodes(), g.get_num_nodes(), f);
        g.thaw();
        h.thaw();
    } else {
        ensure!(catch(|| h.get_num_nodes()).is_err(), "an input graph is frozen after a round trip as {}", f);
    }
    let extra = (c.rng.below(50), c.rng.below(50), c.rng.range(1, 9));
    for x in [&mut g, &mut h] {
        if state == 3 {
            for &(u, v, w) in &spec.edges[half..] {
                x.add_edge(u, v, w);
            }
        }
        x.add_edge(extra.0, extra.1, extra.2);
        x.freeze();
    }
    spec.edges.push(extra);
    let (n, edges) = Model::canonical(&spec.edges);
    let edges: Vec<_> = edges.into_iter().map(|((u, v), w)| (u, v, w)).collect();
    ensure!(edges_of(&h) == edges, "the edges are wrong after a round trip as {} and more edges", f);
    ensure!(h.get_num_nodes() == n && g.get_num_nodes() == n, "{} nodes instead of {} ({})", h.get_num_nodes(), n, f);
    if n < 1000 {
        ensure!(
            super::determ::bytes(&prepare(&g)) == super::determ::bytes(&prepare(&h)),
            "the deserialized input graph ({}) is prepared differently",
            f
        );
    }
    c.count("input_graphs", 1);
    Ok(())
}

// ------------------------------------------------------------------ C10

pub fn run_32(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 3000, 10_000_000, 6.0 * t, |c| case_32(c, Size::Tiny, 60));
    ctx.run_cases("small", 800, 10_000_000, 8.0 * t, |c| case_32(c, Size::Small, 400));
    ctx.run_cases("medium", 40, 1_000_000, 6.0 * t, |c| case_32(c, Size::Medium, 1000));
    ctx.run_cases("limits", 3000, 10_000_000, 8.0 * t, limits);
    ctx.run_cases("altered", 3000, 10_000_000, 6.0 * t, altered);
    ctx.run_cases("large", 8, 1_000_000, 5.0 * t, |c| case_32(c, Size::Large, 2000));
    ctx.run_cases("maps", 5, 10_000, 6.0 * t, |c| {
        let (spec, m) = super::query::map_input(c);
        c.about = format!("map {} weights {}", spec.family, spec.regime);
        c.distinct(spec.hash());
        let fg = prepare(&spec.input());
        convert(c, &fg, &m, 3000)
    });
    ctx.run_cases("big", 3, 3, 0.0, |c| {
        let n = 66_000 + c.rng.below(3000);
        let spec = gen_with(&mut c.rng, ["roadlike", "bintree", "grid"][c.idx as usize % 3], "mid", n);
        c.about = format!("{} with {} nodes", spec.family, n);
        c.distinct(spec.hash());
        let fg = prepare(&spec.input());
        let m = spec.model();
        convert(c, &fg, &m, 1000)
    });
}

#[derive(Serialize, Deserialize)]
struct Stored {
    version: u32,
    #[serde(serialize_with = "fast_paths::serialize_32", deserialize_with = "fast_paths::deserialize_32")]
    graph: FastGraph,
    tail: String,
}

fn numbers(v: &serde_json::Value, r: &mut Vec<u64>) {
    match v {
        serde_json::Value::Number(x) => r.push(x.as_u64().unwrap_or(u64::MAX)),
        serde_json::Value::Array(a) => a.iter().for_each(|x| numbers(x, r)),
        serde_json::Value::Object(o) => o.values().for_each(|x| numbers(x, r)),
        _ => {}
    }
}

/// the largest number that is stored in the graph, except the reserved maximum
fn largest(fg: &FastGraph) -> Result<u64, String> {
    let v = serde_json::to_value(fg).map_err(|e| format!("serializing failed: {}", e))?;
    let mut r = vec![];
    numbers(&v, &mut r);
    Ok(r.into_iter().filter(|x| *x != u64::MAX).max().unwrap_or(0))
}

const RESERVED: u64 = u32::MAX as u64;

fn convert(c: &mut Case, fg: &FastGraph, m: &Model, budget: usize) -> Verdict {
    let max = largest(fg)?;
    let direct = catch(|| FastGraph32::new(fg));
    c.evals(1);
    let f = *c.rng.pick(FORMATS);
    let stored = Stored { version: 3, graph: fg.clone(), tail: "end".into() };
    let written = catch(|| write(f, &stored));
    match direct {
        Err(p) => {
            ensure!(max >= RESERVED, "all values are at most {}, but the conversion panics: {}", max, p.show());
            ensure!(!matches!(written, Ok(Ok(_))), "the value {} does not fit, but serialize_32 accepts the graph", max);
            c.count("refused", 1);
            return Ok(());
        }
        Ok(g32) => {
            let back = catch(|| g32.convert_to_usize()).map_err(|p| format!("converting back: panic {}", p.show()))?;
            same_graph(c, fg, &back, budget).map_err(|e| format!("after converting to 32 bits and back: {}", e))?;
            // an edge can be changed without a visible effect on the sampled answers
            ensure!(
                super::determ::bytes(&back) == super::determ::bytes(fg),
                "converting to 32 bits and back changes the graph (its largest value is {})",
                max
            );
            ensure!(max <= RESERVED, "the value {} does not fit into 32 bits, but the graph is converted", max);
            c.count("converted", 1);
        }
    }
    let b = written
        .map_err(|p| format!("all values are at most {}, but serialize_32 panics: {}", max, p.show()))?
        .map_err(|e| format!("serialize_32: {}", e))?;
    let back: Stored = read(f, &b)?;
    ensure!(back.version == 3 && back.tail == "end", "the surroundings changed ({})", f);
    same_graph(c, fg, &back.graph, budget).map_err(|e| format!("after serialize_32 and deserialize_32 as {}: {}", f, e))?;
    ensure!(super::determ::bytes(&back.graph) == super::determ::bytes(fg), "serialize_32 and deserialize_32 change the graph ({})", f);
    ensure!(write(f, &back)? == b, "serializing again as {} gives other bytes", f);
    // the graph still answers according to the input
    let n = m.n;
    let mut calc = create_calculator(&back.graph);
    let s = c.rng.below(n);
    let dist = m.dist(s);
    for _ in 0..budget.min(200) {
        let t = c.rng.below(n);
        c.evals(1);
        check_dist(s, t, dist[t], &calc.calc_path(&back.graph, s, t)).map_err(|e| format!("after serialize_32: {}", e))?;
    }
    c.max("largest_value", max);
    c.count("bytes_64", bincode::serialized_size(fg).unwrap_or(0));
    c.count("bytes_32", bincode::serialized_size(&FastGraph32::new(fg)).unwrap_or(0));
    Ok(())
}

fn case_32(c: &mut Case, size: Size, budget: usize) -> Verdict {
    let mut spec = gen(&mut c.rng, size);
    // mostly weights that fit
    if matches!(spec.regime, "near32" | "near53" | "wide") && c.rng.chance(70) {
        for e in spec.edges.iter_mut() {
            e.2 = 1 + e.2 % 5000;
        }
    }
    c.about = spec.show();
    let g = spec.input();
    let (fg, how) = prepare_any(&mut c.rng, &g);
    c.about = format!("{} preparation {}", spec.show(), how);
    c.distinct(spec.hash());
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    let m = spec.model();
    convert(c, &fg, &m, budget)
}

/// some number of a prepared graph, whatever it stands for, is replaced by one close to the limit
fn altered(c: &mut Case) -> Verdict {
    let spec = gen_with(&mut c.rng, "gnm2", "small", 9);
    let fg = prepare(&spec.input());
    let mut v = serde_json::to_value(&fg).map_err(|e| format!("serializing failed: {}", e))?;
    let mut all = vec![];
    numbers(&v, &mut all);
    let changes = if c.rng.chance(70) { 1 } else { 2 };
    let mut log = vec![];
    let mut most = 0;
    for _ in 0..changes {
        let x = *c.rng.pick(&[
            RESERVED,
            RESERVED - 1,
            RESERVED - 2,
            RESERVED + 1,
            RESERVED + 2,
            RESERVED + 6,
            1 << 33,
            (1 << 63) + 4,
            (7 << 32) + RESERVED,
            u64::MAX - 1,
            u64::MAX,
            u64::MAX - RESERVED,
        ]);
        let i = c.rng.below(all.len());
        let mut k = i;
        set_number(&mut v, &mut k, x);
        log.push((i, x));
    }
    let mut now = vec![];
    numbers(&v, &mut now);
    for x in now {
        if x != u64::MAX && x > most {
            most = x;
        }
    }
    c.about = format!("{} with changed numbers {:?}", spec.show(), log);
    c.distinct(spec.hash() ^ crate::rng::hash_bytes(c.about.as_bytes()));
    if v.get("num_nodes").and_then(|x| x.as_u64()) == Some(u64::MAX) {
        // not even an altered graph has so many nodes
        return Ok(());
    }
    let fg: FastGraph = match serde_json::from_value(v) {
        Ok(fg) => fg,
        Err(_) => return Ok(()),
    };
    let stored = Stored { version: 3, graph: fg.clone(), tail: "end".into() };
    let f = *c.rng.pick(FORMATS);
    let direct = catch(|| FastGraph32::new(&fg));
    let written = catch(|| write(f, &stored));
    c.evals(2);
    if most >= RESERVED {
        ensure!(direct.is_err(), "the value {} does not fit into 32 bits, but the graph is converted", most);
        ensure!(!matches!(written, Ok(Ok(_))), "the value {} does not fit, but serialize_32 accepts the graph", most);
        c.count("altered_refused", 1);
        return Ok(());
    }
    // such a graph cannot be used for queries, but the values must stay
    if let Ok(g32) = direct {
        if let Ok(back) = catch(|| g32.convert_to_usize()) {
            ensure!(super::determ::bytes(&back) == super::determ::bytes(&fg), "converting to 32 bits and back changes the graph");
            c.count("altered_converted", 1);
        }
    }
    if let Ok(Ok(b)) = written {
        if let Ok(Ok(back)) = catch(|| read::<Stored>(f, &b)) {
            ensure!(super::determ::bytes(&back.graph) == super::determ::bytes(&fg), "serialize_32 and deserialize_32 change the graph ({})", f);
        }
    }
    Ok(())
}

fn set_number(v: &mut serde_json::Value, k: &mut usize, x: u64) -> bool {
    match v {
        serde_json::Value::Number(_) => {
            if *k == 0 {
                *v = x.into();
                return true;
            }
            *k -= 1;
            false
        }
        serde_json::Value::Array(a) => a.iter_mut().any(|y| set_number(y, k, x)),
        serde_json::Value::Object(o) => o.values_mut().any(|y| set_number(y, k, x)),
        _ => false,
    }
}

/// the largest weight of an edge or a shortcut is close to 2^32
fn limits(c: &mut Case) -> Verdict {
    let family = *c.rng.pick(&["line_bidir", "line", "cycle", "grid", "gnm1", "tree_bidir", "star_bidir", "diamonds"]);
    let n = c.rng.range(3, 12);
    let mut spec = gen_with(&mut c.rng, family, "small", n);
    let target = (1usize << 32) - 6 + c.rng.below(9);
    match c.rng.below(4) {
        // one edge
        0 => {
            let i = c.rng.below(spec.edges.len());
            spec.edges[i].2 = target;
        }
        // a shortcut of two edges
        1 => {
            let i = c.rng.below(spec.edges.len());
            let part = *c.rng.pick(&[1usize, 2, 1 << 31, 1 << 16, (1 << 32) - 10]);
            for (j, e) in spec.edges.iter_mut().enumerate() {
                e.2 = if i == j { target - part.min(target - 1) } else { part };
            }
        }
        // the maximum weight itself stands for "no path"
        2 => {
            let i = c.rng.below(spec.edges.len());
            spec.edges[i].2 = *c.rng.pick(&[WMAX, WMAX - 1, 1 << 33, (1 << 32) + (1 << 31), (1 << 63) + 5]);
        }
        // all edges, so that many shortcuts are close to the limit
        _ => {
            let k = c.rng.range(1, 4);
            for e in spec.edges.iter_mut() {
                e.2 = target / k + c.rng.below(2);
            }
        }
    }
    let m = spec.model();
    let g = spec.input();
    let order = c.rng.perm(m.n);
    c.about = format!("{} order {:?}", spec.show(), order);
    c.distinct(spec.hash());
    let fg = if c.rng.chance(70) {
        prepare_with_order(&g, &order).map_err(|e| format!("order rejected: {}", e))?
    } else {
        prepare(&g)
    };
    convert(c, &fg, &m, 200)
}
