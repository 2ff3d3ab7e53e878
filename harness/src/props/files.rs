//! C11 (file round trips) and C12 (readers).
use crate::gen::*;
use crate::oracle::Model;
use crate::rng::Rng;
use crate::run::*;
use fast_paths::*;
use std::path::PathBuf;

type Edges = Vec<(usize, usize, usize)>;

fn edges_of(g: &InputGraph) -> Edges {
    g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect()
}

fn show(e: &Edges) -> String {
    format!("{} edges {:?}", e.len(), &e[..e.len().min(60)])
}

/// a scratch file that is removed at the end of the case
struct Scratch(PathBuf);
impl Scratch {
    fn new(c: &mut Case, name: &str) -> Scratch {
        let dir = PathBuf::from(std::env::var("FP_SCRATCH").unwrap_or_else(|_| "/verif/scratch".into()));
        let dir = dir.join(format!("files-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| harness_error(&format!("{:?}: {}", dir, e)));
        Scratch(dir.join(format!("{}-{}-{:x}", name, c.idx, c.rng.next())))
    }
    fn path(&self) -> &str {
        self.0.to_str().unwrap()
    }
    fn read(&self) -> String {
        std::fs::read_to_string(&self.0).unwrap_or_else(|e| violate(&format!("the written file cannot be read: {}", e)))
    }
    fn write(&self, s: &str) {
        std::fs::write(&self.0, s).unwrap_or_else(|e| harness_error(&format!("{:?}: {}", self.0, e)));
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn clean_up() {
    let dir = PathBuf::from(std::env::var("FP_SCRATCH").unwrap_or_else(|_| "/verif/scratch".into()));
    let _ = std::fs::remove_dir_all(dir.join(format!("files-{}", std::process::id())));
}

// ------------------------------------------------------------------ C11

pub fn run_round_trip(ctx: &Ctx) {
    let t = if ctx.thorough { 15.0 } else { 1.0 };
    ctx.run_cases("tiny", 2000, 10_000_000, 5.0 * t, |c| round_trip(c, Size::Tiny));
    ctx.run_cases("small", 500, 10_000_000, 6.0 * t, |c| round_trip(c, Size::Small));
    ctx.run_cases("medium", 100, 10_000_000, 6.0 * t, |c| round_trip(c, Size::Medium));
    ctx.run_cases("large", 10, 10_000_000, 6.0 * t, |c| round_trip(c, Size::Large));
    ctx.run_cases("maps", 5, 200, 6.0 * t, |c| {
        let (spec, _) = super::query::map_input(c);
        both_formats(c, &spec)
    });
    ctx.run_cases("big", 4, 4, 0.0, |c| {
        let n = 66_000 + c.rng.below(3000);
        let spec = gen_with(&mut c.rng, "roadlike", "wide", n);
        both_formats(c, &spec)
    });
    clean_up();
}

fn round_trip(c: &mut Case, size: Size) -> Verdict {
    let mut spec = gen(&mut c.rng, size);
    if c.rng.chance(10) {
        spec = gen_with(&mut c.rng, spec.family, "huge", 10);
    }
    // file formats do not care how large the numbers are
    if c.rng.chance(15) {
        let k = spec.edges.len();
        let u = *c.rng.pick(&[1 << 16, 999_999_999, 1 << 32, (1 << 53) + 1, usize::MAX / 2, usize::MAX - 2]);
        let v = c.rng.below(k);
        spec.edges.push(if c.rng.chance(50) { (u, v, 3) } else { (v, u, usize::MAX) });
    }
    if c.rng.chance(1) {
        spec.edges.clear();
    }
    both_formats(c, &spec)
}

fn both_formats(c: &mut Case, spec: &Spec) -> Verdict {
    c.about = spec.show();
    c.distinct(spec.hash());
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    let (n, edges) = Model::canonical(&spec.edges);
    let edges: Edges = edges.into_iter().map(|((u, v), w)| (u, v, w)).collect();
    let g = spec.input();
    let file = Scratch::new(c, "graph");
    // something else is there already
    if c.rng.chance(50) {
        file.write(&"a 1 2 3\nxyz\n".repeat(c.rng.range(1, 3 * edges.len() + 3)));
        c.count("overwritten_files", 1);
    }
    g.to_file(file.path()).map_err(|e| format!("to_file: {}", e))?;
    let text = file.read();
    let h = catch(|| InputGraph::from_file(file.path())).map_err(|p| format!("from_file: {}", p.show()))?;
    c.evals(2);
    let got = catch(|| (edges_of(&h), h.get_num_nodes())).map_err(|p| format!("the read graph is not usable: {}", p.show()))?;
    ensure!(got.0 == edges, "from_file after to_file: {}, written were {}", show(&got.0), show(&edges));
    ensure!(got.1 == n, "from_file after to_file: {} nodes instead of {}", got.1, n);
    h.to_file(file.path()).map_err(|e| format!("to_file: {}", e))?;
    ensure!(file.read() == text, "writing the read graph gives another file");
    c.count("plain_files", 1);

    // 1-based ids
    if n <= usize::MAX - 1 {
        let file = Scratch::new(c, "dimacs");
        if c.rng.chance(50) {
            file.write(&"a 1 2 3\np sp 7 8\n".repeat(c.rng.range(1, 3 * edges.len() + 3)));
        }
        // nodes without edges at the end
        let mut m = n;
        let mut g = g;
        if c.rng.chance(30) {
            m = n.saturating_add(c.rng.below(5)).min(usize::MAX - 1);
            file.write(&dimacs_text(m, &edges));
            g = catch(|| InputGraph::from_dimacs_file(file.path())).map_err(|p| format!("from_dimacs_file: {}", p.show()))?;
        }
        g.to_dimacs_file(file.path()).map_err(|e| format!("to_dimacs_file: {}", e))?;
        let text = file.read();
        foreign_reader(&text, m, &edges)?;
        let h = catch(|| InputGraph::from_dimacs_file(file.path())).map_err(|p| format!("from_dimacs_file: {}", p.show()))?;
        c.evals(3);
        let got = catch(|| (edges_of(&h), h.get_num_nodes())).map_err(|p| format!("the read graph is not usable: {}", p.show()))?;
        ensure!(got.0 == edges, "from_dimacs_file after to_dimacs_file: {}, written were {}", show(&got.0), show(&edges));
        ensure!(got.1 == m, "from_dimacs_file after to_dimacs_file: {} nodes instead of {}", got.1, m);
        h.to_dimacs_file(file.path()).map_err(|e| format!("to_dimacs_file: {}", e))?;
        ensure!(file.read() == text, "writing the read graph gives another DIMACS file");
        c.count("dimacs_files", 1);
        c.count("dimacs_files_with_isolated_nodes", (m > n) as u64);
    }
    c.max("file_bytes", text.len() as u64);
    Ok(())
}

fn dimacs_text(n: usize, edges: &Edges) -> String {
    let mut s = format!("p sp {} {}\n", n, edges.len());
    for (u, v, w) in edges {
        s.push_str(&format!("a {} {} {}\n", u + 1, v + 1, w));
    }
    s
}

/// what any other DIMACS reader expects
fn foreign_reader(text: &str, n: usize, edges: &Edges) -> Verdict {
    let mut got: Edges = vec![];
    let mut problem = None;
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        match w.first() {
            None | Some(&"c") => {}
            Some(&"p") => {
                ensure!(problem.is_none(), "two problem lines");
                ensure!(w.len() == 4 && w[1] == "sp", "problem line '{}'", line);
                problem = Some((w[2].to_string(), w[3].to_string()));
            }
            Some(&"a") => {
                ensure!(problem.is_some(), "an arc before the problem line");
                ensure!(w.len() == 4, "arc line '{}'", line);
                let x: Vec<u64> = w[1..].iter().filter_map(|x| x.parse().ok()).collect();
                ensure!(x.len() == 3, "arc line '{}'", line);
                ensure!(x[0] >= 1 && x[1] >= 1 && x[0] <= n as u64 && x[1] <= n as u64, "node ids of '{}' with {} nodes", line, n);
                got.push((x[0] as usize - 1, x[1] as usize - 1, x[2] as usize));
            }
            _ => return Err(format!("unknown line '{}' in the DIMACS file", line)),
        }
    }
    let want = Some((n.to_string(), edges.len().to_string()));
    ensure!(problem == want, "the problem line states {:?} instead of {:?}", problem, want);
    got.sort_unstable();
    ensure!(got == *edges, "the DIMACS file contains {} instead of {}", show(&got), show(edges));
    Ok(())
}

// ------------------------------------------------------------------ C12

pub fn run_readers(ctx: &Ctx) {
    let t = if ctx.thorough { 15.0 } else { 1.0 };
    ctx.run_cases("dimacs", 3000, 100_000_000, 8.0 * t, |c| good(c, true));
    ctx.run_cases("plain", 3000, 100_000_000, 7.0 * t, |c| good(c, false));
    ctx.run_cases("bad_dimacs", 5000, 100_000_000, 9.0 * t, bad_dimacs);
    ctx.run_cases("bad_plain", 3000, 100_000_000, 6.0 * t, bad_plain);
    ctx.run_cases("long_files", 8, 1000, 5.0 * t, |c| {
        let dimacs = c.idx % 2 == 0;
        let n = 30_000 + c.rng.below(30_000);
        let spec = gen_with(&mut c.rng, "roadlike", "wide", n);
        load(c, &spec, dimacs)
    });
    ctx.run_cases("maps", 5, 5, 0.0, reader_map);
    clean_up();
}

fn blank(rng: &mut Rng) -> &'static str {
    *rng.pick(&[" ", " ", " ", "  ", "\t", " \t ", "     "])
}

fn filler(rng: &mut Rng, dimacs: bool) -> String {
    if dimacs {
        rng.pick(&["", "", "c", "c a 1 2 3", "c p sp 9 9", "comment", "c \u{e4}\u{6f22}", "c\ta 5 5 5"]).to_string()
    } else {
        rng.pick(&[
            "", "c a 1 2 3", "p sp 9 9", "p sp x", "# a 1 2 3", "b 1 2 3", "aa 1 2 3", "a", "A 1 2 3", "1 2 3", " a 1 2 3", "\ta 1 2 3",
            "e 7 8 9", "\u{e4} 1 2", "a1 2 3", "a,1,2,3", "-",
        ])
        .to_string()
    }
}

fn arc(rng: &mut Rng, u: usize, v: usize, w: usize, sloppy: bool) -> String {
    if !sloppy {
        return format!("a {} {} {}", u, v, w);
    }
    let zeros = |rng: &mut Rng| if rng.chance(5) { "000" } else { "" };
    let (z1, z2, z3) = (zeros(rng), zeros(rng), zeros(rng));
    let lead = *rng.pick(&["", "", "", " ", "\t", "  "]);
    let trail = *rng.pick(&["", "", "", " ", "\t", "   "]);
    format!("a {}{}{}{}{}{}{}{}{}{}", lead, z1, u, blank(rng), z2, v, blank(rng), z3, w, trail)
}

/// a well-formed file
fn compose(rng: &mut Rng, n: usize, edges: &Edges, dimacs: bool) -> Vec<String> {
    let sloppy = rng.chance(60);
    let fill = *rng.pick(&[0, 0, 10, 40]);
    let off = dimacs as usize;
    let mut lines = vec![];
    for &(u, v, w) in edges {
        if rng.chance(fill) {
            lines.push(filler(rng, dimacs));
        }
        lines.push(arc(rng, u + off, v + off, w, sloppy));
    }
    if rng.chance(fill) {
        lines.push(filler(rng, dimacs));
    }
    if dimacs {
        let mut head = vec![];
        while rng.chance(fill) {
            head.push(filler(rng, dimacs));
        }
        head.push(if sloppy {
            format!("p sp {}{}{}{}{}", rng.pick(&["", "", " ", "\t"]), n, blank(rng), edges.len(), rng.pick(&["", "", " ", "\t "]))
        } else {
            format!("p sp {} {}", n, edges.len())
        });
        head.append(&mut lines);
        lines = head;
    }
    lines
}

fn join(rng: &mut Rng, lines: &[String]) -> String {
    let end = *rng.pick(&["\n", "\n", "\r\n"]);
    let mut s = lines.join(end);
    if rng.chance(80) {
        s.push_str(end);
    }
    s
}

fn good(c: &mut Case, dimacs: bool) -> Verdict {
    let size = *c.rng.pick(&[Size::Tiny, Size::Tiny, Size::Small, Size::Medium]);
    let mut spec = gen(&mut c.rng, size);
    match c.rng.below(20) {
        0 => spec.edges.clear(),
        1 => {
            let u = *c.rng.pick(&[1 << 32, (1 << 53) + 1, usize::MAX - 2]);
            spec.edges.push((u, 3, 1 << 40));
        }
        2 => spec.edges.push((0, 1, usize::MAX)),
        _ => {}
    }
    load(c, &spec, dimacs)
}

fn load(c: &mut Case, spec: &Spec, dimacs: bool) -> Verdict {
    let (k, edges) = Model::canonical(&spec.edges);
    let want: Edges = edges.into_iter().map(|((u, v), w)| (u, v, w)).collect();
    // also loops and zero weight edges must not exceed the stated number of nodes
    let all = spec.edges.iter().map(|e| e.0.max(e.1) + 1).max().unwrap_or(0).max(k);
    let isolated = c.rng.below(3) * c.rng.below(40);
    let n = if dimacs { all.saturating_add(isolated).min(usize::MAX - 1) } else { k };
    let lines = compose(&mut c.rng, n, &spec.edges, dimacs);
    let text = join(&mut c.rng, &lines);
    let file = Scratch::new(c, if dimacs { "dimacs" } else { "plain" });
    file.write(&text);
    c.about = format!("file ({}):\n{}", if dimacs { "DIMACS" } else { "plain" }, text.chars().take(1500).collect::<String>());
    c.distinct(crate::rng::hash_bytes(text.as_bytes()));
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    let g = catch(|| if dimacs { InputGraph::from_dimacs_file(file.path()) } else { InputGraph::from_file(file.path()) })
        .map_err(|p| format!("a well-formed file is rejected: {}", p.show()))?;
    c.evals(2);
    let got = catch(|| (edges_of(&g), g.get_num_nodes(), g.get_num_edges()))
        .map_err(|p| format!("the read graph is not usable: {}", p.show()))?;
    ensure!(got.0 == want, "read {} instead of {}", show(&got.0), show(&want));
    ensure!(got.1 == n, "read {} nodes instead of {}", got.1, n);
    ensure!(got.2 == want.len(), "{} edges instead of {}", got.2, want.len());
    c.count("accepted_files", 1);
    c.count("files_with_isolated_nodes", (n > k) as u64);
    c.max("file_bytes", text.len() as u64);
    // it can be used, and changed
    if n < 200 && n > 0 {
        let fg = prepare(&g);
        ensure!(fg.get_num_nodes() == n, "the prepared graph has {} nodes instead of {}", fg.get_num_nodes(), n);
        let (s, t) = (c.rng.below(n), c.rng.below(n));
        let m = Model::new(&spec.edges);
        let d = if s < m.n && t < m.n { m.dist(s)[t] } else if s == t { Some(0) } else { None };
        c.evals(1);
        crate::check::check_dist(s, t, d, &calc_path(&fg, s, t))?;
    }
    Ok(())
}

/// our own reading of the maps against the library's
fn reader_map(c: &mut Case) -> Verdict {
    let name = MAPS[c.idx as usize];
    let path = format!("{}/meta/test_maps/{}", repo(), name);
    let spec = Spec { family: name, regime: "original", edges: read_map(name) };
    let (n, edges) = Model::canonical(&spec.edges);
    let edges: Edges = edges.into_iter().map(|((u, v), w)| (u, v, w)).collect();
    let g = catch(|| InputGraph::from_file(&path)).map_err(|p| format!("{} is rejected: {}", name, p.show()))?;
    c.evals(1);
    c.distinct(c.idx);
    ensure!(edges_of(&g) == edges && g.get_num_nodes() == n, "{} is read differently", name);
    c.count("maps", 1);
    Ok(())
}

fn bad_dimacs(c: &mut Case) -> Verdict {
    let spec = gen(&mut c.rng, if c.idx % 4 == 0 { Size::Small } else { Size::Tiny });
    let mut edges = spec.edges.clone();
    if c.rng.chance(10) {
        edges.clear();
    }
    let n = edges.iter().map(|e| e.0.max(e.1) + 1).max().unwrap_or(0) + c.rng.below(2) * c.rng.below(5);
    let mut lines = compose(&mut c.rng, n, &edges, true);
    let rng = &mut c.rng;
    let p = lines.iter().position(|l| l.starts_with("p sp ")).unwrap();
    let arcs: Vec<usize> = (0..lines.len()).filter(|i| lines[*i].starts_with("a ")).collect();
    let m = edges.len();
    const KINDS: &[&str] = &[
        "no problem line", "two problem lines", "different problem lines", "problem line after arcs", "arc missing", "arc too much",
        "stated edges too many", "stated edges too few", "node id zero", "node id too large", "stated nodes too few", "field missing",
        "field too much", "no number", "negative", "fraction", "overflow", "unknown line", "incomplete problem line",
        "problem line with another field", "other problem", "problem line without numbers", "upper case", "no file",
    ];
    let kind = *rng.pick(KINDS);
    let needs_arcs = matches!(
        kind,
        "problem line after arcs" | "arc missing" | "node id zero" | "node id too large" | "stated nodes too few" | "field missing"
            | "field too much" | "no number" | "negative" | "fraction" | "overflow" | "upper case" | "stated edges too few"
    );
    if needs_arcs && m == 0 {
        return Ok(());
    }
    let a = if arcs.is_empty() { 0 } else { *rng.pick(&arcs) };
    let field = rng.range(1, 3);
    // replaces a field of an arc line
    let with = |line: &str, field: usize, text: &str| {
        let mut w: Vec<String> = line.split_whitespace().map(|s| s.to_string()).collect();
        w[field] = text.to_string();
        w.join(" ")
    };
    match kind {
        "no problem line" => {
            lines.remove(p);
        }
        "two problem lines" => {
            let at = rng.range(0, lines.len());
            let l = lines[p].clone();
            lines.insert(at, l);
        }
        "different problem lines" => {
            let at = rng.range(p + 1, lines.len());
            lines.insert(at, format!("p sp {} {}", n + rng.below(3), m + rng.below(3)));
        }
        "problem line after arcs" => {
            let l = lines.remove(p);
            let first = arcs[0] - (p < arcs[0]) as usize;
            let at = rng.range(first + 1, lines.len());
            lines.insert(at, l);
        }
        "arc missing" => {
            lines.remove(a);
        }
        "arc too much" => {
            if m == 0 && n == 0 {
                return Ok(());
            }
            let l = if m > 0 { lines[a].clone() } else { "a 1 1 1".into() };
            let at = rng.range(p + 1, lines.len());
            lines.insert(at, l);
        }
        "stated edges too many" => lines[p] = format!("p sp {} {}", n, m + rng.range(1, 3)),
        "stated edges too few" => lines[p] = format!("p sp {} {}", n, m - rng.range(1, m)),
        "node id zero" => {
            let f = rng.range(1, 2);
            lines[a] = with(&lines[a], f, "0");
        }
        "node id too large" => {
            let f = rng.range(1, 2);
            let id = *rng.pick(&[n + 1, n + 2, n + 1000, 1 << 32, usize::MAX]);
            lines[a] = with(&lines[a], f, &id.to_string());
        }
        "stated nodes too few" => {
            let max = edges.iter().map(|e| e.0.max(e.1) + 1).max().unwrap();
            lines[p] = format!("p sp {} {}", rng.below(max), m);
        }
        "field missing" => {
            let mut w: Vec<&str> = lines[a].split_whitespace().collect();
            w.truncate(rng.range(1, 3));
            let mut s = w.join(" ");
            if w.len() == 1 {
                s.push(' ');
            }
            lines[a] = s;
        }
        "field too much" => lines[a] = format!("{} {}", lines[a].trim_end(), rng.pick(&["1", "0", "x", "c comment"])),
        "no number" => lines[a] = with(&lines[a], field, *rng.pick(&["x", "1x", "x1", "0x10", "1_0", "1,0", "NaN", "inf", "''"])),
        "negative" => lines[a] = with(&lines[a], field, *rng.pick(&["-1", "-0", "-9223372036854775808"])),
        "fraction" => lines[a] = with(&lines[a], field, *rng.pick(&["1.0", "1.5", "1e0", "1e3", ".5", "1."])),
        "overflow" => {
            lines[a] = with(&lines[a], field, *rng.pick(&["18446744073709551616", "99999999999999999999999", "18446744073709551617"]))
        }
        "unknown line" => {
            let at = rng.range(0, lines.len());
            let l = *rng.pick(&[
                "x", "e 1 2 3", "n 1 2", "# comment", "b 1 2 3", "A 1 2 3", "a", "a1 2 3", "aa 1 2 3", "1 2 3", "%", "// c", " a 1 2 3", "q sp 2 3",
                "P sp 2 3", "end",
            ]);
            lines.insert(at, l.to_string());
        }
        "incomplete problem line" => lines[p] = rng.pick(&["p sp ", "p sp 5", "p sp", "p"]).to_string(),
        "problem line with another field" => lines[p] = format!("p sp {} {} {}", n, m, rng.pick(&["0", "7", "x"])),
        "other problem" => lines[p] = format!("p {} {} {}", rng.pick(&["max", "asn", "edge", "", "SP", "spx"]), n, m),
        "problem line without numbers" => {
            let x = *rng.pick(&["x", "-1", "1.5", "1e3", "18446744073709551616"]);
            lines[p] = if rng.chance(50) { format!("p sp {} {}", x, m) } else { format!("p sp {} {}", n, x) };
        }
        "upper case" => lines[a] = lines[a].replace('a', "A"),
        _ => {}
    }
    let file = Scratch::new(c, "bad");
    let text = join(&mut c.rng, &lines);
    if kind != "no file" {
        file.write(&text);
    }
    c.about = format!("{}:\n{}", kind, text.chars().take(1500).collect::<String>());
    c.distinct(crate::rng::hash_bytes(text.as_bytes()));
    if c.idx < 2 {
        c.sample(c.about.chars().take(300).collect::<String>());
    }
    let r = catch(|| InputGraph::from_dimacs_file(file.path()));
    c.evals(1);
    c.count(&format!("rejected: {}", kind), r.is_err() as u64);
    ensure!(r.is_err(), "from_dimacs_file accepts a file with this fault: {}", kind);
    Ok(())
}

fn bad_plain(c: &mut Case) -> Verdict {
    let spec = gen(&mut c.rng, if c.idx % 4 == 0 { Size::Small } else { Size::Tiny });
    let mut lines = compose(&mut c.rng, 0, &spec.edges, false);
    let rng = &mut c.rng;
    let bad = *rng.pick(&[
        "a ", "a 1", "a 1 2", "a 1 2 ", "a 1 2 3 4", "a 1 2 3 x", "a x 2 3", "a 1 x 3", "a 1 2 x", "a -1 2 3", "a 1 -2 3", "a 1 2 -3",
        "a 1.0 2 3", "a 1 2.5 3", "a 1 2 3.5", "a 1 2 1e3", "a 18446744073709551616 2 3", "a 1 18446744073709551616 3",
        "a 1 2 18446744073709551616", "a 1,2,3", "a 1 2 3c", "a a 1 2 3", "a 1 1 -5", "a 1 2 3 # x", "a  ", "a sp 1 2",
    ]);
    let at = rng.range(0, lines.len());
    lines.insert(at, bad.to_string());
    let file = Scratch::new(c, "bad");
    let text = join(&mut c.rng, &lines);
    file.write(&text);
    c.about = format!("line '{}':\n{}", bad, text.chars().take(1500).collect::<String>());
    c.distinct(crate::rng::hash_bytes(text.as_bytes()));
    let r = catch(|| InputGraph::from_file(file.path()));
    c.evals(1);
    c.count(&format!("rejected: '{}'", bad), r.is_err() as u64);
    ensure!(r.is_err(), "from_file accepts a file with the malformed arc line '{}'", bad);
    Ok(())
}
