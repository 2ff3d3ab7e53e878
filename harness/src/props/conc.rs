//! C14: many threads query shared prepared graphs and prepare graphs at the same time.
use super::determ::bytes;
use super::reuse::*;
use crate::check::*;
use crate::gen::*;
use crate::rng::*;
use crate::run::*;
use fast_paths::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 10.0 } else { 1.0 };
    ctx.run_serial("traits", 1, 1, 0.0, traits);
    ctx.run_serial("shared", 12, 1_000_000, 14.0 * t, |c| shared(c, false));
    ctx.run_serial("maps", 2, 10_000, 8.0 * t, |c| shared(c, true));
    ctx.run_serial("handover", 20, 1_000_000, 8.0 * t, handover);
    ctx.run_serial("preparations", 5, 1_000_000, 10.0 * t, preparations);
}

// Whether a type is Send and Sync is asked in a way that still compiles if it is not.
struct Ask<T>(std::marker::PhantomData<T>);
trait Otherwise {
    const SYNC: bool = false;
    const SEND: bool = false;
}
impl<T> Otherwise for Ask<T> {}
struct AskSync<T>(std::marker::PhantomData<T>);
impl<T> Otherwise for AskSync<T> {}
impl<T: Sync> AskSync<T> {
    const SYNC: bool = true;
}
impl<T: Send> Ask<T> {
    const SEND: bool = true;
}

fn traits(c: &mut Case) -> Verdict {
    c.evals(4);
    ensure!(AskSync::<FastGraph>::SYNC, "a prepared graph cannot be shared by threads (it is not Sync)");
    ensure!(Ask::<FastGraph>::SEND, "a prepared graph cannot be handed to another thread (it is not Send)");
    ensure!(Ask::<PathCalculator>::SEND, "a path calculator cannot be handed to another thread (it is not Send)");
    ensure!(AskSync::<InputGraph>::SYNC, "an input graph cannot be shared by threads (it is not Sync)");
    Ok(())
}

struct Shared {
    fg: FastGraph,
    bytes: Vec<u8>,
    ordering: Vec<usize>,
    queries: Vec<(Query, Option<ShortestPath>)>,
}

struct Job {
    input: InputGraph,
    params: Option<(f32, usize, usize, usize)>,
    edges: usize,
    bytes: Vec<u8>,
}

struct World {
    graphs: Vec<Shared>,
    jobs: Vec<Job>,
    /// has another number of nodes
    other: FastGraph,
}

fn do_job(j: &Job) -> FastGraph {
    match j.params {
        None => prepare(&j.input),
        Some((a, b, c, d)) => prepare_with_params(&j.input, &Params::new(a, b, c, d)),
    }
}

fn job(c: &mut Case, size: Size) -> Job {
    let spec = gen(&mut c.rng, size);
    let input = spec.input();
    let params =
        if c.rng.chance(50) { None } else { Some((0.1, c.rng.range(1, 100), c.rng.range(1, 5), c.rng.range(1, 100))) };
    let edges = input.get_num_edges();
    let mut j = Job { input, params, edges, bytes: vec![] };
    j.bytes = bytes(&do_job(&j));
    j
}

fn world(c: &mut Case, maps: bool) -> World {
    let slow = cfg!(sanitized);
    let mut fgs = vec![];
    if maps {
        let (spec, _) = super::query::map_input(c);
        c.about = format!("map {} ", spec.family);
        fgs.push(prepare(&spec.input()));
    } else {
        let size = *c.rng.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]);
        let k = c.rng.range(1, 3);
        fgs = graphs(c, size, k);
        let more = c.rng.below(2);
        for _ in 0..more {
            fgs.extend(graphs(c, Size::Tiny, 2));
        }
    }
    let max_n = fgs.iter().map(|g| g.get_num_nodes()).max().unwrap();
    let mut r = vec![];
    for fg in fgs {
        let n = fg.get_num_nodes();
        let count = if maps && slow { 60 } else { 250 };
        let pool: Vec<usize> = (0..3).map(|_| c.rng.below(n)).collect();
        let queries: Vec<_> = (0..count)
            .map(|_| {
                let q = random_query(c, n, &pool);
                let a = ask(&mut create_calculator(&fg), &fg, &q);
                (q, a)
            })
            .collect();
        for (_, a) in &queries {
            c.count("expected_answers_with_path", a.is_some() as u64);
        }
        c.distinct(hash_bytes(&bytes(&fg)));
        r.push(Shared { bytes: bytes(&fg), ordering: get_node_ordering(&fg), fg, queries });
    }
    let jobs = (0..6).map(|i| job(c, if i < 4 { Size::Tiny } else { Size::Small })).collect();
    let mut g = InputGraph::new();
    g.add_edge(0, max_n, 4);
    g.freeze();
    World { graphs: r, jobs, other: prepare(&g) }
}

/// What the threads observed. Relaxed operations only, so that a race detector is not misled.
struct Seen {
    active: AtomicU64,
    most_active: AtomicU64,
    overlapping: AtomicU64,
    total: AtomicU64,
    order: Vec<AtomicU8>,
    failure: Mutex<Option<String>>,
    failed: AtomicU64,
}

impl Seen {
    fn new() -> Self {
        Seen {
            active: 0.into(),
            most_active: 0.into(),
            overlapping: 0.into(),
            total: 0.into(),
            order: (0..4096).map(|_| AtomicU8::new(0)).collect(),
            failure: Mutex::new(None),
            failed: 0.into(),
        }
    }
    fn begin(&self, thread: usize) {
        let before = self.active.fetch_add(1, Relaxed);
        self.most_active.fetch_max(before + 1, Relaxed);
        if before > 0 {
            self.overlapping.fetch_add(1, Relaxed);
        }
        let at = self.total.fetch_add(1, Relaxed) as usize;
        if at < self.order.len() {
            self.order[at].store(thread as u8 + 1, Relaxed);
        }
    }
    fn end(&self) {
        self.active.fetch_sub(1, Relaxed);
    }
    fn fail(&self, m: String) {
        *self.failure.lock().unwrap() = Some(m);
        self.failed.store(1, Relaxed);
    }
    fn report(&self, c: &mut Case, threads: usize) -> Verdict {
        let order: Vec<u8> = self.order.iter().map(|a| a.load(Relaxed)).collect();
        c.distinct(hash_bytes(&order));
        let switches = order.windows(2).filter(|p| p[0] != p[1] && p[1] > 0).count();
        c.evals(self.total.load(Relaxed));
        c.count("operations", self.total.load(Relaxed));
        c.count("operations_begun_while_others_ran", self.overlapping.load(Relaxed));
        c.count("switches_between_threads_in_the_first_4096_operations", switches as u64);
        c.max("operations_at_the_same_time", self.most_active.load(Relaxed));
        c.max("threads", threads as u64);
        match self.failure.lock().unwrap().take() {
            Some(m) => Err(format!("with {} threads: {}", threads, m)),
            None => Ok(()),
        }
    }
}

fn in_threads(c: &mut Case, threads: usize, f: impl Fn(usize, Rng, &Seen) -> Verdict + Sync) -> Verdict {
    let seen = Seen::new();
    let barrier = Barrier::new(threads);
    let seeds: Vec<Rng> = (0..threads).map(|i| Rng::new(c.rng.next(), "thread", i as u64)).collect();
    std::thread::scope(|s| {
        for (i, rng) in seeds.into_iter().enumerate() {
            let (seen, f, barrier) = (&seen, &f, &barrier);
            s.spawn(move || {
                barrier.wait();
                match catch(|| f(i, rng, seen)) {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => seen.fail(m),
                    Err(p) if p.in_harness() => harness_error(&format!("thread: {}", p.show())),
                    Err(p) => seen.fail(format!("panic {}", p.show())),
                }
            });
        }
    });
    seen.report(c, threads)
}

fn wrong(q: &Query, got: &Option<ShortestPath>, want: &Option<ShortestPath>) -> String {
    format!("{}: {} instead of {}", show_query(q), show(got), show(want))
}

/// gives other threads an opportunity to interfere
fn delay(rng: &mut Rng) {
    match rng.below(40) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..rng.below(2000) {
                std::hint::spin_loop();
            }
        }
        2 if rng.chance(5) => std::thread::sleep(std::time::Duration::from_micros(50)),
        _ => {}
    }
}

fn shared(c: &mut Case, maps: bool) -> Verdict {
    let slow = cfg!(sanitized);
    let w = Share(world(c, maps));
    let threads = *c.rng.pick(&[2, 3, 4, 8, 8, 8, 16]);
    let ops = if slow { if maps { 40 } else { 150 } } else if maps { 400 } else { 3000 };
    // few graphs and queries are used again and again, or all of them
    let narrow = c.rng.chance(50);
    let with_jobs = c.rng.chance(60);
    let rejects = c.rng.chance(40);
    c.count("worlds", 1);
    c.about.push_str(&format!("threads={} ", threads));
    let r = in_threads(c, threads, |thread, mut rng, seen| {
        let w: &World = w.get();
        // one calculator for each number of nodes
        let mut calcs: HashMap<usize, PathCalculator> = HashMap::new();
        for _ in 0..ops {
            if seen.failed.load(Relaxed) > 0 {
                break;
            }
            delay(&mut rng);
            let g = &w.graphs[rng.below(w.graphs.len())];
            let n = g.fg.get_num_nodes();
            let (q, want) = if narrow { &g.queries[rng.below(2)] } else { rng.pick(&g.queries) };
            seen.begin(thread);
            let r: Verdict = match rng.below(100) {
                0..=1 if with_jobs => {
                    let j = rng.pick(&w.jobs);
                    let fg = do_job(j);
                    if bytes(&fg) != j.bytes {
                        return Err("a graph prepared while other threads ran differs".into());
                    }
                    Ok(())
                }
                2 if with_jobs => {
                    let j = rng.pick(&w.jobs);
                    ensure!(j.input.get_edges().len() == j.edges, "the input graph changed");
                    let copy = j.input.clone();
                    ensure!(bytes(&prepare(&copy)).len() > 0, "no bytes");
                    Ok(())
                }
                3 if !maps => {
                    ensure!(bytes(&g.fg) == g.bytes, "a shared prepared graph changed");
                    Ok(())
                }
                4 if !maps => {
                    // a copy lives and dies while others work with the original
                    let copy = g.fg.clone();
                    let got = ask(&mut create_calculator(&copy), &copy, q);
                    ensure!(same(&got, want), "copy of the graph: {}", wrong(q, &got, want));
                    Ok(())
                }
                5 => {
                    ensure!(get_node_ordering(&g.fg) == g.ordering, "the ordering of a shared graph changed");
                    Ok(())
                }
                6..=7 if rejects => {
                    let calc = calcs.entry(n).or_insert_with(|| create_calculator(&g.fg));
                    let bad = n + rng.below(2);
                    let other = &w.other;
                    let kind = rng.below(4);
                    let _ = catch(|| match kind {
                        0 => calc.calc_path(&g.fg, bad, 0),
                        1 => calc.calc_path(&g.fg, 0, bad),
                        2 => calc.calc_path_multiple_sources_and_targets(&g.fg, vec![], vec![(0, 0)]),
                        _ => calc.calc_path(other, 0, 0),
                    });
                    Ok(())
                }
                8..=20 => {
                    let got = match q {
                        Query::Single(s, t) => calc_path(&g.fg, *s, *t),
                        Query::Multi(s, t) => calc_path_multiple_sources_and_targets(&g.fg, s.clone(), t.clone()),
                    };
                    ensure!(same(&got, want), "free function: {}", wrong(q, &got, want));
                    Ok(())
                }
                21 => {
                    calcs.remove(&n);
                    Ok(())
                }
                _ => {
                    let calc = calcs.entry(n).or_insert_with(|| create_calculator(&g.fg));
                    let got = ask(calc, &g.fg, q);
                    ensure!(same(&got, want), "{}", wrong(q, &got, want));
                    Ok(())
                }
            };
            seen.end();
            r?;
        }
        Ok(())
    });
    // and nothing is left behind
    for g in &w.get().graphs {
        ensure!(bytes(&g.fg) == g.bytes, "a shared prepared graph has changed");
    }
    r
}

/// calculators move from thread to thread, graphs are created and dropped by different threads
fn handover(c: &mut Case) -> Verdict {
    let w = Share(world(c, false));
    let threads = *c.rng.pick(&[2, 4, 8]);
    let ops = if cfg!(sanitized) { 60 } else { 600 };
    let pools: Vec<Mutex<Vec<Share<PathCalculator>>>> = w.get().graphs.iter().map(|_| Mutex::new(vec![])).collect();
    // graphs that were just prepared by some thread
    let fresh: Mutex<Vec<(usize, Share<FastGraph>)>> = Mutex::new(vec![]);
    c.about.push_str(&format!("threads={} ", threads));
    in_threads(c, threads, |thread, mut rng, seen| {
        let w: &World = w.get();
        for _ in 0..ops {
            if seen.failed.load(Relaxed) > 0 {
                break;
            }
            delay(&mut rng);
            if rng.chance(10) {
                let k = rng.below(w.jobs.len());
                seen.begin(thread);
                let fg = do_job(&w.jobs[k]);
                seen.end();
                fresh.lock().unwrap().push((k, Share(fg)));
                continue;
            }
            if rng.chance(10) {
                let taken = fresh.lock().unwrap().pop();
                if let Some((k, fg)) = taken {
                    ensure!(bytes(fg.get()) == w.jobs[k].bytes, "a graph prepared by another thread differs");
                }
                continue;
            }
            let i = rng.below(w.graphs.len());
            let g = &w.graphs[i];
            let calc = pools[i].lock().unwrap().pop();
            let mut calc = calc.unwrap_or_else(|| Share(create_calculator(&g.fg)));
            let (q, want) = rng.pick(&g.queries);
            seen.begin(thread);
            let got = ask(&mut calc.0, &g.fg, q);
            seen.end();
            ensure!(same(&got, want), "calculator from another thread: {}", wrong(q, &got, want));
            pools[i].lock().unwrap().push(calc);
        }
        Ok(())
    })
}

/// all threads prepare: the same input, or different ones
fn preparations(c: &mut Case) -> Verdict {
    let slow = cfg!(sanitized);
    let size = if slow { Size::Small } else { *c.rng.pick(&[Size::Small, Size::Medium]) };
    let jobs: Vec<Job> = (0..c.rng.range(1, 4)).map(|_| job(c, size)).collect();
    for j in &jobs {
        c.distinct(hash_bytes(&j.bytes));
    }
    let jobs = Share(jobs);
    let threads = *c.rng.pick(&[2, 4, 8, 8, 12]);
    in_threads(c, threads, |thread, mut rng, seen| {
        for _ in 0..(if slow { 4 } else { 15 }) {
            if seen.failed.load(Relaxed) > 0 {
                break;
            }
            let j = rng.pick(jobs.get());
            seen.begin(thread);
            let fg = do_job(j);
            seen.end();
            ensure!(bytes(&fg) == j.bytes, "a graph prepared while other threads prepare differs");
        }
        Ok(())
    })
}
