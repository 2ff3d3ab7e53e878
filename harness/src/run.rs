//! Case runner: deterministic cases on worker threads, panics and deaths attributed to a case,
//! counters of what was really observed.
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub out: Option<String>,
    pub inflight: Option<std::fs::File>,
    /// replay of a single case
    pub only: Option<(String, u64)>,
    pub threads: usize,
    /// multiplies the time caps (slow builds)
    pub scale: f64,
    pub total: Mutex<Stats>,
    pub violations: Mutex<Vec<Violation>>,
    pub stop: AtomicBool,
    pub slots: Vec<AtomicU64>,
    pub hang_limit: u64,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub stream: String,
    pub idx: u64,
    pub message: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
    }
}

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub idx: u64,
    pub rng: Rng,
    pub stats: Stats,
    /// description of the case for the reports
    pub about: String,
}

impl<'a> Case<'a> {
    pub fn thorough(&self) -> bool {
        self.ctx.thorough
    }
    /// n oracle decisions were made
    pub fn evals(&mut self, n: u64) {
        self.stats.evaluations += n;
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.stats.counters.get_mut(what) {
            *c += n;
        } else {
            self.stats.counters.insert(what.to_string(), n);
        }
    }
    pub fn max(&mut self, what: &str, n: u64) {
        let e = self.stats.maxima.entry(what.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// this case was not trivial, and it is identified by the hash
    pub fn distinct(&mut self, hash: u64) {
        self.stats.distinct.insert(hash);
    }
    pub fn sample(&mut self, s: String) {
        if self.stats.samples.len() < 2 {
            self.stats.samples.push(s);
        }
    }
}

pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)+) => {
        if !$cond {
            return Err(format!($($fmt)+));
        }
    };
}

/// the machinery itself does not work: neither a pass nor a violation
pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR {}", msg);
    std::process::exit(2);
}

/// can be called where no Result can be returned
pub fn violate(msg: &str) -> ! {
    panic!("VIOLATION: {}", msg);
}

#[derive(Clone, Debug, Default)]
pub struct PanicInfo {
    pub message: String,
    pub file: String,
    pub line: u32,
}

impl PanicInfo {
    pub fn in_harness(&self) -> bool {
        (self.file.starts_with("src/") || self.file.contains("/verif/")) && !self.message.starts_with("VIOLATION: ")
    }
    pub fn show(&self) -> String {
        format!("'{}' at {}:{}", self.message, self.file, self.line)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = info.location().map_or(("?".into(), 0), |l| (l.file().to_string(), l.line()));
        let p = PanicInfo { message, file, line };
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(p));
    }));
}

/// runs the closure, a panic becomes an Err
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    LAST_PANIC.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default()),
    }
}

// The library logs through the log crate. A logger like that of an application formats every record, but only while a
// thread wants it, as this takes time.
thread_local! {
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static LOGGED: Cell<u64> = const { Cell::new(0) };
}

struct Formatting;
impl log::Log for Formatting {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, record: &log::Record) {
        if LOGGING.get() {
            let text = format!("{} {} {}", record.level(), record.target(), record.args());
            LOGGED.set(LOGGED.get() + 1);
            std::hint::black_box(text);
        }
    }
    fn flush(&self) {}
}

/// whether records of this thread are formatted
pub fn logging(on: bool) {
    LOGGING.set(on);
}

const SLOT: usize = 96;

impl Ctx {
    fn slot(&self, i: usize, text: &str) {
        if let Some(f) = &self.inflight {
            let mut b = format!("{:<w$}", text, w = SLOT - 1).into_bytes();
            b.truncate(SLOT - 1);
            b.push(b'\n');
            let _ = f.write_at(&b, (i * SLOT) as u64);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn violation(&self, stream: &str, idx: u64, message: String, detail: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 5 {
            v.push(Violation { stream: stream.into(), idx, message, detail });
        }
        self.stop.store(true, Ordering::Relaxed);
    }
    pub fn case(&self, stream: &str, idx: u64) -> Case<'_> {
        Case { ctx: self, idx, rng: Rng::new(self.seed, stream, idx), stats: Stats::default(), about: String::new() }
    }
    pub fn merge(&self, s: Stats) {
        self.total.lock().unwrap().merge(s);
    }
    fn run_one(&self, stream: &str, idx: u64, worker: usize, f: &(impl Fn(&mut Case) -> Verdict + Sync)) {
        self.slot(worker, &format!("{} {} {}", std::process::id(), stream, idx));
        self.slots[worker].store(1 + self.start.elapsed().as_secs(), Ordering::Relaxed);
        let mut case = self.case(stream, idx);
        let t = Timer::new();
        logging(idx % 4 == 3);
        LOGGED.set(0);
        let r = catch(|| f(&mut case));
        logging(false);
        case.count("log_records_formatted", LOGGED.get());
        let secs = t.secs();
        case.max(&format!("slowest_ms_{}", stream), (secs * 1000.0) as u64);
        if secs > 5.0 && std::env::var("FP_VERBOSE").is_ok() {
            let about: String = case.about.chars().take(120).collect();
            eprintln!("{} {} took {:.1} s: {}", stream, idx, secs, about);
        }
        self.slots[worker].store(0, Ordering::Relaxed);
        self.slot(worker, "");
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => self.violation(stream, idx, m, case.about.clone()),
            Err(p) if p.in_harness() => {
                harness_error(&format!("panic in the harness, case {} {}: {} [{}]", stream, idx, p.show(), case.about))
            }
            Err(p) => {
                let m = match p.message.strip_prefix("VIOLATION: ") {
                    Some(m) => m.to_string(),
                    None => format!("unexpected panic {}", p.show()),
                };
                self.violation(stream, idx, m, case.about.clone())
            }
        }
        if idx == 0 && case.stats.samples.is_empty() && !case.about.is_empty() {
            let about: String = case.about.chars().take(400).collect();
            case.stats.samples.push(format!("{} 0: {}", stream, about));
        }
        self.merge(std::mem::take(&mut case.stats));
    }

    /// Runs cases 0.. of the stream on all threads: at least `min` and at most `max` cases, no new ones
    /// beyond `min` once `secs` have passed.
    pub fn run_cases(&self, stream: &str, min: u64, max: u64, secs: f64, f: impl Fn(&mut Case) -> Verdict + Sync) {
        self.run_with(self.threads, stream, min, max, secs, f)
    }

    fn run_with(
        &self,
        threads: usize,
        stream: &str,
        min: u64,
        max: u64,
        secs: f64,
        f: impl Fn(&mut Case) -> Verdict + Sync,
    ) {
        if let Some((s, idx)) = &self.only {
            if s == stream {
                // with the same stack as below
                std::thread::scope(|scope| {
                    let f = &f;
                    std::thread::Builder::new()
                        .stack_size(2 << 20)
                        .spawn_scoped(scope, move || self.run_one(stream, *idx, 0, f))
                        .unwrap();
                });
            }
            return;
        }
        if self.stopped() {
            return;
        }
        let begin = Instant::now();
        let cap = Duration::from_secs_f64(secs * self.scale);
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        std::thread::scope(|scope| {
            for worker in 0..threads {
                let (next, done, f) = (&next, &done, &f);
                // the default stack size of a thread
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(scope, move || loop {
                        if self.stopped() {
                            return;
                        }
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= max || (idx >= min && begin.elapsed() > cap) {
                            return;
                        }
                        self.run_one(stream, idx, worker, f);
                        done.fetch_add(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
        });
        let done = done.load(Ordering::Relaxed);
        let mut s = Stats::default();
        s.counters.insert(format!("cases_{}", stream), done);
        self.merge(s);
        if done == 0 && !self.stopped() {
            harness_error(&format!("no case of {} was run", stream));
        }
    }

    /// the same, one case at a time, for cases that start threads themselves
    pub fn run_serial(&self, stream: &str, min: u64, max: u64, secs: f64, f: impl Fn(&mut Case) -> Verdict + Sync) {
        self.run_with(1, stream, min, max, secs, f)
    }
}

/// ends the process if a case does not end; the driver then examines the case on its own
pub fn watchdog(ctx: &'static Ctx) {
    if ctx.hang_limit == 0 {
        return;
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = ctx.start.elapsed().as_secs();
        for s in &ctx.slots {
            let t = s.load(Ordering::Relaxed);
            if t > 0 && now + 1 - t > ctx.hang_limit {
                std::process::exit(77);
            }
        }
    });
}

/// Instant based throttle for inner loops
pub struct Timer(Instant);
impl Timer {
    pub fn new() -> Self {
        Timer(Instant::now())
    }
    pub fn secs(&self) -> f64 {
        self.0.elapsed().as_secs_f64()
    }
}

/// Hands a value to threads even if its type does not allow this any more; C14 checks that it does.
pub struct Share<T>(pub T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T> Share<T> {
    pub fn get(&self) -> &T {
        &self.0
    }
}

/// reads the command line, runs the cases and writes the result
pub fn cli(max_threads: usize, f: impl Fn(&'static Ctx)) {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let only = args.iter().position(|a| a == "--only").map(|i| (args[i + 1].clone(), args[i + 2].parse().unwrap()));
    let threads = opt("--threads").map_or(max_threads, |s| s.parse().unwrap());
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        prop: args[1].clone(),
        seed: opt("--seed").map_or(1, |s| s.parse::<i64>().unwrap() as u64),
        thorough: opt("--tier").map_or(false, |t| t == "thorough"),
        start: Instant::now(),
        out: opt("--out"),
        inflight: opt("--inflight").map(|p| std::fs::File::create(p).unwrap()),
        hang_limit: if only.is_some() { 0 } else { opt("--hang").map_or(100, |s| s.parse().unwrap()) },
        only,
        threads,
        scale: opt("--scale").map_or(1.0, |s| s.parse().unwrap()),
        total: Mutex::new(Stats::default()),
        violations: Mutex::new(vec![]),
        stop: Default::default(),
        slots: (0..threads).map(|_| Default::default()).collect(),
    }));
    install_panic_hook();
    if log::set_logger(&Formatting).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
    watchdog(ctx);
    f(ctx);
    finish(ctx);
}

fn finish(ctx: &Ctx) {
    let t = ctx.total.lock().unwrap();
    let v = ctx.violations.lock().unwrap();
    let json = serde_json::json!({
        "evaluations": t.evaluations,
        "distinct_nontrivial": t.distinct.len(),
        "samples": t.samples,
        "counters": t.counters,
        "maxima": t.maxima,
        "seconds": ctx.start.elapsed().as_secs_f64(),
        "violations": v.iter().map(|v| serde_json::json!({
            "stream": v.stream, "idx": v.idx, "message": v.message, "detail": v.detail
        })).collect::<Vec<_>>(),
    });
    let text = serde_json::to_string_pretty(&json).unwrap();
    match &ctx.out {
        Some(p) => std::fs::write(p, text).unwrap_or_else(|e| harness_error(&format!("{}: {}", p, e))),
        None => println!("{}", text),
    }
    std::process::exit(if v.is_empty() { 0 } else { 1 });
}
