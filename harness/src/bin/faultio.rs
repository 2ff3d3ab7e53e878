//! C13: every write that to_file and to_dimacs_file make can fail. The system calls of this process go through
//! the functions below, which inject the faults and record what was handed to the operating system.
//! faultio --seed N --tier T --out FILE [--only KIND IDX]
#![allow(dead_code)]
#[path = "../rng.rs"]
mod rng;

use fast_paths::InputGraph;
use rng::Rng;
use std::collections::BTreeMap;
use std::ffi::CString;
use std::os::raw::{c_int, c_long, c_void};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn syscall(num: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
    fn setrlimit(resource: c_int, limit: *const [u64; 2]) -> c_int;
    fn signal(sig: c_int, handler: usize) -> usize;
    fn mkfifo(path: *const i8, mode: u32) -> c_int;
}

const SYS_WRITE: c_long = 1;
const SYS_WRITEV: c_long = 20;
const EINTR: c_int = 4;
const EIO: c_int = 5;

// the plan for the next calls of write
static ACTIVE: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicI64 = AtomicI64::new(0);
static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
static ERRNO: AtomicI32 = AtomicI32::new(0);
static SHORT: AtomicI64 = AtomicI64::new(0);
static ONLY_ONCE: AtomicBool = AtomicBool::new(true);
static INJECTED: AtomicU64 = AtomicU64::new(0);

fn injected() -> Option<c_long> {
    let i = CALLS.fetch_add(1, SeqCst);
    let at = FAIL_AT.load(SeqCst);
    if at < 0 || i < at || (ONLY_ONCE.load(SeqCst) && i > at) {
        return None;
    }
    INJECTED.fetch_add(1, SeqCst);
    let e = ERRNO.load(SeqCst);
    if e == 0 {
        return Some(0);
    }
    unsafe { *__errno_location() = e };
    Some(-1)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, count: usize) -> isize {
    if !ACTIVE.load(SeqCst) || fd <= 2 {
        return syscall(SYS_WRITE, fd, buf, count) as isize;
    }
    if let Some(r) = injected() {
        return r as isize;
    }
    let short = SHORT.load(SeqCst);
    let n = if short > 0 { count.min(short as usize) } else { count };
    syscall(SYS_WRITE, fd, buf, n) as isize
}

#[repr(C)]
pub struct IoVec {
    base: *const c_void,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, n: c_int) -> isize {
    if !ACTIVE.load(SeqCst) || fd <= 2 {
        return syscall(SYS_WRITEV, fd, iov, n) as isize;
    }
    if let Some(r) = injected() {
        return r as isize;
    }
    let short = SHORT.load(SeqCst);
    if short > 0 {
        // the first part that is not empty
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return syscall(SYS_WRITE, fd, v.base, v.len.min(short as usize)) as isize;
            }
        }
        return 0;
    }
    syscall(SYS_WRITEV, fd, iov, n) as isize
}

struct Run {
    dir: String,
    evaluations: u64,
    distinct: std::collections::HashSet<(u8, usize, String)>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(String, String)>,
}

type Edges = Vec<(usize, usize, usize)>;

fn graph(rng: &mut Rng, edges: usize) -> (InputGraph, Edges, usize) {
    let mut g = InputGraph::new();
    let n = 2 + edges / 2;
    for _ in 0..edges {
        let (u, v) = (rng.below(n), rng.below(n));
        let w = if rng.chance(20) { rng.next() as usize } else { rng.range(1, 9999) };
        g.add_edge(u, v, w);
    }
    g.add_edge(0, 1, 1);
    g.freeze();
    let e = g.get_edges().iter().map(|e| (e.from, e.to, e.weight)).collect();
    let n = g.get_num_nodes();
    (g, e, n)
}

/// independent reading of the file
fn complete(text: &str, edges: &Edges, n: usize, dimacs: bool) -> Result<(), String> {
    let mut got: Edges = vec![];
    let mut problem = false;
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.len() == 4 && w[0] == "a" {
            let x: Vec<usize> = w[1..].iter().filter_map(|x| x.parse().ok()).collect();
            if x.len() != 3 {
                return Err(format!("line '{}'", l));
            }
            let off = dimacs as usize;
            got.push((x[0].wrapping_sub(off), x[1].wrapping_sub(off), x[2]));
        } else if w.len() == 4 && w[0] == "p" {
            problem = w[2] == n.to_string() && w[3] == edges.len().to_string();
        } else if !w.is_empty() && w[0] != "c" {
            return Err(format!("line '{}'", l));
        }
    }
    got.sort_unstable();
    if dimacs && !problem {
        return Err("the problem line is missing or wrong".into());
    }
    if got != *edges {
        return Err(format!("{} of {} edges", got.len(), edges.len()));
    }
    Ok(())
}

fn save(g: &InputGraph, path: &str, dimacs: bool) -> Result<Result<(), String>, String> {
    catch_unwind(AssertUnwindSafe(|| if dimacs { g.to_dimacs_file(path) } else { g.to_file(path) }))
        .map(|r| r.map_err(|e| e.to_string()))
        .map_err(|p| {
            p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        })
}

impl Run {
    fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_insert(0) += n;
    }
    fn name(dimacs: bool) -> &'static str {
        if dimacs {
            "to_dimacs_file"
        } else {
            "to_file"
        }
    }
    fn fail(&mut self, what: String, detail: String) {
        if self.violations.len() < 5 {
            self.violations.push((what, detail));
        }
    }
    /// `must_fail`: a write was refused for good; otherwise the call must succeed
    fn judge(
        &mut self,
        r: Result<Result<(), String>, String>,
        must_fail: Option<bool>,
        content: Option<&str>,
        edges: &Edges,
        n: usize,
        dimacs: bool,
        fault: String,
    ) {
        self.evaluations += 1;
        self.distinct.insert((dimacs as u8, edges.len(), fault.clone()));
        let name = Run::name(dimacs);
        let about = format!("{} edges, {}", edges.len(), fault);
        match &r {
            Err(p) => return self.fail(format!("{} panics: {}", name, p), about),
            Ok(Ok(())) => {
                self.count("ok", 1);
                if must_fail == Some(true) {
                    return self.fail(format!("{} returns Ok although a write failed", name), about);
                }
                if let Some(text) = content {
                    if let Err(e) = complete(text, edges, n, dimacs) {
                        return self.fail(format!("{} returns Ok, but the file is not complete: {}", name, e), about);
                    }
                }
            }
            Ok(Err(e)) => {
                self.count("errors", 1);
                if must_fail == Some(false) {
                    return self.fail(format!("{} returns the error '{}' although nothing failed", name, e), about);
                }
            }
        }
        if self.samples.len() < 8 && self.evaluations % 97 == 1 {
            self.samples.push(format!("{} {}: {:?}", name, about, r));
        }
    }

    fn file(&self) -> String {
        format!("{}/graph", self.dir)
    }

    /// the file cannot grow beyond k bytes, for every k
    fn size_limits(&mut self, g: &InputGraph, edges: &Edges, n: usize, step: usize) {
        for dimacs in [false, true] {
            let path = self.file();
            let _ = std::fs::remove_file(&path);
            let r = save(g, &path, dimacs);
            let text = std::fs::read_to_string(&path).unwrap_or_default();
            let size = text.len();
            self.judge(r, Some(false), Some(&text), edges, n, dimacs, "no fault".into());
            let mut ks: Vec<usize> = (0..size).step_by(step).collect();
            ks.extend([size.saturating_sub(2), size.saturating_sub(1), size, size + 1]);
            for b in (0..size).step_by(4096) {
                ks.extend([b.saturating_sub(1), b, b + 1]);
            }
            for k in ks {
                let fault = format!("no space beyond byte {} of {}", k, size);
                let _ = std::fs::remove_file(&path);
                unsafe { setrlimit(1, &[k as u64, u64::MAX]) };
                let r = save(g, &path, dimacs);
                unsafe { setrlimit(1, &[u64::MAX, u64::MAX]) };
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                self.count("size_limits", 1);
                self.judge(r, Some(k < size), Some(&text), edges, n, dimacs, fault);
                if !self.violations.is_empty() {
                    return;
                }
            }
        }
    }

    fn with_plan<T>(&mut self, at: i64, errno: c_int, short: i64, once: bool, f: impl FnOnce() -> T) -> (T, i64, u64) {
        CALLS.store(0, SeqCst);
        INJECTED.store(0, SeqCst);
        FAIL_AT.store(at, SeqCst);
        ERRNO.store(errno, SeqCst);
        SHORT.store(short, SeqCst);
        ONLY_ONCE.store(once, SeqCst);
        ACTIVE.store(true, SeqCst);
        let r = f();
        ACTIVE.store(false, SeqCst);
        (r, CALLS.load(SeqCst), INJECTED.load(SeqCst))
    }

    /// every single write call fails in every way
    fn call_faults(&mut self, g: &InputGraph, edges: &Edges, n: usize) {
        for dimacs in [false, true] {
            for short in [0i64, 4096, 1000] {
                let path = self.file();
                let (r, calls, _) = self.with_plan(-1, 0, short, true, || save(g, &path, dimacs));
                let text = std::fs::read_to_string(&path).unwrap_or_default();
                self.judge(r, Some(false), Some(&text), edges, n, dimacs, format!("writes of at most {} bytes", short));
                self.count("write_calls_seen", calls as u64);
                if calls == 0 {
                    // written in a way that is not intercepted; the size limits still apply
                    self.count("no_calls_intercepted", 1);
                    continue;
                }
                let kinds: [(c_int, &str); 7] =
                    [(EIO, "EIO"), (28, "ENOSPC"), (122, "EDQUOT"), (27, "EFBIG"), (32, "EPIPE"), (EINTR, "EINTR"), (0, "zero")];
                for (errno, name) in kinds {
                    for once in [true, false] {
                        if errno == EINTR && !once {
                            continue;
                        }
                        let step = 1 + calls / 60;
                        let mut ats: Vec<i64> = (0..calls).step_by(step as usize).collect();
                        ats.push(calls - 1);
                        for at in ats {
                            let _ = std::fs::remove_file(&path);
                            let (r, _, injected) = self.with_plan(at, errno, short, once, || save(g, &path, dimacs));
                            let text = std::fs::read_to_string(&path).unwrap_or_default();
                            // an interrupted call is simply repeated
                            let must = injected > 0 && errno != EINTR;
                            self.count("injected_faults", injected.min(1));
                            let fault = format!(
                                "{} at write {} of {} (short {}, {})",
                                name,
                                at,
                                calls,
                                short,
                                if once { "once" } else { "from then on" }
                            );
                            self.judge(r, if errno == EINTR { None } else { Some(must) }, Some(&text), edges, n, dimacs, fault);
                            if !self.violations.is_empty() {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }

    /// targets that are no usual files
    fn places(&mut self, g: &InputGraph, edges: &Edges, n: usize) {
        for dimacs in [false, true] {
            let dir = self.dir.clone();
            let long = format!("{}/{}", dir, "x".repeat(300));
            let missing = format!("{}/missing/graph", dir);
            let below_file = {
                let f = self.file();
                let _ = std::fs::write(&f, "x");
                format!("{}/graph", f)
            };
            // only through links in the scratch directory, so that code that removes or replaces its target does no harm
            let full = format!("{}/full", dir);
            let null = format!("{}/null", dir);
            for (link, device) in [(&full, "/dev/full"), (&null, "/dev/null")] {
                let _ = std::fs::remove_file(link);
                let _ = std::os::unix::fs::symlink(device, link);
            }
            let list = [
                (full.as_str(), "a full device"),
                (dir.as_str(), "a directory"),
                (missing.as_str(), "a directory that does not exist"),
                (below_file.as_str(), "below a file"),
                (long.as_str(), "a name that is too long"),
                ("", "an empty name"),
                ("a\0b", "a name with a zero byte"),
            ];
            for (path, what) in list {
                use std::os::unix::fs::FileTypeExt;
                if path == full && !std::fs::metadata(path).is_ok_and(|m| m.file_type().is_char_device()) {
                    continue;
                }
                let r = save(g, path, dimacs);
                if path == full && !std::fs::symlink_metadata(path).is_ok_and(|m| m.file_type().is_symlink()) {
                    // the link itself has been replaced
                    let text = std::fs::read_to_string(path).unwrap_or_default();
                    self.judge(r, None, Some(&text), edges, n, dimacs, what.into());
                } else {
                    self.judge(r, Some(true), None, edges, n, dimacs, what.into());
                }
                self.count("places", 1);
            }
            let r = save(g, &null, dimacs);
            self.judge(r, Some(false), None, edges, n, dimacs, "the null device".into());
        }
    }

    /// a reader that goes away after k bytes: more than the pipe can hold can not have been written
    fn pipes(&mut self, g: &InputGraph, edges: &Edges, n: usize, rng: &mut Rng) {
        use std::io::Read;
        for dimacs in [false, true] {
            for i in 0..6 {
                let path = format!("{}/fifo{}", self.dir, i);
                let _ = std::fs::remove_file(&path);
                let p = CString::new(path.clone()).unwrap();
                if unsafe { mkfifo(p.as_ptr() as *const _, 0o600) } != 0 {
                    self.count("no_fifo", 1);
                    return;
                }
                let all = i == 0;
                let k = rng.below(100_000);
                let q = path.clone();
                let reader = std::thread::spawn(move || {
                    let mut f = std::fs::File::open(q).unwrap();
                    let mut v = vec![];
                    if all {
                        f.read_to_end(&mut v).unwrap();
                    } else {
                        v = vec![0; k];
                        f.read_exact(&mut v).unwrap();
                    }
                    v
                });
                let r = save(g, &path, dimacs);
                let v = reader.join().unwrap();
                let text = String::from_utf8_lossy(&v).to_string();
                let fault = if all { "a pipe".to_string() } else { format!("the reader of a pipe left after {} bytes", k) };
                self.judge(r, Some(!all), if all { Some(&text) } else { None }, edges, n, dimacs, fault);
                self.count("pipes", 1);
                let _ = std::fs::remove_file(&path);
                if !self.violations.is_empty() {
                    return;
                }
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| args.iter().position(|a| a == name).map(|i| args[i + 1].clone());
    let seed: u64 = opt("--seed").map_or(1, |s| s.parse::<i64>().unwrap() as u64);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let dir = format!("{}/faultio-{}", std::env::var("FP_SCRATCH").unwrap_or_else(|_| "/verif/scratch".into()), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe { signal(25, 1) }; // SIGXFSZ is ignored, so that writes beyond the limit return an error
    let mut run = Run {
        dir: dir.clone(),
        evaluations: 0,
        distinct: Default::default(),
        counters: Default::default(),
        samples: vec![],
        violations: vec![],
    };
    let start = std::time::Instant::now();
    let rounds = if thorough { 12 } else { 1 };
    'all: for round in 0..rounds {
        let mut rng = Rng::new(seed, "faultio", round);
        for (edges, step) in [(0, 1), (1, 1), (3, 1), (12, 1), (60, 1), (500, 1), (1500, 13), (4000, 97)] {
            let step = if thorough { 1 } else { step };
            let edges = edges + if edges > 20 { rng.below(edges / 2) } else { 0 };
            let (g, e, n) = graph(&mut rng, edges);
            run.size_limits(&g, &e, n, step);
            run.call_faults(&g, &e, n);
            run.places(&g, &e, n);
            if !run.violations.is_empty() {
                break 'all;
            }
        }
        let (g, e, n) = graph(&mut rng, 30_000);
        run.pipes(&g, &e, n, &mut rng);
        run.call_faults(&g, &e, n);
        if !run.violations.is_empty() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let json = serde_json::json!({
        "evaluations": run.evaluations,
        "distinct_nontrivial": run.distinct.len(),
        "samples": run.samples,
        "counters": run.counters,
        "seconds": start.elapsed().as_secs_f64(),
        "violations": run.violations.iter().map(|(m, d)| serde_json::json!({
            "message": m, "detail": d
        })).collect::<Vec<_>>(),
    });
    let text = serde_json::to_string_pretty(&json).unwrap();
    match opt("--out") {
        Some(p) => std::fs::write(p, text).unwrap(),
        None => println!("{}", text),
    }
    std::process::exit(if run.violations.is_empty() { 0 } else { 1 });
}
