//! C15: everything that is allocated is freed again. The same life of the library is repeated; if the number
//! of live allocations grows each time, something is leaked. One thread, so that the count is exact.
#![allow(dead_code)]
#[macro_use]
#[path = "../run.rs"]
mod run;
#[path = "../rng.rs"]
mod rng;
#[path = "../ubcore.rs"]
mod ubcore;

use run::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        TOTAL.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(1, Relaxed);
        TOTAL.fetch_add(1, Relaxed);
        BYTES.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

fn main() {
    cli(1, |ctx| {
        // without allocations
        std::panic::set_hook(Box::new(|_| {}));
        let t = if ctx.thorough { 12.0 } else { 1.0 };
        ctx.run_cases("tiny", 100, 10_000_000, 6.0 * t, |c| repeat(c, 8, 12));
        ctx.run_cases("creeping", 20, 10_000_000, 5.0 * t, creeping);
        ctx.run_cases("small", 40, 10_000_000, 7.0 * t, |c| repeat(c, 40, 20));
        ctx.run_cases("medium", 5, 10_000_000, 7.0 * t, |c| repeat(c, 250, 20));
    })
}

fn repeat(c: &mut Case, size: usize, effort: usize) -> Verdict {
    c.about = format!("random use of the API, graphs with up to {} nodes", size);
    let dir = std::env::var("FP_SCRATCH").unwrap_or_else(|_| "/verif/scratch".into());
    let mut grown = vec![];
    let mut log = ubcore::Log::default();
    let before_all = TOTAL.load(Relaxed);
    for i in 0..5 {
        log = Default::default();
        let (live, bytes) = (LIVE.load(Relaxed), BYTES.load(Relaxed));
        let mut rng = c.rng.clone();
        ubcore::round(&mut rng, size, effort, Some(&dir), &mut log);
        drop(rng);
        // the first time may fill caches
        if i > 0 {
            grown.push((LIVE.load(Relaxed) - live, BYTES.load(Relaxed) - bytes));
        }
    }
    c.evals(4);
    c.count("calls", log.calls * 5);
    c.count("calls_that_panicked", log.panics * 5);
    c.count("allocations_followed", TOTAL.load(Relaxed) - before_all);
    c.distinct(log.hash);
    let all = |f: &dyn Fn(&(i64, i64)) -> bool| grown.iter().all(f);
    ensure!(
        !all(&|g| g.0 > 0) && !all(&|g| g.1 > 0),
        "memory leak: live allocations and bytes grow by {:?} when the same calls are repeated",
        grown
    );
    Ok(())
}

/// slow growth: still growing between 100, 200, 400 and 800 repetitions
fn creeping(c: &mut Case) -> Verdict {
    c.about = "a few calls, repeated 800 times".into();
    let mut at = Vec::with_capacity(8);
    for i in 1..=800 {
        let mut log = ubcore::Log::default();
        let mut rng = c.rng.clone();
        ubcore::round(&mut rng, 5, 3, None, &mut log);
        c.count("calls", log.calls);
        if i == 100 || i == 200 || i == 400 || i == 800 {
            at.push((LIVE.load(Relaxed), BYTES.load(Relaxed)));
        }
    }
    c.evals(3);
    // the list itself is allocated before the first entry is taken
    let grows = |f: &dyn Fn(&(i64, i64)) -> i64| at.windows(2).all(|p| f(&p[1]) - f(&p[0]) >= 8);
    ensure!(!grows(&|p| p.0) && !grows(&|p| p.1), "memory leak: live (allocations, bytes) after 100, 200, 400, 800 repetitions: {:?}", at);
    Ok(())
}
