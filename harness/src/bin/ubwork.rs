//! C15: the workload for Miri: ubwork SEED FIRST COUNT
#![allow(dead_code)]
#[path = "../rng.rs"]
mod rng;
#[path = "../ubcore.rs"]
mod ubcore;

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut total = ubcore::Log::default();
    for i in a[1]..a[1] + a[2] {
        println!("BEGIN {}", i);
        let mut rng = rng::Rng::new(a[0], "miri", i);
        let mut log = ubcore::Log::default();
        ubcore::round(&mut rng, 7, 5, Some("."), &mut log);
        total.calls += log.calls;
        total.panics += log.panics;
        total.paths += log.paths;
        total.corrupted += log.corrupted;
        total.threads += log.threads;
        println!("DONE {} {}", i, log.hash);
    }
    println!("{:?}", total);
}
