//! C15: the workload for sanitizers. Only the instruments (and the death of the process) decide.
use crate::run::*;
use crate::ubcore;

pub fn run(ctx: &Ctx) {
    let t = if ctx.thorough { 12.0 } else { 1.0 };
    ctx.run_cases("tiny", 200, 100_000_000, 8.0 * t, |c| round(c, 8, 12));
    ctx.run_cases("small", 100, 100_000_000, 8.0 * t, |c| round(c, 30, 30));
    ctx.run_cases("medium", 20, 100_000_000, 6.0 * t, |c| round(c, 150, 40));
    ctx.run_cases("histories", 100, 100_000_000, 5.0 * t, |c| {
        // answers are for other properties to decide
        let _ = catch(|| super::reuse::any_history(c));
        Ok(())
    });
}

fn round(c: &mut Case, size: usize, effort: usize) -> Verdict {
    let mut log = ubcore::Log::default();
    c.about = format!("random use of the API, graphs with up to {} nodes", size);
    let mut rng = c.rng.clone();
    let dir = std::env::var("FP_SCRATCH").unwrap_or_else(|_| "/verif/scratch".into());
    ubcore::round(&mut rng, size, effort, Some(&dir), &mut log);
    c.evals(log.calls);
    c.count("calls_that_panicked", log.panics);
    c.count("paths", log.paths);
    c.count("corrupted_graphs", log.corrupted);
    c.count("calls_with_corrupted_graphs", log.corrupted_queries);
    c.count("threads", log.threads);
    c.distinct(log.hash);
    Ok(())
}
