//! Runtime monitors for fast_paths, see ../../DESIGN.md
#[macro_use]
mod run;
mod check;
mod compact;
mod gen;
mod oracle;
mod props;
mod rng;
mod ubcore;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: fpmon PROPERTY [--seed N] [--tier quick|thorough] [--out FILE] [--inflight FILE] [--only STREAM IDX]");
        std::process::exit(2);
    }
    if args[1] == "child" {
        run::install_panic_hook();
        props::child(&args[2..]);
        return;
    }
    run::cli(8, |ctx| props::run(ctx));
}
