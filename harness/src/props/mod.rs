use crate::check::What;
use crate::run::*;

mod conc;
mod determ;
mod files;
mod hier;
mod deep;
mod equiv;
mod huge;
mod input;
mod misuse;

mod multi;
mod prep;
mod query;
mod reuse;
mod serial;
mod ub;

pub fn run(ctx: &Ctx) {
    match ctx.prop.as_str() {
        "C01" => query::run(ctx, What::Dist),
        "C02" => query::run(ctx, What::Path),
        "C03" => multi::run(ctx),
        "C04" => reuse::run(ctx),
        "C05" => prep::run_params(ctx),
        "C06" => prep::run_order(ctx),
        "C07" => determ::run(ctx),
        "C08" => input::run(ctx),
        "C09" => serial::run_serde(ctx),
        "C10" => serial::run_32(ctx),
        "C11" => files::run_round_trip(ctx),
        "C12" => files::run_readers(ctx),
        "C14" => conc::run(ctx),
        "C16" => misuse::run(ctx),
        "C18" => huge::run(ctx),
        "C19" => deep::run(ctx),
        "C15" => ub::run(ctx),
        "C17" => hier::run_well_formed(ctx),
        "C20" => hier::run_minimal(ctx),
        "C26" => equiv::run(ctx),
        p => harness_error(&format!("unknown property {}", p)),
    }
}

/// functions that other processes execute
pub fn child(args: &[String]) {
    match args[0].as_str() {
        "determ" => determ::child(&args[1..]),
        x => harness_error(&format!("unknown child {}", x)),
    }
}
