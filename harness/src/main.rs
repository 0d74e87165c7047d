mod checks;
mod consts;
mod drive;
mod exact;
mod fault;
mod gen;
mod gencase;
mod hist;
mod inv;
mod judge;
mod macros;
mod model;
mod numeric;
mod ops;
mod order;
mod prim;
mod radix;
mod report;
mod rng;
mod robust;
mod san;
mod special;
mod sup;
mod w32;
mod config;

use report::Config;
use std::path::PathBuf;
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: afv check|worker|replay <id|file>");
        std::process::exit(2);
    }
    let verif = PathBuf::from(std::env::var("AFV_VERIF").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
    .to_string();
    let cfg = Config { property: a[2].clone(), seed, tier, verif, start: Instant::now() };
    drive::install_hook();
    model::widen_mpfr();
    let rc = match a[1].as_str() {
        "worker" => checks::run(&cfg),
        "replay" => checks::replay(&a[2]),
        "check" => sup::check(&cfg),
        "race" => hist::race_child(a[2].parse().unwrap_or(1)),
        _ => 2,
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(rc);
}
