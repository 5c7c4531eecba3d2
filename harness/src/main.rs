mod btc;
mod checks;
mod fields;
mod gad;
mod mon;
mod report;
mod rng;
mod solver;
use report::*;

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("usage: vh <property>");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let root = std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into());
    let only = std::env::var("VH_ONLY").ok().and_then(|s| s.rsplit_once(':').map(|(a, b)| (a.to_string(), b.parse().unwrap_or(0))));
    let run = Run::new(&id, thorough, seed, root, only);
    let code = checks::dispatch(&id, &run);
    std::process::exit(code);
}
