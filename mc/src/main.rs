mod canvas;
mod engine;
mod model;
mod props;
mod qr;
mod util;

use engine::*;

#[global_allocator]
static TALLY: props::effort::Tally = props::effort::Tally;

use std::path::PathBuf;
use std::time::Duration;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: mc run|replay <property> <tier> ...");
        std::process::exit(2);
    }
    let (cmd, id, tier) = (args[1].clone(), args[2].clone(), args[3].clone());
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or("/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let cap = if tier == "quick" { 780 } else { 6 * 3600 };
    let cfg = Cfg { tier: tier.clone(), seed, verif, threads, cap: Duration::from_secs(cap) };
    install_panic_hook();
    if id == "all" && cmd == "list" {
        for id in props::IDS {
            println!("{id}");
        }
        return;
    }
    let prop = match props::build(&id, tier == "thorough") {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    };
    let pass = vec![id.clone(), tier.clone()];
    let code = match cmd.as_str() {
        "run" => supervise(&cfg, &prop, &pass),
        "child" => explore(&cfg, &prop, &PathBuf::from(&args[4])),
        "probe" => probe(
            &prop,
            args[4].parse().unwrap(),
            args[5].parse().unwrap(),
            args[6].parse().unwrap(),
            &PathBuf::from(&args[7]),
        ),
        "replay" => replay(&prop, &args[4], args[5].parse().unwrap()),
        "list" => {
            for f in &prop.families {
                println!("{} {} {}", f.name, f.total, f.bound);
            }
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
