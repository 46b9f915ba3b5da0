use std::path::PathBuf;

use vh::{checks, runner};

fn main() {
    vh::quiesce::init();
    let a: Vec<String> = std::env::args().collect();
    let checks = checks::all();
    let find = |p: &str| {
        checks.iter().find(|c| c.prop == p).unwrap_or_else(|| {
            eprintln!("unknown property {p}");
            std::process::exit(2)
        })
    };
    let root = || PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| ".".into()));
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match a.get(1).map(String::as_str) {
        Some("check") => {
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            std::process::exit(runner::check(find(&a[2]), &root(), &tier, seed));
        }
        Some("worker") => runner::worker(find(&a[2]), num(3), num(4), num(5), num(6), num(7)),
        Some("replay") => std::process::exit(runner::replay(&checks, &root(), &PathBuf::from(&a[2]))),
        Some("seed") => std::process::exit(runner::replay_seed(find(&a[2]), num(3), 20.max(num(4) as usize))),
        Some("list") => {
            for c in &checks {
                println!("{}", c.prop);
            }
        }
        _ => {
            eprintln!("usage: vh check <property> [quick|thorough] | replay <file> | seed <property> <seed>");
            std::process::exit(2);
        }
    }
}
