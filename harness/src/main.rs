#![allow(dead_code)]
mod crystal;
mod gen;
mod hall;
mod la;
mod lattice;
mod props;
mod rng;
mod runner;

use runner::{Args, Spec};

#[global_allocator]
static ALLOC: runner::Counting = runner::Counting;

fn usage() -> ! {
    eprintln!(
        "usage: csmon run <id> --tier quick|thorough --seed N --evidence F --replays D --known F \
         [--case N] [--cases N] [--budget S] [--threads N]\n       csmon list\n       csmon child <seed> <case> <variant>"
    );
    std::process::exit(2)
}

fn main() {
    let argv: Vec<String> = std::env::args().collect();
    match argv.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in props::specs() {
                println!("{}", s.id);
            }
        }
        Some("child") => {
            let n = |i: usize| argv.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or_else(|| usage());
            props::stress::child(n(2), n(3), n(4));
        }
        Some("run") => {
            let id = argv.get(2).cloned().unwrap_or_else(|| usage());
            let opt = |k: &str| argv.iter().position(|a| a == k).and_then(|i| argv.get(i + 1)).cloned();
            let tier = opt("--tier").unwrap_or("quick".into());
            let args = Args {
                budget_s: opt("--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 300.0 } else { 120.0 }),
                tier,
                seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                only: opt("--case").and_then(|s| s.parse().ok()),
                evidence: opt("--evidence").unwrap_or("/dev/null".into()),
                replay_dir: opt("--replays").unwrap_or("/tmp".into()),
                known_file: opt("--known").unwrap_or_default(),
                threads: opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8),
                cases: opt("--cases").and_then(|s| s.parse().ok()),
                max_fails: opt("--max-fails").and_then(|s| s.parse().ok()).unwrap_or(5),
            };
            let spec: Spec = props::specs().into_iter().find(|s| s.id == id).unwrap_or_else(|| {
                eprintln!("no monitor for {id}");
                std::process::exit(2)
            });
            std::process::exit(runner::run(&spec, &args));
        }
        _ => usage(),
    }
}
