//! Deterministic simulation of relp: see /verif/DESIGN.md.
mod conv;
mod ctx;
mod cycling;
mod hooks;
mod life;
mod lpgen;
mod providers;
#[allow(dead_code)]
mod mps;
mod netflow;
mod oracle;
mod pipeline;
mod props;
mod rat;
mod rule;
mod runner;
mod seam;
mod simfs;

use runner::{Opts, Property};

fn main() {
    std::process::exit(run());
}

fn usage() -> i32 {
    println!("relp-sim check PROP --tier quick|thorough --seed N [--workers N] [--runs N] [--secs N]");
    println!("relp-sim one PROP --seed N --index N [--verbose]");
    println!("relp-sim replay FILE");
    println!("relp-sim list");
    2
}

fn run() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let flag = |name: &str| args.iter().position(|a| a == name).and_then(|k| args.get(k + 1)).cloned();
    let number = |name: &str| flag(name).and_then(|v| v.parse::<u64>().ok());
    let props: &'static [Property] = props::ALL;
    let find = |k: usize| -> Option<&'static Property> { args.get(k).and_then(|id| props.iter().find(|p| p.id == id)) };
    match args.first().map(|s| s.as_str()) {
        Some(c @ ("check" | "child")) => {
            let Some(prop) = find(1) else { return usage() };
            let opts = Opts {
                thorough: flag("--tier").as_deref() == Some("thorough"),
                seed: number("--seed").unwrap_or(1),
                workers: number("--workers").map(|n| n as usize).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
                runs: number("--runs"),
                secs: number("--secs"),
                quiet: false,
            };
            if c == "check" { runner::check(prop, &opts) } else { runner::child(prop, &opts) }
        }
        Some("one") => {
            let Some(prop) = find(1) else { return usage() };
            runner::one(prop, number("--seed").unwrap_or(1), number("--index").unwrap_or(0), args.iter().any(|a| a == "--verbose"))
        }
        Some("replay") => match args.get(1) {
            Some(path) => runner::replay(props, path),
            None => usage(),
        },
        // Part of P10.
        Some("tell") => {
            let choices = args.get(2).map_or(Vec::new(), |c| c.split(',').filter_map(|v| v.parse().ok()).collect());
            props::p10::tell(args.get(1).and_then(|s| s.parse().ok()).unwrap_or(0), choices, args.iter().any(|a| a == "--verbose"))
        }
        Some("list") => {
            for p in props {
                println!("{} {}", p.id, p.title);
            }
            0
        }
        _ => usage(),
    }
}
