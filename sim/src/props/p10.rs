//! The same input gives the same result whatever the randomised hash tables do.
use crate::ctx;
use crate::life::{self, Job, Seen};
use crate::runner::{Fail, Property, fail};

pub const PROPERTY: Property = Property {
    id: "P10",
    title: "The same input gives the same result in every process",
    scenario,
    quick_runs: 100_000,
    thorough_secs: 500,
    rule: "a run counts when one input was worked on at least twice, under hash seeds that order a probe table differently, and ended with an answer, a refusal or a crash; distinct by its complete history",
    state_measure: "distinct imported or generated problems",
    real: &["MPS parsing and conversion", "presolve", "scaling", "standardisation", "both simplex phases, all pivot rules, both representations", "solution reconstruction", "the standard library's hash tables"],
    stub: &["hash seeds, clocks, process numbers and processor counts come from the simulator, each execution has a thread of its own with another name, another stack depth and other allocations around it, and some are compared with another process that has another environment"],
    assumptions: &["what else the system tells a process has no influence"],
    must_reach: &["iteration order of hash tables differs", "damaged file", "answered", "refused", "solved while presolving", "cut off", "scaled", "compared with another process"],
};

fn draw() -> Job {
    let mut job = life::draw_job(&[2, 3, 5, 7], true);
    if ctx::chance(1, 8) {
        // Cut off somewhere, it must have come equally far.
        job.knobs.crash_in = Some(ctx::below(300) as u64);
        job.knobs.crash_fault = "cut off";
    }
    job
}

/// What an execution was, in a line that another process can compare.
fn digest(seen: &Seen) -> String {
    format!("{:016x} {:016x} {}", ctx::hash_dbg(&(&seen.transcript, &seen.panic)), seen.history, seen.steps)
}

/// In a process of its own: the job that these choices stand for.
pub fn tell(hash_seed: u64, choices: Vec<u64>, verbose: bool) -> i32 {
    crate::runner::install_panic_hook();
    ctx::install(ctx::Ctx::new(0, Some(choices), false));
    ctx::draw(1 << 16);
    let job = draw();
    let seen = life::run_apart(job, hash_seed, 0, verbose);
    if verbose {
        for l in seen.ctx.log.iter().chain(&seen.transcript) {
            println!("{l}");
        }
    }
    println!("{}", digest(&seen));
    0
}
fn ask(hash_seed: u64, choices: &[u64]) -> Option<String> {
    let choices = choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",");
    let own = std::env::current_exe().ok()?;
    let mut other = std::process::Command::new(own);
    other.args(["tell", &hash_seed.to_string(), &choices]);
    // Its surroundings are other ones.
    if hash_seed % 2 == 0 {
        other.env_clear().current_dir("/");
    } else {
        for (name, value) in [("LC_ALL", "de_DE.UTF-8"), ("HOME", "/nowhere"), ("TZ", "Asia/Kathmandu"), ("RUST_BACKTRACE", "1"), ("RAYON_NUM_THREADS", "3")] {
            other.env(name, value);
        }
    }
    let out = other.output().ok()?;
    if !out.status.success() {
        // The system had no room for it.
        return None;
    }
    Some(String::from_utf8_lossy(&out.stdout).trim().to_string())
}

fn scenario() -> Result<(), Fail> {
    let job = draw();
    let choices = ctx::with(|c| c.choices.clone());
    ctx::log(|| job.to_string());
    let n = 2 + ctx::below(3);
    let mut first: Option<(Seen, u64)> = None;
    for k in 0..n {
        let hash_seed = ctx::draw(1 << 16) + k as u64;
        let clutter = *ctx::pick(&[0usize, 3, 40]);
        let mut seen = life::run_apart(job.clone(), hash_seed, clutter, ctx::verbose());
        life::account(&format!("{k}"), &mut seen);
        match &first {
            None => {
                let last = seen.transcript.last().map_or("", |s| s.as_str());
                if seen.transcript.iter().any(|s| s.starts_with("scaled")) {
                    ctx::note("scaled");
                }
                match &seen.panic {
                    Some(p) if p == "crash" => ctx::note("cut off"),
                    Some(_) => ctx::note("panicked"),
                    None if last.starts_with("presolving") => ctx::note("solved while presolving"),
                    None if last.starts_with("import") || last.starts_with("conversion") => ctx::note("refused"),
                    None => ctx::note("answered"),
                }
                first = Some((seen, hash_seed));
            }
            Some((f, s)) => {
                if let Some(d) = f.difference(&seen) {
                    return fail("other result", format!("the same input under another hash seed ({hash_seed} instead of {s}): {d}\nfor\n{job}"));
                }
                if seen.table_order != f.table_order {
                    ctx::note("iteration order of hash tables differs");
                    ctx::nontrivial();
                }
            }
        }
    }
    // In another process, of which it is the first work.
    if ctx::chance(1, 150) {
        let hash_seed = ctx::draw(1 << 16);
        let (f, _) = first.as_ref().expect("at least one execution");
        if f.payload.is_none() {
            let apart = ask(hash_seed, &choices);
            ctx::note(if apart.is_some() { "compared with another process" } else { "no other process" });
            if apart.is_some_and(|d| d != digest(f)) {
                return fail("other result in another process", format!("the same input as the first work of another process gives another result, for\n{job}"));
            }
        }
    }
    Ok(())
}
