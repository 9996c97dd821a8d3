//! Search, shrinking, replay and evidence.
//!
//! `check` supervises a child process that runs the search, so that an execution that aborts,
//! overflows its stack or hangs is a finding with a seed rather than the end of the check.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::ctx::{self, BudgetExceeded, Ctx, InjectedCrash, mix, splitmix};
use crate::rat::OracleOverflow;

/// A broken property: `class` says in what way, and is what shrinking preserves.
#[derive(Clone, Debug)]
pub struct Fail {
    pub class: String,
    pub detail: String,
}
pub fn fail<T>(class: impl Into<String>, detail: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { class: class.into(), detail: detail.into() })
}
/// Panic payload: a violation found inside a callback.
pub struct ViolationPanic(pub Fail);
/// Panic payload: this run says nothing (for example, its scenario is too big for the model).
pub struct Inconclusive(pub &'static str);

pub struct Property {
    pub id: &'static str,
    pub title: &'static str,
    pub scenario: fn() -> Result<(), Fail>,
    /// Runs of the quick tier.
    pub quick_runs: u64,
    /// Seconds of the thorough tier.
    pub thorough_secs: u64,
    pub rule: &'static str,
    pub state_measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Fault kinds and probes that must have fired in a quick run, else the harness is broken.
    pub must_reach: &'static [&'static str],
}

pub enum Outcome {
    Held,
    Inconclusive(&'static str),
    Violated(Fail),
    HarnessError(String),
}

pub struct RunResult {
    pub outcome: Outcome,
    pub ctx: Box<Ctx>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, u32, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = payload_str(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((file, line, msg)));
    }));
}
fn payload_str(p: &dyn Any) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(structured payload)".to_string()
    }
}
pub fn take_last_panic() -> Option<(String, u32, String)> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

/// Whether a panic was raised by this harness's own code (and not by the code it calls).
fn in_harness(file: &str) -> bool {
    file.starts_with("src/") || file.starts_with("/verif/sim/src")
}
fn short_file(file: &str) -> String {
    match file.find("/repo/src/") {
        Some(k) => file[k + 6..].to_string(),
        None => file.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"),
    }
}

/// Classify what a caught panic of the code under test means.
pub fn classify_panic(payload: Box<dyn Any + Send>) -> Outcome {
    if payload.is::<OracleOverflow>() {
        return Outcome::Inconclusive("the reference model's numbers overflow");
    }
    if let Some(i) = payload.downcast_ref::<Inconclusive>() {
        return Outcome::Inconclusive(i.0);
    }
    if let Some(b) = payload.downcast_ref::<BudgetExceeded>() {
        return Outcome::Violated(Fail {
            class: format!("no progress: {}", b.0),
            detail: format!("the run exceeded its bound on simulated steps ({})", b.0),
        });
    }
    let payload = match payload.downcast::<ViolationPanic>() {
        Ok(v) => return Outcome::Violated(v.0),
        Err(p) => p,
    };
    if payload.is::<InjectedCrash>() {
        return Outcome::HarnessError("an injected crash escaped its scenario".into());
    }
    match take_last_panic() {
        Some((file, line, msg)) if in_harness(&file) => Outcome::HarnessError(format!("harness panic at {file}:{line}: {msg}")),
        Some((file, line, msg)) => Outcome::Violated(Fail {
            class: format!("panic in {}", short_file(&file)),
            detail: format!("the code panicked at {}:{line}: {msg}", short_file(&file)),
        }),
        None => Outcome::Violated(Fail { class: "panic".into(), detail: payload_str(&*payload) }),
    }
}

/// One simulated execution on a fresh thread: a pure function of the seed or of the choices.
pub fn execute(prop: &Property, seed: u64, replay: Option<Vec<u64>>, verbose: bool) -> RunResult {
    let scenario = prop.scenario;
    let handle = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            ctx::install(Ctx::new(seed, replay, verbose));
            // The first choice seeds the randomised hash maps of this execution.
            let hash_seed = ctx::draw(1 << 16);
            ctx::set_hash_seed(mix(hash_seed, 0xdeadbeef));
            let r = catch_unwind(AssertUnwindSafe(scenario));
            let outcome = match r {
                Ok(Ok(())) => Outcome::Held,
                Ok(Err(f)) => Outcome::Violated(f),
                Err(p) => classify_panic(p),
            };
            crate::seam::reset();
            let ctx = ctx::take();
            (outcome, ctx)
        })
        .expect("spawn");
    match handle.join() {
        Ok((outcome, Some(ctx))) => RunResult { outcome, ctx },
        Ok((_, None)) => RunResult { outcome: Outcome::HarnessError("lost the context".into()), ctx: Box::new(Ctx::new(0, None, false)) },
        Err(_) => RunResult { outcome: Outcome::HarnessError("thread died".into()), ctx: Box::new(Ctx::new(0, None, false)) },
    }
}

pub fn run_seed(prop: &Property, seed: u64, index: u64) -> u64 {
    let mut s = mix(mix(seed, ctx::hash_str(prop.id)), index);
    splitmix(&mut s)
}

#[derive(Default)]
struct Totals {
    runs: u64,
    inconclusive: BTreeMap<&'static str, u64>,
    steps: u64,
    choices: u64,
    faults: BTreeMap<&'static str, u64>,
    runs_with_fault: BTreeMap<&'static str, u64>,
    notes: BTreeMap<&'static str, u64>,
    nontrivial: u64,
    histories: HashSet<u64>,
    states: HashSet<u64>,
    states_dropped: u64,
    digest: u64,
    /// Milliseconds and index of the slowest run.
    slowest: (u64, u64),
}

impl Totals {
    fn add(&mut self, index: u64, r: &RunResult) {
        self.runs += 1;
        self.steps += r.ctx.steps;
        self.choices += r.ctx.choices.len() as u64;
        if let Outcome::Inconclusive(why) = r.outcome {
            *self.inconclusive.entry(why).or_default() += 1;
        }
        for (k, v) in &r.ctx.faults {
            *self.faults.entry(k).or_default() += v;
            *self.runs_with_fault.entry(k).or_default() += 1;
        }
        for (k, v) in &r.ctx.notes {
            *self.notes.entry(k).or_default() += v;
        }
        let mut h = r.ctx.hash;
        for c in &r.ctx.choices {
            h = mix(h, *c);
        }
        if r.ctx.nontrivial && matches!(r.outcome, Outcome::Held) {
            self.nontrivial += self.histories.insert(r.ctx.hash) as u64;
        }
        for s in &r.ctx.states {
            if self.states.len() < 4_000_000 {
                self.states.insert(*s);
            } else {
                self.states_dropped += 1;
            }
        }
        // Order independent, so that it does not depend on the number of workers.
        self.digest = self.digest.wrapping_add(mix(index, h));
    }
    fn merge(&mut self, o: Totals) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.choices += o.choices;
        for (k, v) in o.inconclusive {
            *self.inconclusive.entry(k).or_default() += v;
        }
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.runs_with_fault {
            *self.runs_with_fault.entry(k).or_default() += v;
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_default() += v;
        }
        self.histories.extend(o.histories);
        self.nontrivial = self.histories.len() as u64;
        self.states.extend(o.states);
        self.states_dropped += o.states_dropped;
        self.digest = self.digest.wrapping_add(o.digest);
        self.slowest = self.slowest.max(o.slowest);
    }
}

struct Found {
    index: u64,
    fail: Fail,
    choices: Vec<u64>,
}

pub struct Opts {
    pub thorough: bool,
    pub seed: u64,
    pub workers: usize,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
    pub quiet: bool,
}

/// An execution without bounds on what it allocates ends its process, not the machine.
fn limit_memory() {
    #[repr(C)]
    struct Limit {
        current: u64,
        maximum: u64,
    }
    unsafe extern "C" {
        fn setrlimit(resource: i32, limit: *const Limit) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let limit = Limit { current: 20 << 30, maximum: 20 << 30 };
    unsafe {
        setrlimit(RLIMIT_AS, &limit);
    }
}

fn verif_dir() -> String {
    std::env::var("RELP_SIM_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Where the workers of the child process note what they are running, for its supervisor.
fn progress_path(id: &str, pid: u32) -> String {
    format!("{}/sim/target/progress-{id}-{pid}", verif_dir())
}

fn pending_path(id: &str, pid: u32) -> String {
    format!("{}/sim/target/pending-{id}-{pid}", verif_dir())
}

/// A single execution that takes longer than this hangs.
const HANG: Duration = Duration::from_secs(75);

enum Search {
    Clean(Totals, f64),
    Found(Found, Totals, f64),
    Harness(String),
}

fn search(prop: &'static Property, opts: &Opts) -> Search {
    let start = Instant::now();
    let limit = opts.runs.unwrap_or(if opts.thorough { u64::MAX } else { prop.quick_runs });
    let cap = Duration::from_secs(opts.secs.unwrap_or(if opts.thorough { prop.thorough_secs } else { 300 }));
    let next = Arc::new(AtomicU64::new(0));
    let best = Arc::new(AtomicU64::new(u64::MAX));
    let found: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let harness: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
    let stop = Arc::new(AtomicBool::new(false));
    let current: Arc<Vec<AtomicU64>> = Arc::new((0..opts.workers).map(|_| AtomicU64::new(u64::MAX)).collect());
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..opts.workers).map(|_| AtomicU64::new(0)).collect());
    let seed = opts.seed;
    let mut handles = Vec::new();
    for w in 0..opts.workers {
        let (next, best, found, harness, stop) = (next.clone(), best.clone(), found.clone(), harness.clone(), stop.clone());
        let (current, started) = (current.clone(), started.clone());
        handles.push(std::thread::spawn(move || {
            let mut totals = Totals::default();
            loop {
                if stop.load(Ordering::Relaxed) || start.elapsed() > cap {
                    break;
                }
                let index = next.fetch_add(1, Ordering::Relaxed);
                if index >= limit || index > best.load(Ordering::Relaxed) {
                    break;
                }
                started[w].store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                current[w].store(index, Ordering::SeqCst);
                let r = execute(prop, run_seed(prop, seed, index), None, false);
                current[w].store(u64::MAX, Ordering::SeqCst);
                let took = (start.elapsed().as_millis() as u64).saturating_sub(started[w].load(Ordering::Relaxed));
                totals.slowest = totals.slowest.max((took, index));
                totals.add(index, &r);
                match r.outcome {
                    Outcome::Violated(fail) => {
                        let mut f = found.lock().unwrap();
                        if f.as_ref().is_none_or(|f| index < f.index) {
                            *f = Some(Found { index, fail, choices: r.ctx.choices.clone() });
                            best.fetch_min(index, Ordering::Relaxed);
                        }
                    }
                    Outcome::HarnessError(e) => {
                        *harness.lock().unwrap() = Some(format!("run {index}: {e}"));
                        stop.store(true, Ordering::Relaxed);
                    }
                    _ => {}
                }
            }
            totals
        }));
    }
    // Watch for executions that hang, and keep the supervisor informed.
    let path = progress_path(prop.id, std::process::id());
    let mut tick = 0u64;
    loop {
        if handles.iter().all(|h| h.is_finished()) {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
        tick += 1;
        let mut line = String::new();
        for w in 0..opts.workers {
            let idx = current[w].load(Ordering::SeqCst);
            if idx != u64::MAX {
                let _ = writeln!(line, "{idx}");
                let began = Duration::from_millis(started[w].load(Ordering::Relaxed));
                if start.elapsed().saturating_sub(began) > HANG {
                    let _ = std::fs::remove_file(&path);
                    return Search::Found(
                        Found { index: idx, fail: Fail { class: "hang".into(), detail: "the execution does not end".into() }, choices: Vec::new() },
                        Totals::default(),
                        start.elapsed().as_secs_f64(),
                    );
                }
            }
        }
        if tick % 10 == 1 {
            let _ = std::fs::write(&path, line);
        }
    }
    let _ = std::fs::remove_file(&path);
    let mut totals = Totals::default();
    for h in handles {
        totals.merge(h.join().expect("worker"));
    }
    if let Some(e) = harness.lock().unwrap().take() {
        return Search::Harness(e);
    }
    let wall = start.elapsed().as_secs_f64();
    match found.lock().unwrap().take() {
        Some(f) => Search::Found(f, totals, wall),
        None => Search::Clean(totals, wall),
    }
}

/// Smaller choice sequences first by length, then by sum.
/// `shared` always holds the best so far, for a caller that loses patience.
fn shrink(prop: &Property, mut choices: Vec<u64>, class: &str, shared: &Mutex<Option<(Vec<u64>, Fail, u64)>>) {
    let start = Instant::now();
    let mut tried = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    // Also returns the choices actually used: reading past the end gives zeros.
    let mut attempt = |cand: &[u64], tried: &mut u64| -> Option<(Vec<u64>, Fail)> {
        if start.elapsed() > Duration::from_secs(90) || *tried > 20_000 {
            return None;
        }
        let h = cand.iter().fold(cand.len() as u64, |h, c| mix(h, *c));
        if !seen.insert(h) {
            return None;
        }
        *tried += 1;
        let r = execute(prop, 0, Some(cand.to_vec()), false);
        match r.outcome {
            Outcome::Violated(f) if f.class == class => {
                let mut used = r.ctx.choices.clone();
                while used.last() == Some(&0) {
                    used.pop();
                }
                let mut best = shared.lock().unwrap();
                let better = best.as_ref().is_none_or(|(b, _, _)| (used.len(), used.iter().map(|&c| c as u128).sum::<u128>()) < (b.len(), b.iter().map(|&c| c as u128).sum()));
                if better {
                    *best = Some((used.clone(), f.clone(), *tried));
                } else if let Some(b) = best.as_mut() {
                    b.2 = *tried;
                }
                Some((used, f))
            }
            _ => None,
        }
    };
    if let Some((c, _)) = attempt(&choices.clone(), &mut tried) {
        choices = c;
    }
    loop {
        let before = (choices.len(), choices.iter().map(|&c| c as u128).sum::<u128>());
        // Delete chunks.
        let mut size = choices.len().max(1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i < choices.len() {
                let end = (i + size).min(choices.len());
                let mut cand = choices[..i].to_vec();
                cand.extend_from_slice(&choices[end..]);
                match attempt(&cand, &mut tried) {
                    Some((c, _)) if c.len() < choices.len() => choices = c,
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // Zero chunks.
        let mut size = choices.len().max(1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i < choices.len() {
                let end = (i + size).min(choices.len());
                if choices[i..end].iter().any(|&c| c != 0) {
                    let mut cand = choices.clone();
                    cand[i..end].fill(0);
                    if let Some((c, _)) = attempt(&cand, &mut tried) {
                        if c.len() <= choices.len() {
                            choices = c;
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        // Lower single values.
        for i in 0..choices.len() {
            let mut lo = 0;
            while i < choices.len() && lo < choices[i] {
                let mid = lo + (choices[i] - lo) / 2;
                let mut cand = choices.clone();
                cand[i] = mid;
                match attempt(&cand, &mut tried) {
                    Some((c, _)) if c.len() <= choices.len() => choices = c,
                    _ => lo = mid + 1,
                }
            }
        }
        let after = (choices.len(), choices.iter().map(|&c| c as u128).sum::<u128>());
        if after >= before || start.elapsed() > Duration::from_secs(90) || tried > 20_000 {
            break;
        }
    }
}

fn write_replay(prop: &Property, seed: u64, found: &Found, choices: Option<&[u64]>, fail: &Fail, log: &[String]) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}.replay", prop.id, seed, found.index);
    let mut s = String::new();
    let _ = writeln!(s, "relp-sim replay 1");
    let _ = writeln!(s, "property {}", prop.id);
    let _ = writeln!(s, "verif_seed {seed}");
    let _ = writeln!(s, "run {}", found.index);
    let _ = writeln!(s, "run_seed {}", run_seed(prop, seed, found.index));
    let _ = writeln!(s, "class {}", fail.class);
    match choices {
        Some(c) => {
            let _ = writeln!(s, "choices {}", c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
        }
        None => {
            let _ = writeln!(s, "choices-by-seed");
        }
    }
    let _ = writeln!(s, "# {}", fail.detail.replace('\n', "\n# "));
    let _ = writeln!(s, "# -- the execution:");
    for l in log {
        let _ = writeln!(s, "# {}", l.replace('\n', "\n# "));
    }
    let _ = std::fs::write(&path, s);
    path
}

/// What the check is supposed to meet in every quick search, and didn't.
fn unreached(prop: &Property, t: &Totals) -> Vec<&'static str> {
    prop.must_reach.iter().copied().filter(|m| !t.faults.contains_key(m) && !t.notes.contains_key(m)).collect()
}

/// The part of `check` that runs in the child process. Exit code for the supervisor.
pub fn child(prop: &'static Property, opts: &Opts) -> i32 {
    install_panic_hook();
    limit_memory();
    match search(prop, opts) {
        Search::Harness(e) => {
            println!("HARNESS-ERROR property={} {e}", prop.id);
            3
        }
        Search::Clean(totals, wall) => {
            evidence(prop, opts, &totals, wall, 0);
            if opts.runs.is_none() && !opts.thorough {
                for m in unreached(prop, &totals) {
                    println!("WARNING property={} never reached: {m}", prop.id);
                }
                if totals.nontrivial == 0 {
                    println!("HARNESS-ERROR property={} no run reached what is to be checked", prop.id);
                    return 3;
                }
            }
            if !opts.quiet {
                println!(
                    "{}: {} runs, {} steps, {} distinct histories, {} states, digest {:016x}, {:.1} s (slowest run {}: {:.1} s)",
                    prop.id,
                    totals.runs,
                    totals.steps,
                    totals.nontrivial,
                    totals.states.len(),
                    totals.digest,
                    wall,
                    totals.slowest.1,
                    totals.slowest.0 as f64 / 1000.0
                );
            }
            0
        }
        Search::Found(found, totals, wall) => {
            if found.fail.class == "hang" {
                let path = write_replay(prop, opts.seed, &found, None, &found.fail, &[]);
                println!("{}: {}", prop.id, found.fail.detail);
                println!("VIOLATION property={} replay={path}", prop.id);
                evidence(prop, opts, &totals, wall, 1);
                std::process::exit(1);
            }
            // Should minimising end the process, its supervisor reports the execution as it was found.
            let whole = write_replay(prop, opts.seed, &found, Some(&found.choices), &found.fail, &[]);
            let pending = pending_path(prop.id, std::process::id());
            let _ = std::fs::write(&pending, format!("{whole}\n{}: {}\n", found.fail.class, found.fail.detail));
            let shared = Arc::new(Mutex::new(None));
            let shrinker = {
                let (shared, choices, class) = (shared.clone(), found.choices.clone(), found.fail.class.clone());
                std::thread::spawn(move || shrink(prop, choices, &class, &shared))
            };
            let began = Instant::now();
            let patience = std::env::var("RELP_SIM_SHRINK_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
            while !shrinker.is_finished() && began.elapsed() < Duration::from_secs(patience) {
                std::thread::sleep(Duration::from_millis(5));
            }
            let best = shared.lock().unwrap().take();
            let (choices, fail, tried) = best.unwrap_or((found.choices.clone(), found.fail.clone(), 1));
            let r = execute(prop, 0, Some(choices.clone()), true);
            let (choices, fail, log) = match r.outcome {
                Outcome::Violated(f) if f.class == fail.class => (choices, f, r.ctx.log.clone()),
                _ => {
                    // Not reproducible from its choices: say so, with the original.
                    let r = execute(prop, run_seed(prop, opts.seed, found.index), None, true);
                    (found.choices.clone(), found.fail.clone(), r.ctx.log.clone())
                }
            };
            let path = write_replay(prop, opts.seed, &found, Some(&choices), &fail, &log);
            println!(
                "{}: run {} of seed {} fails; minimised from {} to {} choices in {tried} executions",
                prop.id, found.index, opts.seed, found.choices.len(), choices.len()
            );
            println!("{}: {}", fail.class, fail.detail);
            println!("VIOLATION property={} replay={path}", prop.id);
            evidence(prop, opts, &totals, wall, 1);
            let _ = std::fs::remove_file(&pending);
            // A shrinker that still runs is stuck in an execution without end.
            std::process::exit(1)
        }
    }
}

/// Run the search in a child process and make sense of how it ends.
pub fn check(prop: &'static Property, opts: &Opts) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let mut cmd = std::process::Command::new(&exe);
    cmd.arg("child").arg(prop.id).args(["--tier", if opts.thorough { "thorough" } else { "quick" }]).args(["--seed", &opts.seed.to_string()]).args(["--workers", &opts.workers.to_string()]);
    if let Some(r) = opts.runs {
        cmd.args(["--runs", &r.to_string()]);
    }
    if let Some(r) = opts.secs {
        cmd.args(["--secs", &r.to_string()]);
    }
    let mut child = cmd.spawn().expect("start the search");
    let pid = child.id();
    let status = child.wait().expect("wait for the search");
    match status.code() {
        Some(c @ (0 | 1 | 3)) => return c,
        _ => {}
    }
    if let Ok(text) = std::fs::read_to_string(pending_path(prop.id, pid)) {
        let _ = std::fs::remove_file(pending_path(prop.id, pid));
        let (path, what) = text.split_once('\n').unwrap_or((&text, ""));
        println!("{}: {}", prop.id, what.trim_end());
        println!("VIOLATION property={} replay={path}", prop.id);
        evidence(prop, opts, &Totals { runs: 1, ..Totals::default() }, 0.0, 1);
        return 1;
    }
    // The process died. Find the execution that does it.
    let path = progress_path(prop.id, pid);
    let mut last: u64 = 0;
    let mut candidates: Vec<u64> = std::fs::read_to_string(&path).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
    let _ = std::fs::remove_file(&path);
    if let Some(&m) = candidates.iter().max() {
        last = m;
    }
    // What ran shortly after the last note.
    candidates.extend(last + 1..last + 4000);
    candidates.sort_unstable();
    candidates.dedup();
    for index in candidates {
        let st = std::process::Command::new(&exe)
            .args(["one", prop.id, "--seed", &opts.seed.to_string(), "--index", &index.to_string()])
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .expect("run one execution");
        if !matches!(st.code(), Some(0 | 1 | 3)) {
            let fail = Fail { class: "abort".into(), detail: format!("the execution ends the process: {st}") };
            let found = Found { index, fail: fail.clone(), choices: Vec::new() };
            let path = write_replay(prop, opts.seed, &found, None, &fail, &[]);
            println!("{}: {}", prop.id, fail.detail);
            println!("VIOLATION property={} replay={path}", prop.id);
            let totals = Totals { runs: index + 1, ..Totals::default() };
            evidence(prop, opts, &totals, 0.0, 1);
            return 1;
        }
    }
    println!("HARNESS-ERROR property={} the search ended with {status}", prop.id);
    3
}

/// One execution, by index. Exit code 0 held, 1 violated, 3 harness error.
pub fn one(prop: &'static Property, seed: u64, index: u64, verbose: bool) -> i32 {
    install_panic_hook();
    limit_memory();
    report(prop, execute(prop, run_seed(prop, seed, index), None, verbose))
}

fn report(prop: &Property, r: RunResult) -> i32 {
    for l in &r.ctx.log {
        println!("{l}");
    }
    println!("history {:016x} choices {} steps {} faults {:?} notes {:?}", r.ctx.hash, r.ctx.choices.len(), r.ctx.steps, r.ctx.faults, r.ctx.notes);
    match r.outcome {
        Outcome::Held => {
            println!("{} held", prop.id);
            0
        }
        Outcome::Inconclusive(w) => {
            println!("{} inconclusive: {w}", prop.id);
            0
        }
        Outcome::Violated(f) => {
            println!("{}: {}", f.class, f.detail);
            println!("{} violated", prop.id);
            1
        }
        Outcome::HarnessError(e) => {
            println!("HARNESS-ERROR {e}");
            3
        }
    }
}

pub fn replay(props: &'static [Property], path: &str) -> i32 {
    install_panic_hook();
    let Ok(text) = std::fs::read_to_string(path) else {
        println!("can't read {path}");
        return 3;
    };
    let mut prop = None;
    let mut choices = None;
    let mut seed = 0;
    let mut by_seed = false;
    for l in text.lines() {
        if l.starts_with('#') {
            continue;
        }
        match l.split_once(' ').unwrap_or((l, "")) {
            ("property", id) => prop = props.iter().find(|p| p.id == id),
            ("choices", c) => choices = Some(c.split_whitespace().map(|x| x.parse::<u64>().expect("choice")).collect::<Vec<_>>()),
            ("run_seed", s) => seed = s.parse().expect("seed"),
            ("choices-by-seed", _) => by_seed = true,
            _ => {}
        }
    }
    let Some(prop) = prop else {
        println!("unknown property");
        return 3;
    };
    let r = if by_seed { execute(prop, seed, None, true) } else { execute(prop, 0, Some(choices.unwrap_or_default()), true) };
    let c = report(prop, r);
    if c == 1 {
        println!("VIOLATION property={} replay={path}", prop.id);
    }
    c
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_map(m: &BTreeMap<&'static str, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "))
}
fn json_list(l: &[&str]) -> String {
    format!("[{}]", l.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "))
}

fn evidence(prop: &'static Property, opts: &Opts, t: &Totals, wall: f64, violations: u32) {
    // Sample executions of this search, written out.
    let mut samples = Vec::new();
    if violations == 0 {
        let mut i = 0;
        while samples.len() < 2 && i < 40.min(t.runs) {
            let r = execute(prop, run_seed(prop, opts.seed, i), None, true);
            if r.ctx.nontrivial {
                let mut log = r.ctx.log.clone();
                if log.len() > 40 {
                    log.truncate(40);
                    log.push("...".into());
                }
                samples.push(format!("run {i}, history {:016x}:\n{}", r.ctx.hash, log.join("\n")));
            }
            i += 1;
        }
    }
    let rate = if wall > 0.0 { t.runs as f64 * 3600.0 / wall } else { 0.0 };
    let mut s = String::from("{\n");
    let _ = writeln!(s, "  \"property\": {},", json_str(prop.id));
    let _ = writeln!(s, "  \"tier\": {},", json_str(if opts.thorough { "thorough" } else { "quick" }));
    let _ = writeln!(s, "  \"seed\": {},", opts.seed);
    let _ = writeln!(s, "  \"level\": \"exploration\",");
    let _ = writeln!(s, "  \"coverage\": {{");
    let _ = writeln!(s, "    \"evaluations\": {},", t.runs);
    let _ = writeln!(s, "    \"distinct_nontrivial\": {},", t.nontrivial);
    let _ = writeln!(s, "    \"rule\": {},", json_str(prop.rule));
    let _ = writeln!(s, "    \"runs_per_hour\": {:.0},", rate);
    let _ = writeln!(s, "    \"seeds_per_hour\": {:.0},", rate);
    let _ = writeln!(s, "    \"simulated_steps\": {},", t.steps);
    let _ = writeln!(s, "    \"simulated_time\": \"there is no clock in this code (one would read the simulator's, see the probe 'clock read'): simulated time is counted in steps (callbacks and intercepted calls)\",");
    let _ = writeln!(s, "    \"choices_drawn\": {},", t.choices);
    let _ = writeln!(s, "    \"inconclusive_runs\": {},", json_map(&t.inconclusive));
    let _ = writeln!(s, "    \"faults_injected\": {},", json_map(&t.faults));
    let _ = writeln!(s, "    \"runs_with_fault\": {},", json_map(&t.runs_with_fault));
    let _ = writeln!(s, "    \"probes\": {},", json_map(&t.notes));
    let _ = writeln!(s, "    \"expected_but_not_reached\": {},", json_list(&unreached(prop, t)));
    let _ = writeln!(s, "    \"distinct_states\": {},", t.states.len());
    let _ = writeln!(s, "    \"distinct_states_measure\": {},", json_str(prop.state_measure));
    let _ = writeln!(s, "    \"real_code\": {},", json_list(prop.real));
    let _ = writeln!(s, "    \"stubs\": {},", json_list(prop.stub));
    let _ = writeln!(s, "    \"guarded_hooks\": \"{}\",", if crate::hooks::PRESENT { "compiled in" } else { "left out, as they don't build with this tree" });
    let _ = writeln!(s, "    \"workers\": {},", opts.workers);
    let _ = writeln!(s, "    \"history_digest\": \"{:016x}\",", t.digest);
    let _ = writeln!(s, "    \"samples\": [{}]", samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, "  }},");
    let _ = writeln!(s, "  \"assumptions\": {},", json_list(prop.assumptions));
    let _ = writeln!(s, "  \"wall_s\": {:.3},", wall);
    let _ = writeln!(s, "  \"violations\": {violations}");
    s.push_str("}\n");
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{}.json", prop.id), s);
}
