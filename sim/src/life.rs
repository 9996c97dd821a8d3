//! A whole execution as one value: what it works on and every decision made for it, and what could
//! be observed of it. It runs in its own context, on its own or on another's thread.
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::Path;
use std::rc::Rc;

use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::data::linear_program::elements::LinearProgramType;
use relp::data::linear_program::general_form::{GeneralForm, Scalable};
use relp::io::import;

use crate::conv::{RB, general_form};
use crate::ctx::{self, Ctx, InjectedCrash};
use crate::lpgen::{self, GenCfg};
use crate::mps;
use crate::oracle::{Lp, Verdict};
use crate::pipeline::*;
use crate::props::{p03::benign_plan, p09::damage};
use crate::rule::{self, Observer, WHICH, Which};
use crate::runner::{self, Inconclusive, Outcome};
use crate::seam::{self, Knobs};
use crate::simfs::{self, Plan};

#[derive(Clone)]
pub enum Source {
    Problem(Lp),
    File { bytes: Vec<u8>, plan: Plan },
}

/// What one execution does: a pure function of this value.
#[derive(Clone)]
pub struct Job {
    pub seed: u64,
    pub source: Source,
    pub presolve: bool,
    pub scale: bool,
    /// Works on data in canonical form that others may work on too.
    pub shares: bool,
    pub engine: Engine,
    pub route: Route,
    pub which: Which,
    pub knobs: Knobs,
}

impl std::fmt::Display for Job {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match &self.source {
            Source::Problem(lp) => write!(f, "{lp}")?,
            Source::File { bytes, .. } => write!(f, "--- file\n{}\n---\n", String::from_utf8_lossy(bytes))?,
        }
        write!(
            f,
            "presolve {}, scale {}, shares {}, {:?}, {:?}, {:?}, refactorisation {:?}, deviate 1/{}, crash {:?}",
            self.presolve, self.scale, self.shares, self.engine, self.route, self.which, self.knobs.refactor, self.knobs.deviate, self.knobs.crash_in
        )
    }
}

pub fn draw_lp(sizes: &[usize]) -> Lp {
    if ctx::chance(1, 60) {
        let (n, m) = *ctx::pick(&[(12, 10), (20, 16)]);
        ctx::note("larger problem");
        return lpgen::planted(n, m, true).0;
    }
    let size = *ctx::pick(sizes);
    let lp = lpgen::gen_lp(&GenCfg::standard(size, size));
    if ctx::chance(1, 25) { lpgen::other_units(&lp, &Verdict::Infeasible, ctx::chance(1, 2)).0 } else { lp }
}

/// Draw an execution; of the file too, `damaged` or not.
pub fn draw_job(sizes: &[usize], files: bool) -> Job {
    let source = if files && ctx::chance(1, 2) {
        let mut bytes = mps::write(draw_lp(sizes)).bytes();
        let plan = benign_plan();
        if ctx::chance(1, 3) {
            let other = bytes.clone();
            for _ in 0..1 + ctx::below(2) {
                damage(&mut bytes, &other);
            }
            ctx::note("damaged file");
        }
        Source::File { bytes, plan }
    } else {
        Source::Problem(draw_lp(sizes))
    };
    let mut knobs = draw_knobs();
    if ctx::chance(1, 2) {
        knobs = Knobs { refactor: knobs.refactor, ..Knobs::NONE };
    }
    knobs.presolve = *ctx::pick(&[0u64, 0, 3]);
    Job {
        seed: ctx::draw(1 << 32),
        source,
        presolve: ctx::chance(1, 2),
        scale: ctx::chance(1, 4),
        shares: false,
        engine: draw_engine(),
        route: draw_route(),
        which: *ctx::pick(&WHICH),
        knobs,
    }
}

/// What could be observed.
pub struct Seen {
    /// Line by line, what each stage gave.
    pub transcript: Vec<String>,
    /// How it ended, if not by itself.
    pub panic: Option<String>,
    /// The complete history of decisions, bases and deliveries, as a fingerprint and in steps.
    pub history: u64,
    pub steps: u64,
    pub callbacks: u64,
    /// How a hash table of this thread iterated.
    pub table_order: u64,
    pub ctx: Box<Ctx>,
    /// Says nothing about the code under test.
    pub payload: Option<Outcome>,
}
impl Seen {
    /// The first difference to another execution of the same job.
    pub fn difference(&self, other: &Seen) -> Option<String> {
        for (k, (a, b)) in self.transcript.iter().zip(&other.transcript).enumerate() {
            if a != b {
                return Some(format!("stage {k} gives\n{b}\ninstead of\n{a}"));
            }
        }
        if self.transcript.len() != other.transcript.len() {
            let more = self.transcript.get(other.transcript.len()).or(other.transcript.get(self.transcript.len()));
            return Some(format!("{} stages instead of {}: {more:?}", other.transcript.len(), self.transcript.len()));
        }
        if self.panic != other.panic {
            return Some(format!("ends with {:?} instead of {:?}", other.panic, self.panic));
        }
        if (self.history, self.steps) != (other.history, other.steps) {
            let log = |s: &Seen| s.ctx.log.iter().filter(|l| !l.starts_with("FAULT")).cloned().collect::<Vec<_>>();
            let (a, b) = (log(self), log(other));
            let k = a.iter().zip(&b).take_while(|(a, b)| a == b).count();
            return Some(format!(
                "another path to the same answer ({} instead of {} steps): {:?} instead of {:?}",
                other.steps,
                self.steps,
                b.get(k),
                a.get(k)
            ));
        }
        None
    }
}

const STEPS: u64 = 3_000_000;

/// Work that is shared with others: problem data in canonical form.
pub struct Shared<'a> {
    pub general: &'a GeneralForm<RB>,
    pub data: &'a MatrixData<'a, RB>,
}

/// Prepare the data that a job shares.
pub fn with_shared<R>(job: &Job, f: impl FnOnce(&Shared) -> R) -> R {
    let Source::Problem(lp) = &job.source else { panic!("only problems are shared") };
    let mut general = general_form(lp);
    let counts = general.standardize();
    let data = general.derive_matrix_data(counts);
    f(&Shared { general: &general, data: &data })
}

fn solve_and_tell(data: &MatrixData<RB>, job: &Job, out: &mut Vec<String>) -> Option<relp::data::linear_algebra::vector::SparseVector<RB, RB>> {
    rule::observe(Observer { checkpoint: 1, ..Observer::new(job.which) });
    let a = solve(data, job.engine, job.route);
    out.push(format!("answer {a:?}"));
    match a {
        Answer::Optimal(v) => Some(data.reconstruct_solution(v)),
        _ => None,
    }
}

fn work(job: &Job, shared: Option<&Shared>, out: &mut Vec<String>) {
    if let Some(shared) = shared {
        if let Some(v) = solve_and_tell(shared.data, job, out) {
            let solution = shared.general.clone().compute_full_solution_with_reduced_solution(v);
            out.push(format!("solution {solution:?}"));
        }
        return;
    }
    if job.shares {
        with_shared(job, |shared| work(job, Some(shared), out));
        return;
    }
    let mut general: GeneralForm<RB> = match &job.source {
        Source::Problem(lp) => general_form(lp),
        Source::File { bytes, plan } => {
            simfs::mount(vec![("/simfs/problem.mps".to_string(), bytes.clone())], plan.clone());
            match import::<RB>(Path::new("/simfs/problem.mps")) {
                Err(e) => {
                    out.push(format!("import fails: {e:?} {e}"));
                    return;
                }
                Ok(p) => match p.try_into() {
                    Err(e) => {
                        out.push(format!("conversion fails: {e:?} {e}"));
                        return;
                    }
                    Ok(g) => g,
                },
            }
        }
    };
    out.push(format!("problem {general:?}"));
    ctx::state(ctx::hash_dbg(&general));
    if job.presolve {
        let r = general.presolve();
        out.push(format!("presolved {general:?}"));
        match r {
            Ok(()) => {}
            Err(LinearProgramType::FiniteOptimum(s)) => {
                out.push(format!("presolving finds {s:?}"));
                return;
            }
            Err(LinearProgramType::Infeasible) => {
                out.push("presolving finds infeasible".into());
                return;
            }
            Err(LinearProgramType::Unbounded) => {
                out.push("presolving finds unbounded".into());
                return;
            }
        }
    }
    let counts = general.standardize();
    out.push(format!("standardised {general:?}"));
    let scaling = job.scale.then(|| general.scale());
    if let Some(s) = &scaling {
        out.push(format!("scaled with {s:?}"));
    }
    let data = general.derive_matrix_data(counts);
    let Some(mut v) = solve_and_tell(&data, job, out) else { return };
    if let Some(s) = scaling {
        s.scale_back(&mut v);
        general.scale_back(s);
    }
    let solution = general.compute_full_solution_with_reduced_solution(v);
    out.push(format!("solution {solution:?}"));
}

/// Run a job on this thread, setting aside whatever runs here now.
pub fn run_here(job: &Job, shared: Option<&Shared>, yielder: Option<Rc<dyn Fn(&'static str)>>, verbose: bool) -> Seen {
    let outer_ctx = ctx::take();
    let outer = seam::set_aside();
    let _ = runner::take_last_panic();
    ctx::install(Ctx::new(job.seed, None, verbose));
    let mut knobs = job.knobs;
    knobs.yields = yielder.is_some();
    seam::set_knobs(knobs);
    seam::set_yield(yielder);
    seam::install_hooks();
    seam::limit_pivots(SOLVE_PIVOTS);
    ctx::set_step_limit(STEPS);
    let mut transcript = Vec::new();
    let r = catch_unwind(AssertUnwindSafe(|| work(job, shared, &mut transcript)));
    let callbacks = seam::callbacks();
    seam::reset();
    seam::go_on(outer);
    let own = ctx::take().expect("the context of this execution");
    if let Some(c) = outer_ctx {
        ctx::put(c);
    }
    let (panic, payload) = match r {
        Ok(()) => (None, None),
        Err(p) if p.is::<InjectedCrash>() => (Some("crash".to_string()), None),
        Err(p) => match runner::classify_panic(p) {
            // Whether it should is what other properties are about.
            Outcome::Violated(f) => (Some(f.detail), None),
            other => (Some("no answer".to_string()), Some(other)),
        },
    };
    Seen { transcript, panic, history: own.hash, steps: own.steps, callbacks, table_order: 0, ctx: own, payload }
}

/// Run a job on a thread of its own, with its own seed for hash maps.
pub fn run_apart(job: Job, hash_seed: u64, clutter: usize, verbose: bool) -> Seen {
    let mut thread = std::thread::Builder::new().stack_size(64 << 20);
    if hash_seed % 3 != 0 {
        thread = thread.name(["main", "solver", "worker-1", "a"][hash_seed as usize / 3 % 4].to_string());
    }
    let handle = thread
        .spawn(move || {
            ctx::install(Ctx::new(0, None, false));
            ctx::set_hash_seed(ctx::mix(hash_seed, 0xfeed));
            let kept = make_clutter(hash_seed, clutter);
            let table_order = ctx::hash_dbg(&(0..12u64).collect::<HashSet<_>>());
            let mut seen = deeper(hash_seed as usize % 7, &mut || run_here(&job, None, None, verbose));
            seen.table_order = table_order;
            drop(kept);
            ctx::take();
            seen
        })
        .expect("spawn");
    handle.join().expect("executions are caught")
}

/// The same, with other addresses on the stack.
#[inline(never)]
fn deeper(n: usize, f: &mut dyn FnMut() -> Seen) -> Seen {
    let room = std::hint::black_box([n as u8; 1008]);
    let seen = if n == 0 { f() } else { deeper(n - 1, f) };
    std::hint::black_box(&room);
    seen
}

/// Allocate, and give back some of it, so that addresses differ.
fn make_clutter(seed: u64, n: usize) -> Vec<Vec<u8>> {
    let mut s = seed;
    let mut kept = Vec::new();
    for k in 0..n {
        let size = 1 + ctx::splitmix(&mut s) as usize % 300;
        kept.push(vec![k as u8; size]);
        if ctx::splitmix(&mut s) % 3 == 0 {
            let at = ctx::splitmix(&mut s) as usize % kept.len();
            kept.swap_remove(at);
        }
    }
    kept
}

/// Count what an execution met as part of the run that started it. Passes on what went wrong.
pub fn account(name: &str, seen: &mut Seen) {
    ctx::with(|c| {
        if c.verbose {
            let lines = seen.ctx.log.iter().chain(&seen.transcript).flat_map(|l| l.lines()).chain(seen.panic.as_deref());
            c.log.extend(lines.map(|l| format!("{name}: {l}")));
        }
        for (k, v) in &seen.ctx.faults {
            *c.faults.entry(k).or_default() += v;
        }
        for (k, v) in &seen.ctx.notes {
            *c.notes.entry(k).or_default() += v;
        }
        c.states.append(&mut seen.ctx.states);
        c.steps += seen.steps;
        c.sim_time += seen.steps;
        c.hash = ctx::mix(c.hash, seen.history);
        for t in &seen.transcript {
            c.hash = ctx::mix(c.hash, ctx::hash_str(t));
        }
    });
    match seen.payload.take() {
        None => {}
        Some(Outcome::Inconclusive(why)) => std::panic::panic_any(Inconclusive(why)),
        Some(Outcome::HarnessError(e)) => panic!("{e}"),
        Some(_) => unreachable!(),
    }
}

