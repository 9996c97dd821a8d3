//! The simulator's single source of choice.
//!
//! Everything a run decides (the program, the schedule, every fault) is drawn from here, as a
//! sequence of bounded integers. In search mode they come from a seeded generator, in replay mode
//! from a recorded sequence; the recorded sequence *is* the schedule and fault trace of the run.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.rotate_left(32) ^ 0x51_7c_c1_b7_27_22_0a_95;
    splitmix(&mut x)
}

/// Panic payload: the run used more simulated steps than its bound allows.
pub struct BudgetExceeded(pub &'static str);
/// Panic payload: an injected crash. Everything not durable is lost.
pub struct InjectedCrash;

pub struct Ctx {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub choices: Vec<u64>,
    pub verbose: bool,
    pub log: Vec<String>,
    pub hash: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub sim_time: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub notes: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub nontrivial: bool,
    pub thread_id: u64,
}

impl Ctx {
    pub fn new(seed: u64, replay: Option<Vec<u64>>, verbose: bool) -> Ctx {
        Ctx {
            rng: seed,
            replay,
            pos: 0,
            choices: Vec::new(),
            verbose,
            log: Vec::new(),
            hash: 0,
            steps: 0,
            step_limit: u64::MAX,
            sim_time: 0,
            faults: BTreeMap::new(),
            notes: BTreeMap::new(),
            states: Vec::new(),
            nontrivial: false,
            thread_id: 0,
        }
    }
}

thread_local! {
    static CTX: RefCell<Option<Box<Ctx>>> = const { RefCell::new(None) };
    static HASH_SEED: Cell<u64> = const { Cell::new(0) };
    /// State of the clock's generator, and its time in nanoseconds.
    static CLOCK: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

pub fn install(ctx: Ctx) {
    CTX.with(|c| *c.borrow_mut() = Some(Box::new(ctx)));
}
pub fn take() -> Option<Box<Ctx>> {
    CTX.with(|c| c.borrow_mut().take())
}
/// Move the context to another simulated thread: used by the baton scheduler.
pub fn put(ctx: Box<Ctx>) {
    CTX.with(|c| *c.borrow_mut() = Some(ctx));
}
pub fn installed() -> bool {
    CTX.try_with(|c| c.try_borrow().map(|c| c.is_some()).unwrap_or(false)).unwrap_or(false)
}
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(c.borrow_mut().as_mut().expect("no simulation context on this thread")))
}

/// Seed that `getrandom` hands to this thread's hash maps.
pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|h| h.set(s));
    let mut s = mix(s, 0xc10c);
    let now = splitmix(&mut s) >> 4;
    CLOCK.with(|c| c.set((s, now)));
}
/// What else distinguishes one process from another.
pub fn process_number() -> u64 {
    CLOCK.with(|c| c.get().0)
}
/// Reading the clock moves it, sometimes a lot. Only a clock that people set moves back.
pub fn read_clock(settable: bool) -> u64 {
    let (mut s, mut now) = CLOCK.with(|c| c.get());
    let r = splitmix(&mut s);
    let step = splitmix(&mut s);
    let jumped = match r % 16 {
        0 => {
            now += 1_000_000_000 + step % 7_200_000_000_000;
            true
        }
        1 if settable => {
            now = now.saturating_sub(step % 7_200_000_000_000);
            true
        }
        2..6 => {
            now += step % 2_000_000_000;
            false
        }
        _ => {
            now += 1 + step % 1_000_000;
            false
        }
    };
    CLOCK.with(|c| c.set((s, now)));
    with(|c| {
        *c.notes.entry("clock read").or_default() += 1;
        if jumped {
            *c.faults.entry("clock jump").or_default() += 1;
        }
    });
    now
}
pub fn next_hash_seed() -> u64 {
    HASH_SEED.with(|h| {
        let mut s = h.get();
        let v = splitmix(&mut s);
        h.set(s);
        v
    })
}

/// A choice in `0..n`. Zero is the simplest choice: shrinking moves towards it.
pub fn draw(n: u64) -> u64 {
    with(|c| {
        let v = match &c.replay {
            Some(seq) => {
                let v = seq.get(c.pos).copied().unwrap_or(0);
                if n == 0 { 0 } else { v.min(n - 1) }
            }
            None => {
                let r = splitmix(&mut c.rng);
                if n <= 1 { 0 } else { ((r as u128 * n as u128) >> 64) as u64 }
            }
        };
        c.pos += 1;
        c.choices.push(v);
        v
    })
}
pub fn below(n: usize) -> usize {
    draw(n as u64) as usize
}
/// True with probability `num/den`.
pub fn chance(num: u64, den: u64) -> bool {
    // The simple outcome (false) is 0.
    draw(den) >= den - num
}
pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[below(xs.len())]
}
/// Small signed integer, zero simplest, then 1, -1, 2, -2, ...
pub fn small(max: i64) -> i64 {
    let v = draw(2 * max as u64 + 1) as i64;
    if v % 2 == 1 { (v + 1) / 2 } else { -(v / 2) }
}
pub fn shuffle<T>(xs: &mut [T]) {
    for i in (1..xs.len()).rev() {
        // Zero keeps the order.
        let j = i - below(i + 1);
        xs.swap(i, j);
    }
}

/// Record that a fault was injected.
pub fn fault(kind: &'static str) {
    with(|c| {
        *c.faults.entry(kind).or_default() += 1;
        c.hash = mix(c.hash, kind.len() as u64 ^ 0xfa);
        if c.verbose {
            c.log.push(format!("FAULT {kind}"));
        }
    });
}
pub fn note(kind: &'static str) {
    with(|c| *c.notes.entry(kind).or_default() += 1);
}
pub fn event(h: u64) {
    with(|c| c.hash = mix(c.hash, h));
}
/// A state visited: counted distinctly over the whole search.
pub fn state(h: u64) {
    with(|c| {
        c.hash = mix(c.hash, h);
        c.states.push(h);
    });
}
pub fn nontrivial() {
    with(|c| c.nontrivial = true);
}
pub fn verbose() -> bool {
    with(|c| c.verbose)
}
pub fn log(f: impl FnOnce() -> String) {
    with(|c| {
        if c.verbose && c.log.len() < 4000 {
            let s = f();
            if std::env::var_os("RELP_SIM_EAGER").is_some() {
                eprintln!("{s}");
            }
            c.log.push(s);
        }
    });
}
/// One simulated step of the code under test. Time in the simulation is counted in these.
pub fn step(what: &'static str) {
    let over = CTX.with(|c| {
        let mut c = c.borrow_mut();
        match c.as_mut() {
            None => false,
            Some(c) => {
                c.steps += 1;
                c.sim_time += 1;
                c.steps > c.step_limit
            }
        }
    });
    if over {
        // Do not raise the alarm again while unwinding or in later phases of this run.
        with(|c| c.step_limit = u64::MAX);
        std::panic::panic_any(BudgetExceeded(what));
    }
}
/// A step that counts for the time, but not for the limit.
pub fn free_step() {
    with(|c| {
        c.steps += 1;
        c.sim_time += 1;
        c.step_limit = c.step_limit.saturating_add(1);
    });
}
/// Start a bounded phase: more than `limit` further steps is a violation of progress.
pub fn set_step_limit(limit: u64) {
    with(|c| c.step_limit = c.steps.saturating_add(limit));
}
pub fn clear_step_limit() {
    with(|c| c.step_limit = u64::MAX);
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
pub fn hash_dbg<T: std::fmt::Debug>(t: &T) -> u64 {
    let mut s = String::new();
    let _ = write!(s, "{t:?}");
    hash_str(&s)
}
