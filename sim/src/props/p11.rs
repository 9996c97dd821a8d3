//! Executions next to, inside and after each other, each compared with itself alone.
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};

use crate::ctx;
use crate::life::{self, Job, Seen, Shared, Source};
use crate::runner::{Fail, Property, fail};

pub const PROPERTY: Property = Property {
    id: "P11",
    title: "Executions do not influence each other",
    scenario,
    quick_runs: 80_000,
    thorough_secs: 500,
    rule: "a run counts when at least one execution was interrupted by another (handed over to it, nested in it, or abandoned before it) and all were compared with themselves alone; distinct by its complete history",
    state_measure: "distinct imported or generated problems",
    real: &["everything from opening a file to the reconstructed solution, in threads of its own", "the standard library's locks, hash tables and thread-local storage"],
    stub: &["threads run one at a time: a baton is handed over at the callbacks and file calls that the drawn schedule names", "hash seeds, files, crashes"],
    assumptions: &["an execution's context (drawn decisions) is its own, so alone it takes the same decisions"],
    must_reach: &["handed over", "nested execution", "nested on the same data", "abandoned execution", "cut off while others are midway", "file read while another is midway", "again after being abandoned"],
};

/// Who may run, and for how long.
struct Baton {
    state: Mutex<Turn>,
    moved: Condvar,
}
struct Turn {
    who: usize,
    alive: Vec<bool>,
    /// After so many yields, go to the n-th thread that is alive.
    schedule: Vec<(u32, usize)>,
    at: usize,
    left: u32,
    handovers: u64,
    history: u64,
}
impl Turn {
    fn next(&mut self) {
        let alive: Vec<usize> = (0..self.alive.len()).filter(|&k| self.alive[k]).collect();
        if alive.is_empty() {
            return;
        }
        let (left, to) = self.schedule[self.at % self.schedule.len()];
        self.at += 1;
        self.left = left;
        let to = alive[to % alive.len()];
        if to != self.who {
            self.handovers += 1;
        }
        self.history = ctx::mix(self.history, to as u64);
        self.who = to;
    }
}
impl Baton {
    fn wait(&self, me: usize) {
        let mut t = self.state.lock().unwrap();
        while t.who != me {
            t = self.moved.wait(t).unwrap();
        }
    }
    fn tick(&self, me: usize) {
        let mut t = self.state.lock().unwrap();
        if t.left > 0 {
            t.left -= 1;
            return;
        }
        t.next();
        if t.who != me {
            self.moved.notify_all();
            while t.who != me {
                t = self.moved.wait(t).unwrap();
            }
        }
    }
    fn done(&self, me: usize) {
        let mut t = self.state.lock().unwrap();
        t.alive[me] = false;
        t.next();
        self.moved.notify_all();
    }
}

/// An execution, and those nested in it at the callbacks given.
#[derive(Clone)]
struct Item {
    job: Job,
    nested: Vec<(u64, Job)>,
}

/// Run an item on this thread; what was seen of it, and of those nested in it.
fn run_item(item: &Item, tick: Option<Rc<dyn Fn()>>, verbose: bool) -> (Seen, Vec<Option<Seen>>) {
    let inner: Rc<RefCell<Vec<Option<Seen>>>> = Rc::new(RefCell::new(item.nested.iter().map(|_| None).collect()));
    let go = |shared: Option<&Shared>| {
        // The yielder does not outlive the call to which it is given.
        let shared_address = shared.map(|s| s as *const Shared as usize);
        let (count, tick, into, jobs) = (Cell::new(0u64), tick.clone(), inner.clone(), item.nested.clone());
        let yielder: Option<Rc<dyn Fn(&'static str)>> = if item.nested.is_empty() && tick.is_none() {
            None
        } else {
            Some(Rc::new(move |site: &'static str| {
                if let Some(t) = &tick {
                    t();
                }
                // Elsewhere the caller's own code does not run.
                if matches!(site, "hook" | "open" | "read") {
                    return;
                }
                let now = count.get();
                count.set(now + 1);
                for (k, (at, job)) in jobs.iter().enumerate() {
                    if *at == now {
                        let ticking: Option<Rc<dyn Fn(&'static str)>> = match &tick {
                            None => None,
                            Some(t) => {
                                let t = t.clone();
                                Some(Rc::new(move |_: &'static str| t()))
                            }
                        };
                        let shared: Option<&Shared> = match shared_address {
                            Some(a) if job.shares => Some(unsafe { &*(a as *const Shared) }),
                            _ => None,
                        };
                        let seen = life::run_here(job, shared, ticking, verbose);
                        into.borrow_mut()[k] = Some(seen);
                    }
                }
            }))
        };
        life::run_here(&item.job, shared, yielder, verbose)
    };
    let seen = if item.job.shares { life::with_shared(&item.job, |s| go(Some(s))) } else { go(None) };
    let inner = std::mem::take(&mut *inner.borrow_mut());
    (seen, inner)
}

fn draw_item(sizes: &[usize]) -> (Item, Seen, Vec<Seen>) {
    let mut job = life::draw_job(sizes, true);
    if ctx::chance(1, 3) {
        if let Source::Problem(_) = job.source {
            job.shares = true;
        }
    }
    if ctx::chance(1, 4) {
        job.knobs.crash_in = Some(ctx::below(*ctx::pick(&[10, 100, 400])) as u64);
        job.knobs.crash_fault = "abandoned execution";
    }
    let alone = alone(&job);
    let mut nested = Vec::new();
    let mut nested_alone = Vec::new();
    // An execution that crashes at a callback doesn't come to run others there.
    let reached = alone.callbacks.saturating_sub(alone.panic.is_some() as u64);
    if reached > 0 && ctx::chance(1, 2) {
        for _ in 0..1 + ctx::below(2) {
            let at = ctx::draw(reached);
            let mut inner = life::draw_job(sizes, true);
            if job.shares && ctx::chance(1, 2) {
                inner.source = job.source.clone();
                inner.shares = true;
            }
            if ctx::chance(1, 4) {
                inner.knobs.crash_in = Some(ctx::below(100) as u64);
                inner.knobs.crash_fault = "abandoned execution";
            }
            nested_alone.push(self::alone(&inner));
            nested.push((at, inner));
        }
    }
    (Item { job, nested }, alone, nested_alone)
}
fn alone(job: &Job) -> Seen {
    let hash_seed = ctx::draw(1 << 16);
    let mut seen = life::run_apart(job.clone(), hash_seed, 0, ctx::verbose());
    life::account("alone", &mut seen);
    seen
}

struct Plan {
    item: Item,
    alone: Seen,
    nested_alone: Vec<Seen>,
}

fn scenario() -> Result<(), Fail> {
    let sizes = *ctx::pick(&[&[1usize, 2, 3][..], &[2, 3, 4], &[3, 5]]);
    let threads = 1 + ctx::below(3);
    let mut plans: Vec<Vec<Plan>> = Vec::new();
    for k in 0..threads {
        let mut sequence = Vec::new();
        let (item, alone_seen, nested_alone) = draw_item(sizes);
        ctx::log(|| format!("thread {k}: {}, with {} nested", item.job, item.nested.len()));
        let cut_off = item.job.knobs.crash_in.is_some();
        let job = item.job.clone();
        sequence.push(Plan { item, alone: alone_seen, nested_alone });
        if cut_off && ctx::chance(1, 2) {
            // The same once more, to its end.
            let mut again = job;
            again.knobs.crash_in = None;
            let seen = alone(&again);
            ctx::note("again after being abandoned");
            sequence.push(Plan { item: Item { job: again, nested: Vec::new() }, alone: seen, nested_alone: Vec::new() });
        } else if ctx::chance(1, 3) {
            let (item, alone_seen, nested_alone) = draw_item(sizes);
            ctx::log(|| format!("thread {k} then: {}, with {} nested", item.job, item.nested.len()));
            sequence.push(Plan { item, alone: alone_seen, nested_alone });
        }
        plans.push(sequence);
    }
    let schedule: Vec<(u32, usize)> = (0..1 + ctx::below(24))
        .map(|_| (*ctx::pick(&[0u32, 0, 1, 3, 10, 50, 400]), ctx::below(threads)))
        .collect();
    ctx::log(|| format!("schedule {schedule:?}"));
    let baton = Arc::new(Baton {
        state: Mutex::new(Turn { who: 0, alive: vec![true; threads], schedule, at: 0, left: 0, handovers: 0, history: 0 }),
        moved: Condvar::new(),
    });
    let verbose = ctx::verbose();
    let handles: Vec<_> = plans
        .iter()
        .enumerate()
        .map(|(me, sequence)| {
            let items: Vec<Item> = sequence.iter().map(|p| p.item.clone()).collect();
            let baton = baton.clone();
            let hash_seed = ctx::draw(1 << 16);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    ctx::install(ctx::Ctx::new(0, None, false));
                    ctx::set_hash_seed(ctx::mix(hash_seed, 0xfeed));
                    baton.wait(me);
                    let tick: Option<Rc<dyn Fn()>> = if threads > 1 {
                        let baton = baton.clone();
                        Some(Rc::new(move || baton.tick(me)))
                    } else {
                        None
                    };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        items.iter().map(|item| run_item(item, tick.clone(), verbose)).collect::<Vec<_>>()
                    }));
                    ctx::take();
                    baton.done(me);
                    r
                })
                .expect("spawn")
        })
        .collect();
    let results: Vec<_> = handles.into_iter().map(|h| h.join().expect("executions are caught")).collect();
    let (handovers, history) = {
        let t = baton.state.lock().unwrap();
        (t.handovers, t.history)
    };
    ctx::event(history);
    if threads > 1 && handovers > threads as u64 {
        ctx::nontrivial();
        ctx::with(|c| *c.faults.entry("handed over").or_default() += handovers);
    }
    for (k, (sequence, result)) in plans.iter().zip(results).enumerate() {
        let result = match result {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        };
        for (n, (plan, (mut seen, inner))) in sequence.iter().zip(result).enumerate() {
            life::account(&format!("thread {k}, {n}"), &mut seen);
            if n > 0 && sequence[n - 1].item.job.knobs.crash_in.is_some() {
                ctx::nontrivial();
            }
            if threads > 1 && handovers > threads as u64 {
                if seen.panic.as_deref() == Some("crash") {
                    ctx::note("cut off while others are midway");
                }
                if let Source::File { .. } = plan.item.job.source {
                    ctx::note("file read while another is midway");
                }
            }
            if let Some(d) = plan.alone.difference(&seen) {
                return fail("influenced", format!("execution {n} of thread {k}, next to others: {d}\nfor\n{}", plan.item.job));
            }
            for (j, (seen, alone)) in inner.into_iter().zip(&plan.nested_alone).enumerate() {
                let Some(mut seen) = seen else {
                    return fail("influenced", format!("execution {n} of thread {k} does not come to callback {}", plan.item.nested[j].0));
                };
                ctx::nontrivial();
                ctx::fault("nested execution");
                if plan.item.nested[j].1.shares {
                    ctx::note("nested on the same data");
                }
                life::account(&format!("nested {j} in thread {k}, {n}"), &mut seen);
                if let Some(d) = alone.difference(&seen) {
                    return fail("influenced inside", format!("execution nested at callback {}: {d}\nfor\n{}", plan.item.nested[j].0, plan.item.nested[j].1));
                }
            }
        }
    }
    Ok(())
}
