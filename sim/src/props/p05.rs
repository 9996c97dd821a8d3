//! A solve is cut off, only the basis survives, and work goes on from there.
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};

use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::tableau::Tableau;
use relp::algorithm::two_phase::tableau::inverse_maintenance::{InverseMaintainer, ops as im_ops};
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;

use relp::data::linear_algebra::vector::SparseVector;
use relp::data::linear_program::general_form::GeneralForm;

use crate::conv::{RB, general_form};
use crate::ctx::{self, InjectedCrash};
use crate::lpgen::{self, GenCfg};
use crate::oracle::{Kind, Lp, Row, Var, Verdict};
use crate::pipeline::*;
use crate::rat::Q;
use crate::rule::{self, Checkpoint, SimRule, WHICH};
use crate::runner::{Fail, Property, fail};
use crate::seam::{self, Knobs, SimProvider};

pub const PROPERTY: Property = Property {
    id: "P05",
    title: "Work can resume from any basis after a crash",
    scenario,
    quick_runs: 350_000,
    thorough_secs: 500,
    rule: "a run counts when it was continued from a basis that survived a crash or a change of costs; distinct by its complete history",
    state_measure: "distinct bases looked at",
    real: &["both constructors from a basis", "LU decomposition and explicit inverse", "phase one and two, removal of redundant rows", "pivot rules", "standardisation and reconstruction"],
    stub: &["a crash is a panic with a private payload from a callback: memory is lost, the basis noted before the last pivot survives", "pivot choices and refactorisation moments come from the simulator"],
    assumptions: &["the reference model's simplex method is right", "relp-num's rational arithmetic is right"],
    must_reach: &[
        "crash in phase one",
        "crash in phase two",
        "crash while resuming",
        "resumed from a basis",
        "resumed in the other representation",
        "resumed without redundant rows",
        "resumed a second time",
        "resumed with unordered pivots",
        "started again from nothing",
        "costs changed",
        "costs changed to unbounded",
    ],
};

/// What survives: the basis, which rows were dropped, and what the tableau looked like for comparison.
struct Durable {
    removed: Vec<usize>,
    seen: Checkpoint,
}

fn crash_knobs(mut k: Knobs) -> Knobs {
    let scale = *ctx::pick(&[20usize, 80, 300, 1000]);
    k.crash_in = Some(ctx::below(scale) as u64);
    k.crash_late = *ctx::pick(&[2usize, 2, 2, 1, 0]);
    k
}

fn same(seen: &Checkpoint, now: &Checkpoint, ordered: bool) -> Result<(), Fail> {
    if ordered && seen.basis != now.basis {
        return fail("resumed basis", format!("the basis is {:?} instead of {:?}", now.basis, seen.basis));
    }
    if seen.objective != now.objective {
        return fail("resumed objective", format!("{} instead of {} at {:?}", now.objective, seen.objective, seen.basis));
    }
    if seen.values != now.values {
        return fail("resumed values", format!("{:?} instead of {:?} at {:?}", now.values, seen.values, seen.basis));
    }
    if seen.relative_costs != now.relative_costs {
        return fail("resumed relative costs", format!("{:?} instead of {:?} at {:?}", now.relative_costs, seen.relative_costs, seen.basis));
    }
    Ok(())
}

/// Rebuild the state from the basis alone, compare, and go on.
fn resume_in<'p, IM, MP>(provider: &'p MP, seen: &Checkpoint, compare: bool) -> Result<Answer, Fail>
where
    IM: InverseMaintainer<F = RB>,
    MP: MatrixProvider,
    MP::Rhs: 'static,
    RB: im_ops::Column<<MP::Column as Column>::F> + im_ops::Rhs<MP::Rhs> + im_ops::Cost<MP::Cost<'p>> + im_ops::Column<MP::Rhs>,
{
    let mut pivots: Vec<(usize, usize)> = seen.basis.iter().copied().enumerate().collect();
    let how = ctx::below(3);
    let im = match how {
        0 => IM::from_basis(&seen.basis, provider),
        1 => {
            ctx::shuffle(&mut pivots);
            if pivots.iter().enumerate().any(|(k, p)| k != p.0) {
                ctx::note("resumed with unordered pivots");
            }
            IM::from_basis_pivots(&pivots, provider)
        }
        _ => {
            // In any order of rows: another tableau of the same basis.
            let mut columns = seen.basis.clone();
            ctx::shuffle(&mut columns);
            IM::from_basis(&columns, provider)
        }
    };
    let basis: HashSet<usize> = seen.basis.iter().copied().collect();
    let mut tableau = Tableau::<IM, NonArtificial<MP>>::new_with_inverse_maintainer(provider, im, basis);
    if compare {
        same(seen, &rule::snapshot(&tableau), how < 2)?;
    }
    Ok(answer(phase_two::primal::<_, _, SimRule>(&mut tableau)))
}

fn resume(data: &MatrixData<RB>, engine: Engine, d: &Durable, compare: bool) -> Result<Answer, Fail> {
    let provider = SimProvider { inner: data };
    let modelled = rule::with(|o| o.check > 0);
    let model = modelled.then(|| without_rows(model_of(data, &[], false), &d.removed));
    rule::phase("resumed", 0, model);
    ctx::note("resumed from a basis");
    ctx::nontrivial();
    if d.removed.is_empty() {
        match engine {
            Engine::Lu => resume_in::<SimLu, _>(&provider, &d.seen, compare),
            Engine::Rows => resume_in::<SimRows, _>(&provider, &d.seen, compare),
        }
    } else {
        ctx::note("resumed without redundant rows");
        let rest = RemoveRows::new(&provider, d.removed.clone());
        match engine {
            Engine::Lu => resume_in::<SimLu, _>(&rest, &d.seen, compare),
            Engine::Rows => resume_in::<SimRows, _>(&rest, &d.seen, compare),
        }
    }
}

/// The answer, with the solution in terms of the problem's variables without undoing the canonical form.
fn outcome(data: &MatrixData<RB>, a: &Answer) -> (&'static str, Option<SparseVector<RB, RB>>) {
    match a {
        Answer::Optimal(v) => (a.name(), Some(data.reconstruct_solution(v.clone()))),
        _ => (a.name(), None),
    }
}
fn report(lp: &Lp, verdict: &Verdict, general: GeneralForm<RB>, (name, reduced): (&'static str, Option<SparseVector<RB, RB>>)) -> Result<(), Fail> {
    let reported = match reduced {
        None => without_solution(name),
        Some(v) => solution(&general.compute_full_solution_with_reduced_solution(v), true),
    };
    judge(lp, verdict, &reported, &default_names(lp))
}

/// Feasible at the origin, with a long way to the optimum.
fn packing() -> Lp {
    let n = 3 + ctx::below(6);
    let m = 3 + ctx::below(5);
    let vars = (0..n)
        .map(|_| Var { cost: Q::int(-1 - ctx::below(9) as i64), lo: Some(Q::ZERO), up: ctx::chance(1, 3).then(|| Q::int(1 + ctx::below(6) as i64)) })
        .collect();
    let rows = (0..m)
        .map(|_| {
            let coefs = (0..n).filter(|_| ctx::chance(2, 3)).map(|j| (j, Q::int(if ctx::chance(1, 6) { -1 } else { 1 + ctx::below(7) as i64 }))).collect();
            Row { coefs, kind: Kind::Le, b: Q::int(ctx::below(30) as i64) }
        })
        .collect();
    Lp { maximize: false, fixed: Q::ZERO, vars, rows }
}

fn scenario() -> Result<(), Fail> {
    let large = ctx::chance(1, 80);
    let (lp, verdict) = if large {
        lpgen::gen_answered(&GenCfg::standard(6, 6), 1)
    } else {
        let lp = if ctx::chance(1, 2) {
            packing()
        } else {
            let size = *ctx::pick(&[3usize, 4, 6]);
            lpgen::gen_lp(&GenCfg::standard(size, size))
        };
        let verdict = lp.solve();
        if ctx::chance(1, 25) { lpgen::other_units(&lp, &verdict, false) } else { (lp, verdict) }
    };
    let mut engine = draw_engine();
    let route = Route::Observed { fully: ctx::chance(1, 3) };
    let knobs = draw_knobs();
    describe(&lp, engine, route, &knobs);
    seam::install_hooks();
    ctx::set_step_limit(10 * SOLVE_STEPS);
    let mut o = observer(*ctx::pick(&WHICH), if large { 0 } else { *ctx::pick(&[0u64, 0, 3]) });
    o.checkpoint = *ctx::pick(&[1u64, 1, 1, 2]);
    rule::observe(o);

    let mut general = general_form(&lp);
    let counts = general.standardize();
    let data = general.derive_matrix_data(counts);

    let crashes = 1 + ctx::below(4);
    let mut durable: Option<Durable> = None;
    let mut last = None;
    let mut resumed = 0;
    for attempt in 0..=crashes {
        let mut k = knobs;
        if attempt < crashes {
            k = crash_knobs(k);
        }
        seam::set_knobs(k);
        seam::limit_pivots(SOLVE_PIVOTS);
        if durable.is_none() {
            forget_phase_one();
        }
        let outcome = catch_unwind(AssertUnwindSafe(|| match &durable {
            None => Ok(solve(&data, engine, route)),
            Some(d) => {
                let a = resume(&data, engine, d, true);
                a
            }
        }));
        match outcome {
            Ok(a) => {
                last = Some(a?);
                break;
            }
            Err(payload) if payload.is::<InjectedCrash>() => {}
            Err(payload) => std::panic::resume_unwind(payload),
        }
        let phase = rule::with(|o| o.phase);
        let checkpoint = rule::with(|o| o.last_checkpoint.take());
        ctx::log(|| format!("crashed in {phase}; {}", if checkpoint.is_some() { "a basis survives" } else { "nothing new survives" }));
        match (phase, checkpoint) {
            ("phase two", Some(seen)) => {
                ctx::fault("crash in phase two");
                durable = Some(Durable { removed: phase_one_removed().unwrap_or_default(), seen });
            }
            ("resumed", Some(seen)) => {
                ctx::fault("crash in phase two");
                resumed += 1;
                if resumed > 1 {
                    ctx::note("resumed a second time");
                }
                durable = Some(Durable { removed: durable.unwrap().removed, seen });
            }
            ("resumed", None) => ctx::fault("crash while resuming"),
            _ => {
                // Of the first phase nothing is kept.
                ctx::fault(if phase == "phase two" { "crash before the first basis is noted" } else { "crash in phase one" });
            }
        }
        if durable.is_none() || ctx::chance(1, 10) {
            durable = None;
            ctx::note("started again from nothing");
        } else if ctx::chance(1, 2) {
            engine = if engine == Engine::Lu { Engine::Rows } else { Engine::Lu };
            ctx::fault("resumed in the other representation");
        }
    }
    let a = last.expect("the last attempt is not cut off");
    ctx::log(|| format!("answer: {}", a.name()));
    let out = outcome(&data, &a);
    report(&lp, &verdict, general, out)?;
    if large {
        // The answer to another is not known.
        return Ok(());
    }

    // The costs change; the basis is still feasible.
    seam::set_knobs(knobs);
    seam::limit_pivots(SOLVE_PIVOTS);
    let Some(seen) = rule::with(|o| o.last_checkpoint.take()) else { return Ok(()) };
    if a == Answer::Infeasible || rule::with(|o| o.phase == "phase one") {
        return Ok(());
    }
    let removed = match durable {
        Some(d) => d.removed,
        None => phase_one_removed().unwrap_or_default(),
    };
    let mut changed = lp.clone();
    for v in &mut changed.vars {
        if ctx::chance(1, 2) {
            v.cost = Q::int(ctx::small(4));
        }
    }
    if ctx::chance(1, 4) {
        changed.maximize = !changed.maximize;
    }
    let mut general = general_form(&changed);
    let counts = general.standardize();
    let data = general.derive_matrix_data(counts);
    ctx::fault("costs changed");
    ctx::log(|| format!("now with costs\n{changed}"));
    let a = resume(&data, engine, &Durable { removed, seen }, false)?;
    if a == Answer::Unbounded {
        ctx::note("costs changed to unbounded");
    }
    ctx::log(|| format!("answer: {}", a.name()));
    ctx::clear_step_limit();
    seam::limit_pivots(u64::MAX);
    let out = outcome(&data, &a);
    report(&changed, &changed.solve(), general, out)
}
