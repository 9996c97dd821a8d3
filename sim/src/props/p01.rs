//! Verdict and optimum are exact under every schedule of pivots and refactorisations.
use crate::conv::general_form;
use crate::ctx;
use crate::lpgen::{self, GenCfg};
use crate::pipeline::*;
use crate::rule;
use crate::runner::{Fail, Property};
use crate::seam;

pub const PROPERTY: Property = Property {
    id: "P01",
    title: "The answer is exact, whatever the order of pivots and refactorisations",
    scenario,
    quick_runs: 700_000,
    thorough_secs: 500,
    rule: "a run counts when the solver changed its basis at least twice and the answer was checked against the reference model; distinct by its complete history (problem, every scheduling decision, every pivot)",
    state_measure: "distinct bases seen by the observing pivot rule",
    real: &["standardisation", "both simplex phases, artificial and partially artificial", "all pivot rules", "LU with eta files and explicit inverse", "rank-deficient row removal", "solution reconstruction"],
    stub: &["entering column, leaving row among ties, replacement of artificial variables and refactorisation moments are taken over by the simulator at random moments", "which unit columns are declared as initial basis comes from the simulator"],
    assumptions: &["the reference model (exact rational arithmetic, Bland's rule) is right", "relp-num's rational arithmetic is right"],
    must_reach: &["other units", "forced refactorisation", "suppressed refactorisation", "forced entering column", "forced leaving row among ties", "forced replacement of an artificial variable", "random entering column", "rank deficient", "planted answer", "more than 64 rows", "ties broken unhelpfully", "30 pivots without progress"],
};

fn scenario() -> Result<(), Fail> {
    let size = *ctx::pick(&[3usize, 5, 7, 9]);
    // Sometimes one that the schedule can have the solver cycle on.
    let cycling = ctx::chance(1, 25);
    let (lp, verdict) = if cycling {
        let lp = if ctx::chance(1, 3) { lpgen::gen_cycling() } else { lpgen::gen_cycling_phase_one() };
        let verdict = lp.solve();
        (lp, verdict)
    } else {
        lpgen::gen_answered(&GenCfg { large: true, ..GenCfg::standard(size, size) }, 40)
    };
    let engine = draw_engine();
    let mut route = draw_route();
    let mut knobs = draw_knobs();
    take_it_easy(&lp, &mut route, &mut knobs);
    let mut pivots = SOLVE_PIVOTS + 60 * (lp.rows.len() + lp.vars.len()) as u64;
    if cycling {
        route = Route::Observed { fully: ctx::chance(1, 8) };
        knobs.deviate = 0;
        let o = cycling_observer();
        pivots += 2 * o.patience;
        rule::observe(o);
    }
    describe(&lp, engine, route, &knobs);
    seam::set_knobs(knobs);
    seam::install_hooks();
    ctx::set_step_limit(SOLVE_STEPS);
    seam::limit_pivots(pivots);
    let reported = finish(general_form(&lp), engine, route);
    ctx::clear_step_limit();
    seam::limit_pivots(u64::MAX);
    if seam::basis_changes() > 1 {
        ctx::nontrivial();
    }
    judge(&lp, &verdict, &reported, &default_names(&lp))
}
