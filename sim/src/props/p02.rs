//! Presolving never changes the answer, whatever the order of its rules and wherever it stops.
use crate::conv::general_form;
use crate::ctx;
use crate::lpgen::{self, GenCfg};
use crate::pipeline::*;
use crate::runner::{Fail, Property};
use crate::seam;

pub const PROPERTY: Property = Property {
    id: "P02",
    title: "Presolving never changes the answer, in whatever order its rules are applied",
    scenario,
    quick_runs: 900_000,
    thorough_secs: 500,
    rule: "a run counts when presolving reduced the problem or decided it, and the answer was checked against the reference model; distinct by its complete history (problem, rule order, stopping point, pivots, answer)",
    state_measure: "distinct sizes and verdicts of presolved problems, with the number of rule decisions taken",
    real: &["presolve (all rules, queues, counters, updates)", "standardisation", "both simplex phases", "LU and explicit-inverse maintenance", "solution reconstruction"],
    stub: &["the order in which queued presolve work is taken, and where it is cut short, come from the simulator through the guarded hook"],
    assumptions: &["the reference model (exact rational arithmetic, Bland's rule) is right"],
    must_reach: &["other units", "reordered presolve queue", "presolve stopped early", "decided by presolve", "reduced by presolve", "planted answer", "more than 64 rows"],
};

fn scenario() -> Result<(), Fail> {
    let size = *ctx::pick(&[3usize, 4, 6, 8]);
    let (lp, verdict) = lpgen::gen_answered(&GenCfg { large: true, ..GenCfg::standard(size, size) }, 40);
    let engine = draw_engine();
    let mut knobs = seam::Knobs::NONE;
    knobs.presolve = *ctx::pick(&[0u64, 1, 2, 4, 16]);
    let again = ctx::chance(1, 5);
    describe(&lp, engine, Route::Standard, &knobs);
    ctx::log(|| format!("presolve decisions deviate 1/{}", knobs.presolve));
    seam::set_knobs(knobs);
    seam::install_hooks();
    ctx::set_step_limit(PRESOLVE_STEPS + SOLVE_STEPS);
    let mut general = general_form(&lp);
    let mut reported = presolve(&mut general);
    if reported.is_none() && again {
        ctx::note("presolved twice");
        reported = presolve(&mut general);
    }
    let reported = match reported {
        Some(r) => {
            ctx::note("decided by presolve");
            ctx::nontrivial();
            ctx::log(|| format!("presolve decides: {}", r.name));
            ctx::state(ctx::mix(1, ctx::hash_str(r.name)));
            r
        }
        None => {
            if general.nr_constraints() < lp.rows.len() || general.nr_variables() < lp.vars.len() {
                ctx::note("reduced by presolve");
                ctx::nontrivial();
            }
            ctx::log(|| format!("presolved to {} x {}", general.nr_constraints(), general.nr_variables()));
            ctx::state(ctx::mix(general.nr_constraints() as u64 * 1000 + general.nr_variables() as u64, ctx::hash_str(&lp.to_string())));
            finish(general, engine, Route::Standard)
        }
    };
    ctx::clear_step_limit();
    judge(&lp, &verdict, &reported, &default_names(&lp))
}
