//! Pivot rules and the ratio test choose what they promise, at every step of every history.
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

use crate::conv::general_form;
use crate::ctx;
use crate::lpgen::{self, GenCfg};
use crate::pipeline::*;
use crate::rule::{self, Observer, Which};
use crate::runner::{Fail, Property};
use crate::seam::{self, Knobs, Refactor};

pub const PROPERTY: Property = Property {
    id: "P12",
    title: "Pivot rules and the ratio test choose what they promise",
    scenario,
    quick_runs: 280_000,
    thorough_secs: 500,
    rule: "a run counts when at least one selection was compared with what the rule promises and a pivot followed; distinct by its complete history (problem, rule, pivots, refactorisations)",
    state_measure: "distinct bases (sets of basic columns) at which a selection was checked",
    real: &["pivot rules", "ratio test", "phase one (artificial and partially artificial)", "phase two", "LU with eta files and explicit inverse"],
    stub: &["refactorisation moments are decided by the simulator"],
    assumptions: &["relp-num's rational arithmetic is right", "columns and values of the tableau are those of the basis, which P06 checks"],
    must_reach: &["more than 64 rows", "given up half way", "tie in the ratio test", "forced refactorisation", "suppressed refactorisation", "cone", "cycling example"],
};

fn scenario() -> Result<(), Fail> {
    let small = |lp: crate::oracle::Lp| {
        let verdict = lp.solve();
        (lp, verdict)
    };
    let (lp, verdict) = match ctx::below(6) {
        5 => {
            ctx::note("cycling example");
            small(lpgen::gen_cycling())
        }
        3 | 4 => {
            ctx::note("cone");
            small(lpgen::gen_cone())
        }
        _ => {
            let size = *ctx::pick(&[3usize, 5, 7, 9]);
            lpgen::gen_answered(&GenCfg { large: true, ..GenCfg::standard(size, size) }, 100)
        }
    };
    let engine = draw_engine();
    let route = Route::Observed { fully: ctx::chance(1, 4) };
    let mut knobs = Knobs::NONE;
    knobs.refactor = *ctx::pick(&[Refactor::Default, Refactor::Default, Refactor::Never, Refactor::Always, Refactor::Sometimes(3)]);
    let which = *ctx::pick(&[Which::AlongObjective, Which::AlongObjective, Which::First, Which::FirstMemory, Which::AlongVariable]);
    let mut o = Observer::new(which);
    o.contract = true;
    o.patience = 200;
    if lp.rows.len() > 64 {
        // Looking at each step takes too long here.
        knobs.refactor = Refactor::Default;
        let from = *ctx::pick(&[0u64, 0, 30, 60, 90, 130]);
        o.window = Some((from, from + 20));
    }
    describe(&lp, engine, route, &knobs);
    ctx::log(|| format!("rule {which:?}"));
    seam::set_knobs(knobs);
    seam::install_hooks();
    ctx::set_step_limit(10 * SOLVE_STEPS);
    seam::limit_pivots(SOLVE_PIVOTS + 60 * (lp.rows.len() + lp.vars.len()) as u64);
    let before = seam::basis_changes();
    rule::observe(o);
    let reported = match catch_unwind(AssertUnwindSafe(|| finish(general_form(&lp), engine, route))) {
        Ok(reported) => Some(reported),
        Err(p) if p.is::<ctx::InjectedCrash>() => None,
        Err(p) => resume_unwind(p),
    };
    ctx::clear_step_limit();
    seam::limit_pivots(u64::MAX);
    if seam::basis_changes() > before {
        ctx::nontrivial();
    }
    match reported {
        Some(reported) => judge(&lp, &verdict, &reported, &default_names(&lp)),
        None => Ok(()),
    }
}
