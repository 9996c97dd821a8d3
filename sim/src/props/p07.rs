//! Solving ends: within a bounded number of pivots, presolving within a bounded number of rules.
use crate::conv::general_form;
use crate::ctx;
use crate::lpgen::{self, GenCfg};
use crate::pipeline::*;
use crate::rule::{self, Observer, Which};
use crate::runner::{Fail, Property, fail};
use crate::seam::{self, Refactor};

pub const PROPERTY: Property = Property {
    id: "P07",
    title: "Presolving and solving always end, degenerate and cycling examples included",
    scenario,
    quick_runs: 450_000,
    thorough_secs: 500,
    rule: "a run counts when the solver changed the basis at least twice or presolving took at least three decisions; distinct by its complete history",
    state_measure: "distinct bases visited under the observed rules",
    real: &["presolve", "standardisation", "both phases", "default and lowest-index pivot rules", "LU with eta files and explicit inverse", "rank-deficient row removal"],
    stub: &["presolve rule order and refactorisation moments are decided by the simulator", "in some runs the entering column and the row that leaves among ties are chosen such that no progress is made, for as long as the schedule says"],
    assumptions: &["bounds on progress are stated in basis changes relative to rows and columns, chosen at several times the largest number ever seen"],
    must_reach: &["forced refactorisation", "reordered presolve queue", "lowest index rule", "default rule", "cycling example", "cone", "stalled on purpose", "ties broken unhelpfully", "30 pivots without progress"],
};

fn scenario() -> Result<(), Fail> {
    let size = *ctx::pick(&[3usize, 5, 7, 9]);
    let bland = ctx::chance(1, 3);
    // Known to cycle when ties are broken wrongly, likely to, or any.
    let degenerate = ctx::below(4);
    let mut known = None;
    let lp = match degenerate {
        3 => {
            ctx::note("cycling example");
            if bland || ctx::chance(1, 3) { lpgen::gen_cycling() } else { lpgen::gen_cycling_phase_one() }
        }
        2 => {
            ctx::note("cone");
            lpgen::gen_cone()
        }
        _ => {
            let (lp, verdict) = lpgen::gen_answered(&GenCfg::standard(size, size), 60);
            known = Some(verdict);
            lp
        }
    };
    let verdict = known.unwrap_or_else(|| lp.solve());
    let engine = draw_engine();
    let mut knobs = seam::Knobs::NONE;
    knobs.refactor = *ctx::pick(&[Refactor::Default, Refactor::Default, Refactor::Never, Refactor::Always, Refactor::Sometimes(2)]);
    // A schedule that makes no progress as long as it can.
    let stalling = !bland && (degenerate == 3 || ctx::chance(1, 3));
    let presolving = !(bland && degenerate == 3) && ctx::chance(1, 3);
    if presolving {
        knobs.presolve = *ctx::pick(&[0u64, 1, 2, 4]);
    }
    let route = if bland && degenerate == 3 {
        // From the slack basis.
        Route::Observed { fully: false }
    } else if bland || stalling { Route::Observed { fully: degenerate != 3 && ctx::chance(1, 3) } } else { *ctx::pick(&[Route::Standard, Route::Standard, Route::NoBasis, Route::SomeBasis, Route::FullBasis]) };
    describe(&lp, engine, route, &knobs);
    seam::set_knobs(knobs);
    seam::install_hooks();
    let mut general = general_form(&lp);
    let mut decided = None;
    if presolving {
        let before = ctx::with(|c| c.choices.len());
        ctx::set_step_limit(PRESOLVE_STEPS);
        decided = presolve(&mut general);
        ctx::clear_step_limit();
        if ctx::with(|c| c.choices.len()) > before + 2 {
            ctx::nontrivial();
        }
    }
    let reported = match decided {
        Some(r) => r,
        None => {
            let counts = general.clone().standardize();
            let m = counts.iter().sum::<usize>() as u64 + lp.vars.iter().filter(|v| v.up.is_some()).count() as u64;
            let n = lp.vars.len() as u64 + m;
            ctx::set_step_limit(SOLVE_STEPS);
            if bland {
                ctx::note("lowest index rule");
                seam::limit_pivots(400 + 60 * (m + n));
                let mut o = observer(Which::First, 0);
                o.watch_cycles = true;
                rule::observe(o);
            } else if stalling {
                let o = if degenerate == 3 { cycling_observer() } else { Observer { patience: *ctx::pick(&[10u64, 40, 120]), ..observer(Which::Stalling, 0) } };
                seam::limit_pivots(2 * o.patience + 400 + 60 * (m + n));
                rule::observe(o);
            } else {
                ctx::note("default rule");
                seam::limit_pivots(default_rule_bound(m, n));
            }
            let before = seam::basis_changes();
            let r = finish(general, engine, route);
            seam::limit_pivots(u64::MAX);
            ctx::clear_step_limit();
            let took = seam::basis_changes() - before;
            if took > 1 {
                ctx::nontrivial();
            }
            if std::env::var("P07_STATS").is_ok() {
                eprintln!("P07 {} {m} {n} {took}", bland as u8);
            }
            r
        }
    };
    if reported.name != verdict.name() {
        return fail("verdict", format!("ended with {}, but the reference model says {} for\n{lp}", reported.name, verdict.name()));
    }
    judge(&lp, &verdict, &reported, &default_names(&lp))
}

/// Several times what any run ever needed.
fn default_rule_bound(m: u64, n: u64) -> u64 {
    40 + 10 * (m + n)
}
