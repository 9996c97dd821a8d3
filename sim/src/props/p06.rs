//! The tableau describes the problem, before every pivot of every phase and pivot rule.
use crate::conv::general_form;
use crate::ctx;
use crate::lpgen::{self, GenCfg};
use crate::pipeline::*;
use crate::rule::{self, WHICH};
use crate::runner::{Fail, Property};
use crate::seam;

pub const PROPERTY: Property = Property {
    id: "P06",
    title: "Every intermediate tableau describes the problem exactly",
    scenario,
    quick_runs: 280_000,
    thorough_secs: 500,
    rule: "a run counts when at least one tableau after a basis change was checked completely; distinct by its complete history (problem, pivots, refactorisations)",
    state_measure: "distinct bases (sets of basic columns) at which a tableau was looked at",
    real: &["standardisation", "phase one (artificial and partially artificial)", "phase two", "all pivot rules", "LU with eta files and explicit inverse", "rank-deficient row removal"],
    stub: &["pivot column choice passes through the simulator's rule, which calls the real rules or picks at random", "refactorisation moments are decided by the simulator"],
    assumptions: &["relp-num's rational arithmetic is right"],
    must_reach: &["more than 64 rows", "tableau checked", "forced refactorisation", "suppressed refactorisation", "pivot rule switched", "random entering column", "rank deficient"],
};

fn scenario() -> Result<(), Fail> {
    let size = *ctx::pick(&[3usize, 4, 6, 8]);
    let (lp, verdict) = lpgen::gen_answered(&GenCfg { large: true, ..GenCfg::standard(size, size) }, 250);
    let engine = draw_engine();
    let route = Route::Observed { fully: ctx::chance(1, 3) };
    let mut knobs = draw_knobs();
    if ctx::chance(1, 2) {
        knobs.deviate = 0;
    }
    // Looking at a large tableau takes long.
    let rarely = match lp.vars.len() {
        0..=12 => 1,
        13..=20 => 4,
        21..=40 => 16,
        _ => 100,
    };
    let mut o = observer(*ctx::pick(&WHICH), rarely * *ctx::pick(&[1u64, 1, 2]));
    o.switch = *ctx::pick(&[0u64, 0, 3]);
    describe(&lp, engine, route, &knobs);
    seam::set_knobs(knobs);
    seam::install_hooks();
    ctx::set_step_limit(10 * SOLVE_STEPS);
    seam::limit_pivots(SOLVE_PIVOTS + 60 * (lp.rows.len() + lp.vars.len()) as u64);
    rule::observe(o);
    let reported = finish(general_form(&lp), engine, route);
    ctx::clear_step_limit();
    seam::limit_pivots(u64::MAX);
    if seam::basis_changes() > 0 {
        ctx::nontrivial();
    }
    judge(&lp, &verdict, &reported, &default_names(&lp))
}
