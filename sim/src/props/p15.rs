//! Canonical form and scaling are undone exactly.
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::data::linear_algebra::vector::{SparseVector, Vector};
use relp::data::linear_program::general_form::{Scalable, Scaling};

use crate::conv::{RB, general_form, q, rb};
use crate::ctx;
use crate::lpgen::{self, GenCfg};
use crate::oracle::{Kind, Lp, Verdict};
use crate::pipeline::*;
use crate::rat::Q;
use crate::runner::{Fail, Property, fail};
use crate::seam;

pub const PROPERTY: Property = Property {
    id: "P15",
    title: "Putting a problem in canonical form and scaling it is undone exactly",
    scenario,
    quick_runs: 300_000,
    thorough_secs: 500,
    rule: "a run counts when a problem was scaled, with the data restored exactly afterwards, or put in canonical form, solved and judged; distinct by its complete history",
    state_measure: "distinct problems after canonicalisation and scaling",
    real: &["canonical form", "scaling and its factorisation", "presolve", "both simplex phases", "solution reconstruction"],
    stub: &["order of presolve work, pivots and refactorisation moments come from the simulator"],
    assumptions: &["the reference model (exact rational arithmetic, Bland's rule) is right", "relp-num's rational arithmetic and factorisation are right"],
    must_reach: &["more than 64 rows", "scaled", "scaled a range", "scaled twice", "scaled before canonical form", "nothing to factorise", "presolved and scaled", "scaled an upper bound", "interrupted between scaling and solving", "scaled problem solved as it is"],
};

/// Spread factors over rows, columns and costs, for scaling to find.
fn spread_factors(lp: &mut Lp) {
    let factors = [(1, 1), (2, 1), (1, 2), (3, 1), (6, 1), (1, 6), (49, 1), (10, 21), (13, 1), (1, 35), (97, 1), (1, 8)];
    let draw = || {
        let (n, d) = *ctx::pick(&factors);
        Q::new(n, d)
    };
    for row in &mut lp.rows {
        let f = draw();
        for (_, c) in &mut row.coefs {
            *c = *c * f;
        }
        row.b = row.b * f;
        if let Kind::Range(w) = &mut row.kind {
            *w = *w * f;
        }
    }
    for j in 0..lp.vars.len() {
        let f = draw();
        for row in &mut lp.rows {
            for (k, c) in &mut row.coefs {
                if *k == j {
                    *c = *c * f;
                }
            }
        }
        let v = &mut lp.vars[j];
        v.cost = v.cost * f;
        if let Some(l) = &mut v.lo {
            *l = *l / f;
        }
        if let Some(u) = &mut v.up {
            *u = *u / f;
        }
    }
    let f = draw();
    for v in &mut lp.vars {
        v.cost = v.cost * f;
    }
}

/// Only ones, minus ones and zeros.
fn to_units(lp: &mut Lp) {
    let unit = |q: &mut Q| {
        *q = if q.is_zero() {
            Q::ZERO
        } else if q.is_pos() {
            Q::int(1)
        } else {
            Q::int(-1)
        }
    };
    for row in &mut lp.rows {
        row.coefs.iter_mut().for_each(|(_, c)| unit(c));
        unit(&mut row.b);
        if let Kind::Range(w) = &mut row.kind {
            unit(w);
        }
    }
    for v in &mut lp.vars {
        unit(&mut v.cost);
        v.lo.iter_mut().for_each(unit);
        v.up.iter_mut().for_each(unit);
    }
}

fn scenario() -> Result<(), Fail> {
    let size = *ctx::pick(&[1usize, 2, 3, 5]);
    let (lp, verdict) = match ctx::below(6) {
        0 => {
            let mut lp = lpgen::gen_lp(&GenCfg::standard(size, size));
            ctx::note("nothing to factorise");
            to_units(&mut lp);
            let verdict = lp.solve();
            (lp, verdict)
        }
        1 => lpgen::gen_answered(&GenCfg { large: true, ..GenCfg::standard(size, size) }, 10),
        _ => {
            let mut lp = lpgen::gen_lp(&GenCfg::standard(size, size));
            spread_factors(&mut lp);
            let verdict = lp.solve();
            (lp, verdict)
        }
    };
    let engine = draw_engine();
    let mut route = draw_route();
    let mut knobs = draw_knobs();
    take_it_easy(&lp, &mut route, &mut knobs);
    knobs.presolve = *ctx::pick(&[0u64, 0, 3]);
    describe(&lp, engine, route, &knobs);
    seam::set_knobs(knobs);
    seam::install_hooks();
    ctx::set_step_limit(SOLVE_STEPS);
    let names = default_names(&lp);

    let mut general = general_form(&lp);
    if ctx::chance(1, 2) {
        ctx::note("scaled before canonical form");
        if ctx::chance(1, 2) {
            let sizes = (lp.rows.len() + lp.vars.len()) as u64;
            seam::limit_pivots(SOLVE_PIVOTS + 60 * sizes);
            return scaled_as_it_is(general, &lp, &verdict, &names, engine, route);
        }
        there_and_back(&mut general, 1)?;
    }
    let presolved = ctx::chance(1, 2);
    if presolved {
        if let Some(reported) = presolve(&mut general) {
            return judge(&lp, &verdict, &reported, &names);
        }
    }
    let counts = general.standardize();
    there_and_back(&mut general, 1 + ctx::below(2))?;
    let before = general.clone();
    let mut scalings: Vec<Scaling<RB>> = Vec::new();
    let n = *ctx::pick(&[1usize, 1, 1, 0, 2]);
    for _ in 0..n {
        scalings.push(general.scale());
        ctx::note("scaled");
        if presolved {
            ctx::note("presolved and scaled");
        }
    }
    if n == 2 {
        ctx::note("scaled twice");
    }
    ctx::log(|| format!("scalings {scalings:?}"));
    if lp.rows.iter().any(|r| matches!(r.kind, Kind::Range(_))) {
        ctx::note("scaled a range");
    }
    if lp.vars.iter().any(|v| v.up.is_some_and(|u| !u.is_zero())) {
        ctx::note("scaled an upper bound");
    }
    ctx::state(ctx::hash_dbg(&general));
    seam::limit_pivots(SOLVE_PIVOTS + 60 * (lp.rows.len() + lp.vars.len()) as u64);
    if ctx::chance(1, 6) {
        // The execution is given up and the scaling undone; then all over again.
        ctx::fault("interrupted between scaling and solving");
        for s in scalings.drain(..).rev() {
            general.scale_back(s);
        }
        if general != before {
            return fail("undone", format!("undoing the scaling gives\n{general:?}\ninstead of\n{before:?}\nfor\n{lp}"));
        }
        scalings.push(general.scale());
    }
    let answer = {
        let data = general.derive_matrix_data(counts);
        match solve(&data, engine, route) {
            Answer::Optimal(v) => {
                let mut v = data.reconstruct_solution(v);
                for s in scalings.iter().rev() {
                    s.scale_back(&mut v);
                }
                Ok(v)
            }
            other => Err(other.name()),
        }
    };
    seam::limit_pivots(u64::MAX);
    ctx::clear_step_limit();
    for s in scalings.into_iter().rev() {
        general.scale_back(s);
    }
    if general != before {
        return fail("undone", format!("undoing the scaling gives\n{general:?}\ninstead of\n{before:?}\nfor\n{lp}"));
    }
    ctx::nontrivial();
    let reported = match answer {
        Err(name) => without_solution(name),
        Ok(v) => solution(&general.compute_full_solution_with_reduced_solution(v), true),
    };
    judge(&lp, &verdict, &reported, &names)
}

/// Scale the problem with all its bounds and kinds of rows, and take what comes out as a problem of
/// its own: its solution, scaled back, solves the original.
fn scaled_as_it_is(
    mut general: relp::data::linear_program::general_form::GeneralForm<RB>,
    lp: &Lp,
    verdict: &Verdict,
    names: &[String],
    engine: Engine,
    route: Route,
) -> Result<(), Fail> {
    ctx::note("scaled problem solved as it is");
    let before = general.clone();
    let scaling = general.scale();
    ctx::log(|| format!("scaling {scaling:?}"));
    ctx::nontrivial();
    let mut own = general.clone();
    let decided = if ctx::chance(1, 2) { presolve(&mut own) } else { None };
    let mut reported = decided.unwrap_or_else(|| finish(own, engine, route));
    seam::limit_pivots(u64::MAX);
    ctx::clear_step_limit();
    if reported.name == "optimal" {
        let values: Option<Vec<Q>> =
            names.iter().map(|n| reported.values.iter().find(|v| v.0 == *n).map(|v| v.1)).collect();
        let Some(values) = values else {
            return fail("variable missing", format!("the solution {:?} lacks a variable of\n{lp}", reported.values));
        };
        let nonzero = values.iter().enumerate().filter(|(_, v)| !v.is_zero()).map(|(j, v)| (j, rb(*v))).collect();
        let mut vector = SparseVector::new(nonzero, values.len());
        scaling.scale_back(&mut vector);
        let mut x = vec![Q::ZERO; values.len()];
        for (j, v) in vector.iter() {
            x[j] = q(v);
        }
        // The fixed cost and the factor of the costs are not part of the solution.
        reported.objective = Some(lp.cost_of(&x));
        reported.minimisation = false;
        reported.values = names.iter().cloned().zip(x).collect();
    }
    general.scale_back(scaling);
    if general != before {
        return fail("undone", format!("undoing the scaling gives\n{general:?}\ninstead of\n{before:?}\nfor\n{lp}"));
    }
    judge(lp, verdict, &reported, names)
}

/// Scale so many times, undo it in reverse order, and compare.
fn there_and_back(general: &mut relp::data::linear_program::general_form::GeneralForm<RB>, n: usize) -> Result<(), Fail> {
    let before = general.clone();
    let scalings: Vec<_> = (0..n).map(|_| general.scale()).collect();
    if general == &before {
        ctx::note("scaling changes nothing");
    } else {
        ctx::nontrivial();
    }
    ctx::event(ctx::hash_dbg(general));
    for s in scalings.into_iter().rev() {
        general.scale_back(s);
    }
    if *general != before {
        return fail("undone", format!("undoing a scaling gives\n{general:?}\ninstead of\n{before:?}"));
    }
    Ok(())
}
