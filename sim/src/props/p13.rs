//! Redundant equations are recognised and removed, and nothing else is.
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::filter::Filtered;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::{IntoFilteredColumn, RemoveRows};
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::data::linear_program::elements::BoundDirection;

use crate::conv::{RB, general_form};
use crate::ctx;
use crate::lpgen::{self, GenCfg};
use crate::oracle::{Kind, Lp, Row, Var, Verdict};
use crate::pipeline::*;
use crate::rat::Q;
use crate::rule::{self, WHICH};
use crate::runner::{Fail, Property, fail};
use crate::seam::{self, Refactor};

pub const PROPERTY: Property = Property {
    id: "P13",
    title: "Redundant rows are recognised and dropped, and the answer stays exact",
    scenario,
    quick_runs: 400_000,
    thorough_secs: 450,
    rule: "a run counts when the equations were linearly dependent and the solver dropped rows, or declared the system inconsistent; distinct by its complete history",
    state_measure: "distinct pairs of system and set of dropped rows, and distinct bases",
    real: &["phase one rank detection", "row-filtering provider", "both ways of continuing without the dropped rows (rebuild, and removal from the inverse)", "phase two", "standardisation"],
    stub: &["pivot and replacement choices and refactorisation moments come from the simulator"],
    assumptions: &["the reference model's rank computation is right"],
    must_reach: &["rows taken away one by one", "rows taken away from what was left", "more than 64 rows", "rank deficient", "dependent and inconsistent", "forced replacement of an artificial variable", "forced refactorisation"],
};

/// Many equations, some of which follow from others, and an answer that is known: prices for a point.
fn large_dependent() -> (Lp, Verdict) {
    let (n, base, extra) = *ctx::pick(&[(20, 12, 6), (40, 30, 10), (70, 50, 30), (90, 66, 12)]);
    // Two vertices per variable, as in a network, keep numbers small.
    let mut dense = vec![vec![Q::ZERO; n]; base];
    for j in 0..n {
        let (a, b) = (ctx::below(base), ctx::below(base));
        dense[a][j] = Q::ONE;
        if a != b && !ctx::chance(1, 4) {
            dense[b][j] = -Q::ONE;
        }
    }
    for _ in 0..extra {
        let (a, b) = (ctx::below(dense.len()), ctx::below(dense.len()));
        let (f, g) = (*ctx::pick(&[Q::ONE, -Q::ONE, Q::int(2)]), *ctx::pick(&[Q::ZERO, Q::ONE, -Q::ONE]));
        if dense[a].iter().chain(&dense[b]).all(|v| v.n.abs() < 20) {
            dense.push((0..n).map(|j| f * dense[a][j] + g * dense[b][j]).collect());
        }
    }
    let last = dense.len() - 1;
    let mut order: Vec<usize> = (0..dense.len()).collect();
    ctx::shuffle(&mut order);
    let x0: Vec<Q> = (0..n).map(|_| Q::int(ctx::below(2) as i64 * ctx::below(5) as i64)).collect();
    let broken = last >= base && ctx::chance(1, 5);
    let mut cost: Vec<Q> = x0.iter().map(|x| if x.is_zero() { Q::int(ctx::below(4) as i64) } else { Q::ZERO }).collect();
    let mut rows = Vec::new();
    for i in order {
        let price = Q::int(ctx::small(2));
        let mut b = Q::ZERO;
        for j in 0..n {
            b = b + dense[i][j] * x0[j];
            cost[j] = cost[j] + price * dense[i][j];
        }
        if broken && i == last {
            b = b + Q::int(1 + ctx::below(3) as i64);
        }
        let coefs = dense[i].iter().enumerate().filter(|(_, v)| !v.is_zero()).map(|(j, &v)| (j, v)).collect();
        rows.push(Row { coefs, kind: Kind::Eq, b });
    }
    if rows.len() > 64 {
        ctx::note("more than 64 rows");
    }
    let vars = cost.into_iter().map(|cost| Var { cost, lo: Some(Q::ZERO), up: None }).collect();
    let lp = Lp { maximize: false, fixed: Q::ZERO, vars, rows };
    let verdict = if broken { Verdict::Infeasible } else { Verdict::Optimal(lp.cost_of(&x0), x0) };
    (lp, verdict)
}

/// Equations with a known dependency structure.
fn dependent() -> Lp {
    let n = 2 + ctx::below(5);
    let base = 1 + ctx::below(3.min(n));
    let extra = 1 + ctx::below(4);
    let vars: Vec<Var> = (0..n)
        .map(|_| Var { cost: Q::int(ctx::small(4)), lo: Some(Q::ZERO), up: if ctx::chance(1, 6) { Some(Q::int(1 + ctx::below(4) as i64)) } else { None } })
        .collect();
    let x0: Vec<Q> = vars.iter().map(|v| if v.up.is_some() { Q::int(ctx::below(2) as i64) } else { Q::int(ctx::below(4) as i64) }).collect();
    let mut dense: Vec<Vec<Q>> = (0..base).map(|_| (0..n).map(|_| if ctx::chance(1, 2) { Q::ZERO } else { Q::int(ctx::small(3)) }).collect()).collect();
    for _ in 0..extra {
        let mut row = vec![Q::ZERO; n];
        if !ctx::chance(1, 8) {
            for b in 0..base {
                let f = Q::new(ctx::small(2) as i128, 1 + ctx::below(2) as i128);
                for j in 0..n {
                    row[j] = row[j] + f * dense[b][j];
                }
            }
        }
        dense.push(row);
    }
    ctx::shuffle(&mut dense);
    let broken = ctx::chance(1, 5);
    let mut rows: Vec<Row> = dense
        .into_iter()
        .map(|row| {
            let b = row.iter().zip(&x0).fold(Q::ZERO, |s, (&a, &x)| s + a * x);
            let coefs = row.into_iter().enumerate().filter(|(_, a)| !a.is_zero()).collect();
            Row { coefs, kind: Kind::Eq, b }
        })
        .collect();
    if broken {
        let i = ctx::below(rows.len());
        rows[i].b = rows[i].b + Q::ONE;
    }
    if ctx::chance(1, 4) {
        let i = ctx::below(rows.len());
        rows[i].kind = *ctx::pick(&[Kind::Le, Kind::Ge, Kind::Range(Q::int(2))]);
    }
    Lp { maximize: ctx::chance(1, 4), fixed: Q::ZERO, vars, rows }
}

fn rank(columns: &[Vec<(usize, RB)>], rows: &[usize]) -> usize {
    let mut a: Vec<Vec<Q>> = rows
        .iter()
        .map(|&i| columns.iter().map(|c| c.iter().find(|(k, _)| *k == i).map_or(Q::ZERO, |(_, v)| crate::conv::q(v))).collect())
        .collect();
    let mut r = 0;
    for j in 0..columns.len() {
        let Some(p) = (r..a.len()).find(|&i| !a[i][j].is_zero()) else { continue };
        a.swap(r, p);
        let pivot = a[r].clone();
        for row in a.iter_mut().skip(r + 1) {
            if !row[j].is_zero() {
                let f = row[j] / pivot[j];
                for (x, y) in row.iter_mut().zip(&pivot) {
                    *x = *x - f * *y;
                }
            }
        }
        r += 1;
    }
    r
}

fn scenario() -> Result<(), Fail> {
    let large = ctx::chance(1, 400);
    let (lp, verdict) = if large {
        large_dependent()
    } else if ctx::chance(1, 80) {
        ctx::note("planted answer");
        let (n, m) = *ctx::pick(&[(8, 6), (12, 10)]);
        lpgen::planted(n, m, false)
    } else {
        let lp = if ctx::chance(1, 4) { lpgen::gen_lp(&GenCfg::standard(6, 6)) } else { dependent() };
        let verdict = lp.solve();
        if ctx::chance(1, 25) { lpgen::other_units(&lp, &verdict, false) } else { (lp, verdict) }
    };
    let engine = draw_engine();
    let route = match ctx::below(4) {
        0 => Route::Standard,
        1 => Route::NoBasis,
        _ => Route::Observed { fully: ctx::chance(1, 3) },
    };
    let mut knobs = draw_knobs();
    if large && matches!(knobs.refactor, Refactor::Never | Refactor::Always) {
        knobs.refactor = Refactor::Default;
    }
    describe(&lp, engine, route, &knobs);
    seam::set_knobs(knobs);
    seam::install_hooks();
    ctx::set_step_limit(4 * SOLVE_STEPS);
    seam::limit_pivots(SOLVE_PIVOTS + 60 * (lp.rows.len() + lp.vars.len()) as u64);
    let check = if large { 0 } else { *ctx::pick(&[0u64, 1, 2]) };
    rule::observe(observer(*ctx::pick(&WHICH), check));

    let mut general = general_form(&lp);
    let counts = general.standardize();
    let equations = counts[0];
    let data = general.derive_matrix_data(counts);
    let m = data.nr_rows();
    let model = model_of(&data, &[], false);
    let all: Vec<usize> = (0..m).collect();
    forget_phase_one();
    let a = solve(&data, engine, route);
    ctx::clear_step_limit();
    seam::limit_pivots(u64::MAX);
    let full_rank = rank(&model.columns, &all) == m;
    if a == Answer::Infeasible && !full_rank {
        ctx::note("dependent and inconsistent");
        ctx::nontrivial();
    }
    if let Some(rows) = phase_one_removed() {
        ctx::log(|| format!("rows dropped: {rows:?} of {m}"));
        ctx::state(ctx::mix(ctx::hash_str(&lp.to_string()), ctx::hash_dbg(&rows)));
        let mut sorted = rows.clone();
        sorted.sort_unstable();
        sorted.dedup();
        if sorted != rows || rows.iter().any(|&i| i >= m) {
            return fail("dropped rows", format!("{rows:?} is no set of rows of {m}, for\n{lp}"));
        }
        let kept: Vec<usize> = all.iter().copied().filter(|i| !rows.contains(i)).collect();
        let (r, k) = (rank(&model.columns, &all), rank(&model.columns, &kept));
        if k != kept.len() || k != r {
            return fail("rank", format!("rows {rows:?} are dropped; the rank was {r} and that of the {} rows kept is {k}, for\n{lp}", kept.len()));
        }
        if !rows.is_empty() {
            ctx::nontrivial();
            filtered_view(&data, &RemoveRows::new(&data, rows.clone()), &rows, &model, &kept)?;
        }
    }
    if equations > 0 && ctx::chance(1, 4) {
        // Any equations, taken away at once or one after another.
        let mut rest = all.clone();
        let mut removed = RemoveRows::new(&data, Vec::new());
        let mut gone = Vec::new();
        for _ in 0..1 + ctx::below(equations) {
            let at = ctx::below(equations - gone.len());
            removed.delete_row(at);
            gone.push(rest.remove(at));
            ctx::event(at as u64);
        }
        ctx::note("rows taken away one by one");
        gone.sort_unstable();
        if ctx::chance(1, 2) {
            removed = RemoveRows::new(&data, gone.clone());
        }
        filtered_view(&data, &removed, &gone, &model, &rest)?;
        if equations > gone.len() && ctx::chance(1, 2) {
            // What is left is a problem like any other, from which more can be taken.
            let left: Vec<usize> = (0..equations - gone.len()).collect();
            let mut more: Vec<usize> = left.iter().copied().filter(|_| ctx::chance(1, 2)).collect();
            if more.is_empty() {
                more.push(left[ctx::below(left.len())]);
            }
            ctx::note("rows taken away from what was left");
            let smaller = rule::Model {
                columns: (0..data.nr_columns()).map(|j| model.columns[j].iter().filter_map(|(i, v)| rest.iter().position(|k| k == i).map(|k| (k, v.clone()))).collect()).collect(),
                costs: model.costs.clone(),
                rhs: rest.iter().map(|&i| model.rhs[i].clone()).collect(),
            };
            let kept: Vec<usize> = (0..rest.len()).filter(|i| !more.contains(i)).collect();
            filtered_view(&removed, &RemoveRows::new(&removed, more.clone()), &more, &smaller, &kept)?;
        }
    }
    let reported = match a {
        Answer::Infeasible => without_solution("infeasible"),
        Answer::Unbounded => without_solution("unbounded"),
        Answer::Optimal(v) => {
            let reduced = data.reconstruct_solution(v);
            solution(&general.compute_full_solution_with_reduced_solution(reduced), true)
        }
    };
    judge(&lp, &verdict, &reported, &default_names(&lp))
}

/// The problem without some rows is just that.
fn filtered_view<'d, MP>(
    data: &'d MP,
    removed: &'d RemoveRows<'d, MP>,
    rows: &[usize],
    model: &crate::rule::Model,
    kept: &[usize],
) -> Result<(), Fail>
where
    MP: MatrixProvider<Rhs = RB, Column: IntoFilteredColumn<F = RB>> + PartialInitialBasis,
    MP::Cost<'d>: PartialEq,
{
    use relp::algorithm::two_phase::matrix_provider::column::Column;
    if removed.filtered_rows() != rows {
        return fail("filtered rows", format!("{:?} instead of {rows:?}", removed.filtered_rows()));
    }
    if removed.nr_constraints() != data.nr_constraints() - rows.len() || removed.nr_variable_bounds() != data.nr_variable_bounds() {
        return fail("filtered size", format!("{} constraints and {} bounds after dropping {rows:?}", removed.nr_constraints(), removed.nr_variable_bounds()));
    }
    for (i, &k) in kept.iter().enumerate() {
        if removed.get_underlying_row_index(i) != k {
            return fail("underlying row", format!("row {i} is said to be {} instead of {k} after dropping {rows:?}", removed.get_underlying_row_index(i)));
        }
    }
    let mut units = removed.pivot_element_indices();
    units.sort_unstable();
    let mut expected: Vec<(usize, usize)> =
        data.pivot_element_indices().into_iter().filter_map(|(i, j)| kept.iter().position(|&k| k == i).map(|i| (i, j))).collect();
    expected.sort_unstable();
    if units != expected || removed.nr_initial_elements() != expected.len() {
        return fail("filtered initial basis", format!("{units:?} ({}) instead of {expected:?} after dropping {rows:?}", removed.nr_initial_elements()));
    }
    if removed.nr_rows() != kept.len() || removed.nr_columns() != data.nr_columns() {
        return fail("filtered size", format!("{} x {} after dropping {rows:?}", removed.nr_rows(), removed.nr_columns()));
    }
    for j in 0..data.nr_columns() {
        let mut found: Vec<(usize, RB)> = removed.column(j).iter().map(|(i, v)| (i, RB::from(v))).collect();
        found.sort_by_key(|x| x.0);
        let mut expected: Vec<(usize, RB)> =
            model.columns[j].iter().filter_map(|(i, v)| kept.iter().position(|k| k == i).map(|k| (k, v.clone()))).collect();
        expected.sort_by_key(|x| x.0);
        if found != expected {
            return fail("filtered column", format!("column {j} is {found:?} instead of {expected:?} after dropping {rows:?}"));
        }
        if removed.cost_value(j) != data.cost_value(j) {
            return fail("filtered cost", format!("column {j} costs something else after dropping {rows:?}"));
        }
        for direction in [BoundDirection::Lower, BoundDirection::Upper] {
            let expected = data.bound_row_index(j, direction).and_then(|i| kept.iter().position(|&k| k == i));
            let found = removed.bound_row_index(j, direction);
            if found != expected {
                return fail("filtered bound row", format!("bound {direction:?} of column {j} is in row {found:?} instead of {expected:?} after dropping {rows:?}"));
            }
        }
    }
    let rhs: Vec<RB> = removed.right_hand_side().into_iter().collect();
    let expected: Vec<RB> = kept.iter().map(|&i| model.rhs[i].clone()).collect();
    if rhs != expected {
        return fail("filtered right hand side", format!("{rhs:?} instead of {expected:?} after dropping {rows:?}"));
    }
    Ok(())
}
