//! Scenario generator: linear programs that exercise the solver's special cases.
use crate::ctx::*;
use crate::oracle::{Kind, Lp, Row, Var, Verdict};
use crate::rat::Q;

#[derive(Clone, Copy)]
pub struct GenCfg {
    pub max_vars: usize,
    pub max_rows: usize,
    /// Allow rational (non-integer) data.
    pub fractions: bool,
    /// Only non-negative variables without upper bounds: the matrix is what the program says.
    pub plain_vars: bool,
    pub ranges: bool,
    pub allow_empty_rows: bool,
    pub fixed_cost: bool,
    pub maximize: bool,
    /// Only what a problem file can say.
    pub decimal: bool,
    /// Problems with planted answers may have many rows.
    pub large: bool,
}

impl GenCfg {
    pub fn standard(max_vars: usize, max_rows: usize) -> GenCfg {
        GenCfg {
            max_vars,
            max_rows,
            fractions: true,
            plain_vars: false,
            ranges: true,
            allow_empty_rows: true,
            fixed_cost: true,
            maximize: true,
            decimal: false,
            large: false,
        }
    }
}

fn coef(cfg: &GenCfg, wide: bool) -> Q {
    let n = if wide { small(9) } else { small(3) };
    if cfg.fractions && chance(1, 10) {
        Q::new(n as i128, if cfg.decimal { *pick(&[2, 4, 5]) } else { *pick(&[2, 3, 4, 5, 7]) })
    } else {
        Q::int(n)
    }
}
fn nonzero(cfg: &GenCfg, wide: bool) -> Q {
    let c = coef(cfg, wide);
    if c.is_zero() { Q::ONE } else { c }
}

pub fn gen_var(cfg: &GenCfg) -> Var {
    let cost = if chance(1, 3) { Q::ZERO } else { coef(cfg, false) };
    if cfg.plain_vars {
        return Var { cost, lo: Some(Q::ZERO), up: None };
    }
    let (lo, up) = match below(12) {
        0..=3 => (Some(Q::ZERO), None),
        4 => (Some(Q::ZERO), Some(Q::int(1 + below(5) as i64))),
        5 => {
            let l = coef(cfg, false);
            (Some(l), None)
        }
        6 => (None, Some(if cfg.decimal { -coef(cfg, false).abs() } else { coef(cfg, false) })),
        7 => (None, None),
        8 | 9 => {
            let l = coef(cfg, false);
            (Some(l), Some(l + coef(cfg, true).abs()))
        }
        10 => {
            let l = coef(cfg, false);
            (Some(l), Some(l))
        }
        _ => (Some(Q::ZERO), Some(Q::ONE)),
    };
    Var { cost, lo, up }
}

/// Some point within the bounds.
fn point(vars: &[Var]) -> Vec<Q> {
    vars.iter()
        .map(|v| {
            let k = Q::int(below(4) as i64);
            match (v.lo, v.up) {
                (Some(l), Some(u)) => match below(3) {
                    0 => l,
                    1 => u,
                    _ => (l + u) / Q::int(2),
                },
                (Some(l), None) => l + k,
                (None, Some(u)) => u - k,
                (None, None) => k - Q::int(1),
            }
        })
        .collect()
}

pub fn gen_lp(cfg: &GenCfg) -> Lp {
    match below(16) {
        0..=10 => general(cfg),
        11 => transport(cfg),
        12 => klee_minty(cfg),
        13 => beale(cfg),
        14 => staircase(cfg),
        _ => degenerate(cfg),
    }
}

fn general(cfg: &GenCfg) -> Lp {
    let n = 1 + below(cfg.max_vars);
    let m = if cfg.allow_empty_rows { below(cfg.max_rows + 1) } else { 1 + below(cfg.max_rows) };
    let wide = chance(1, 4);
    let density = 1 + below(4) as u64;
    let vars: Vec<Var> = (0..n).map(|_| gen_var(cfg)).collect();
    let x0 = point(&vars);
    let mut rows: Vec<Row> = Vec::new();
    let feasible_bias = below(8); // 0..=5: consistent with x0; otherwise free right-hand sides
    for _ in 0..m {
        let how = below(10);
        let mut coefs: Vec<(usize, Q)> = Vec::new();
        if how == 9 && !rows.is_empty() {
            // A combination of earlier rows: rank deficiency.
            let a = below(rows.len());
            let b = below(rows.len());
            let (fa, fb) = (nonzero(cfg, false), coef(cfg, false));
            let mut dense = vec![Q::ZERO; n];
            for &(j, c) in &rows[a].coefs {
                dense[j] = dense[j] + fa * c;
            }
            for &(j, c) in &rows[b].coefs {
                dense[j] = dense[j] + fb * c;
            }
            coefs = dense.into_iter().enumerate().filter(|(_, c)| !c.is_zero()).collect();
        } else if how == 8 {
            // Singleton row: a bound in disguise.
            coefs.push((below(n), nonzero(cfg, false)));
        } else if how == 7 && cfg.allow_empty_rows && chance(1, 3) {
            // Empty row.
        } else {
            for j in 0..n {
                if draw(4) < density {
                    coefs.push((j, nonzero(cfg, wide)));
                }
            }
        }
        let activity = coefs.iter().fold(Q::ZERO, |s, &(j, c)| s + c * x0[j]);
        let kinds = if cfg.ranges { 4 } else { 3 };
        let slack = if chance(1, 2) { Q::ZERO } else { coef(cfg, false).abs() };
        let width = Q::int(1 + below(4) as i64) / Q::int(if cfg.fractions && chance(1, 6) { 2 } else { 1 });
        let (kind, mut b) = match below(kinds) {
            0 => (Kind::Le, activity + slack),
            1 => (Kind::Ge, activity - slack),
            2 => (Kind::Eq, activity),
            _ => (Kind::Range(width), activity + if chance(1, 2) { Q::ZERO } else { width }),
        };
        if feasible_bias > 5 {
            b = coef(cfg, true);
        }
        rows.push(Row { coefs, kind, b });
    }
    finish(cfg, vars, rows)
}

fn finish(cfg: &GenCfg, vars: Vec<Var>, rows: Vec<Row>) -> Lp {
    let fixed = if cfg.fixed_cost && chance(1, 4) { coef(cfg, true) } else { Q::ZERO };
    let maximize = cfg.maximize && chance(1, 3);
    Lp { maximize, fixed, vars, rows }
}

/// A transportation problem: totally unimodular, degenerate, and rank deficient by one.
fn transport(cfg: &GenCfg) -> Lp {
    let s = 1 + below(3.min(cfg.max_rows.max(2) - 1));
    let d = 1 + below(3.min((cfg.max_rows.max(2) - s).max(1)));
    let mut rows: Vec<Row> = Vec::new();
    let mut vars = Vec::new();
    let mut ship = Vec::new();
    for _ in 0..s * d {
        vars.push(Var { cost: coef(cfg, true), lo: Some(Q::ZERO), up: if !cfg.plain_vars && chance(1, 6) { Some(Q::int(below(5) as i64)) } else { None } });
        ship.push(Q::int(below(4) as i64));
    }
    for i in 0..s {
        let coefs: Vec<_> = (0..d).map(|j| (i * d + j, Q::ONE)).collect();
        let b = coefs.iter().fold(Q::ZERO, |t, &(k, _)| t + ship[k]);
        rows.push(Row { coefs, kind: Kind::Eq, b });
    }
    for j in 0..d {
        let coefs: Vec<_> = (0..s).map(|i| (i * d + j, Q::ONE)).collect();
        let b = coefs.iter().fold(Q::ZERO, |t, &(k, _)| t + ship[k]);
        rows.push(Row { coefs, kind: if chance(1, 5) { Kind::Ge } else { Kind::Eq }, b });
    }
    finish(cfg, vars, rows)
}

fn klee_minty(cfg: &GenCfg) -> Lp {
    let n = 2 + below(3.min(cfg.max_vars.max(2) - 1));
    let n = n.min(cfg.max_rows.max(1));
    let mut rows = Vec::new();
    let mut b = Q::ONE;
    for i in 0..n {
        let mut coefs: Vec<_> = (0..i).map(|j| (j, Q::int(1 << (i - j)) * Q::int(2))).collect();
        coefs.push((i, Q::ONE));
        rows.push(Row { coefs, kind: Kind::Le, b });
        b = b * Q::int(5);
    }
    let vars = (0..n)
        .map(|j| Var { cost: -Q::int(1 << (n - 1 - j)), lo: Some(Q::ZERO), up: None })
        .collect();
    finish(cfg, vars, rows)
}

/// The classic cycling examples, optionally permuted.
fn beale(cfg: &GenCfg) -> Lp {
    let f = |n: i128, d: i128| Q::new(n, d);
    let (cost, a, b): (Vec<Q>, Vec<Vec<Q>>, Vec<Q>) = match below(3) {
        0 => (
            vec![f(-3, 4), f(150, 1), f(-1, 50), f(6, 1)],
            vec![vec![f(1, 4), f(-60, 1), f(-1, 25), f(9, 1)], vec![f(1, 2), f(-90, 1), f(-1, 50), f(3, 1)], vec![f(0, 1), f(0, 1), f(1, 1), f(0, 1)]],
            vec![f(0, 1), f(0, 1), f(1, 1)],
        ),
        1 => (
            vec![f(-10, 1), f(57, 1), f(9, 1), f(24, 1)],
            vec![vec![f(1, 2), f(-11, 2), f(-5, 2), f(9, 1)], vec![f(1, 2), f(-3, 2), f(-1, 2), f(1, 1)], vec![f(1, 1), f(0, 1), f(0, 1), f(0, 1)]],
            vec![f(0, 1), f(0, 1), f(1, 1)],
        ),
        _ => (
            vec![f(-2, 1), f(-3, 1), f(1, 1), f(12, 1)],
            vec![vec![f(-2, 1), f(-9, 1), f(1, 1), f(9, 1)], vec![f(1, 3), f(1, 1), f(-1, 3), f(-2, 1)], vec![f(2, 1), f(3, 1), f(-1, 1), f(-12, 1)]],
            vec![f(0, 1), f(0, 1), f(2, 1)],
        ),
    };
    let mut perm: Vec<usize> = (0..4).collect();
    shuffle(&mut perm);
    let vars = perm.iter().map(|&j| Var { cost: cost[j], lo: Some(Q::ZERO), up: None }).collect();
    let rows = a
        .iter()
        .zip(&b)
        .map(|(r, &b)| Row {
            coefs: perm.iter().enumerate().filter(|&(_, &j)| !r[j].is_zero()).map(|(k, &j)| (k, r[j])).collect(),
            kind: Kind::Le,
            b,
        })
        .collect();
    let mut lp = finish(cfg, vars, rows);
    lp.maximize = false;
    lp
}

/// A chain of equality-linked stages, the shape multi-period models have.
fn staircase(cfg: &GenCfg) -> Lp {
    let k = 2 + below((cfg.max_rows.max(3) - 1).min(5));
    let mut vars = Vec::new();
    let mut rows = Vec::new();
    for t in 0..k {
        vars.push(Var { cost: coef(cfg, false).abs(), lo: Some(Q::ZERO), up: if cfg.plain_vars || chance(1, 2) { None } else { Some(Q::int(2 + below(4) as i64)) } });
        vars.push(Var { cost: if chance(1, 2) { Q::ZERO } else { coef(cfg, false) }, lo: Some(Q::ZERO), up: None });
        let mut coefs = Vec::new();
        if t > 0 {
            coefs.push((2 * (t - 1) + 1, Q::ONE));
        }
        coefs.push((2 * t, nonzero(cfg, false).abs()));
        coefs.push((2 * t + 1, -Q::ONE));
        rows.push(Row { coefs, kind: *pick(&[Kind::Eq, Kind::Eq, Kind::Ge]), b: Q::int(below(4) as i64) });
    }
    finish(cfg, vars, rows)
}

/// Many constraints active at one vertex.
fn degenerate(cfg: &GenCfg) -> Lp {
    let n = 2 + below(cfg.max_vars.max(3) - 1);
    let m = 2 + below(cfg.max_rows.max(3) - 1);
    let vars: Vec<Var> = (0..n).map(|_| Var { cost: coef(cfg, false), lo: Some(Q::ZERO), up: if !cfg.plain_vars && chance(1, 3) { Some(Q::int(1 + below(2) as i64)) } else { None } }).collect();
    let rows = (0..m)
        .map(|_| {
            let coefs: Vec<_> = (0..n).map(|j| (j, coef(cfg, false))).filter(|(_, c)| !c.is_zero()).collect();
            let b = if chance(1, 4) { Q::ONE } else { Q::ZERO };
            Row { coefs, kind: *pick(&[Kind::Le, Kind::Ge, Kind::Eq, Kind::Le]), b }
        })
        .collect();
    finish(cfg, vars, rows)
}

/// A cone, or nearly so: every pivot from the slack basis is degenerate.
pub fn gen_cone() -> Lp {
    let m = 2 + below(3);
    let n = 4 + below(4);
    let k = 1 + below(4) as i64;
    let one = below(m + 1);
    let lp = (0..m)
        .map(|i| {
            let coefs = (0..n).map(|j| (j, Q::int(small(k)))).filter(|(_, v)| !v.is_zero()).collect();
            Row { coefs, kind: Kind::Le, b: if i == one || chance(1, 8) { Q::ONE } else { Q::ZERO } }
        })
        .collect();
    let vars = (0..n).map(|_| Var { cost: Q::int(small(k)), lo: Some(Q::ZERO), up: None }).collect();
    Lp { maximize: false, fixed: Q::ZERO, vars, rows: lp }
}

/// A problem on which a wrong way to break ties makes the smallest-index rule cycle, with its rows
/// and columns multiplied by positive numbers, which changes neither ties nor pivots.
pub fn gen_cycling() -> Lp {
    let (_, a, c, b) = pick(crate::cycling::CYCLING);
    let factors = |n: usize| -> Vec<Q> {
        (0..n).map(|_| if chance(1, 3) { Q::new(1 + below(4) as i128, 1 + below(3) as i128) } else { Q::ONE }).collect()
    };
    let scaled = chance(1, 2);
    let (rows, columns) = if scaled { (factors(a.len()), factors(c.len())) } else { (vec![Q::ONE; a.len()], vec![Q::ONE; c.len()]) };
    let lp_rows = a
        .iter()
        .zip(b.iter())
        .enumerate()
        .map(|(i, (r, b))| Row {
            coefs: r.iter().enumerate().filter(|(_, v)| **v != 0).map(|(j, v)| (j, Q::int(*v) * rows[i] * columns[j])).collect(),
            kind: Kind::Le,
            b: Q::int(*b) * rows[i],
        })
        .collect();
    let vars = c.iter().enumerate().map(|(j, c)| Var { cost: Q::int(*c) * columns[j], lo: Some(Q::ZERO), up: None }).collect();
    Lp { maximize: false, fixed: Q::ZERO, vars, rows: lp_rows }
}

/// Such a problem, but it is finding a feasible point that cycles: the violation of another equation
/// is the objective there.
pub fn gen_cycling_phase_one() -> Lp {
    let mut lp = gen_cycling();
    let coefs = lp.vars.iter().enumerate().filter(|(_, v)| !v.cost.is_zero()).map(|(j, v)| (j, -v.cost)).collect();
    lp.rows.push(Row { coefs, kind: Kind::Eq, b: Q::new(1 + below(40) as i128, 1 + below(8) as i128) });
    for v in lp.vars.iter_mut() {
        v.cost = Q::int(below(5) as i64 - 1);
    }
    lp
}

/// A larger problem whose answer is known by construction, from a certificate rather than from
/// solving it: a primal and a dual point that are complementary, a combination of rows that
/// contradicts another row, or a feasible point with a ray along which the objective improves.
pub fn planted(max_vars: usize, max_rows: usize, decimal: bool) -> (Lp, Verdict) {
    let cfg = GenCfg { fractions: chance(1, 4), decimal, ..GenCfg::standard(max_vars, max_rows) };
    let n = max_vars / 2 + below(max_vars / 2 + 1);
    let m = max_rows / 2 + below(max_rows / 2 + 1);
    let mut vars: Vec<Var> = (0..n).map(|_| gen_var(&cfg)).collect();
    let x = point(&vars);
    let per_row = 2 + below(3);
    // Many rows that are tight at the planted point make it degenerate.
    let tight = 1 + draw(4);
    let mut rows: Vec<Row> = Vec::new();
    let mut y: Vec<Q> = Vec::new();
    let what = below(8);
    let ray: Option<Vec<Q>> = (what == 0).then(|| {
        let mut r: Vec<Q> = vars
            .iter()
            .map(|v| {
                let step = Q::int(below(3) as i64);
                match (v.lo, v.up) {
                    (None, None) => if chance(1, 2) { step } else { -step },
                    (_, None) => step,
                    (None, _) => -step,
                    _ => Q::ZERO,
                }
            })
            .collect();
        if r.iter().all(|v| v.is_zero()) {
            vars[0].up = None;
            r[0] = Q::ONE;
        }
        r
    });
    for i in 0..m {
        let mut dense = vec![Q::ZERO; n];
        if i > 1 && chance(1, 8) {
            // Depends on earlier rows.
            for _ in 0..2 {
                let f = nonzero(&cfg, false);
                for &(j, c) in &rows[below(i)].coefs {
                    dense[j] = dense[j] + f * c;
                }
            }
        } else {
            for _ in 0..per_row {
                dense[below(n)] = nonzero(&cfg, false);
            }
        }
        let coefs: Vec<(usize, Q)> = dense.into_iter().enumerate().filter(|(_, c)| !c.is_zero()).collect();
        let value = |p: &[Q]| coefs.iter().fold(Q::ZERO, |s, &(j, c)| s + c * p[j]);
        let activity = value(&x);
        let along = ray.as_ref().map_or(Q::ZERO, |r| value(r));
        let is_tight = draw(4) < tight;
        let gap = if is_tight { Q::ZERO } else { Q::int(1 + below(3) as i64) };
        let width = gap + Q::int(1 + below(3) as i64);
        let price = Q::int(below(4) as i64);
        // The dual sign of a minimisation: non-negative for `>=`, non-positive for `<=`.
        let choice = if along.is_pos() { 1 } else if along.is_neg() { 0 } else { below(5) };
        let (kind, b, dual) = match choice {
            0 => (Kind::Le, activity + gap, -price),
            1 => (Kind::Ge, activity - gap, price),
            2 => (Kind::Range(width), activity + gap, -price),
            3 => (Kind::Range(width), activity - gap + width, price),
            _ => (Kind::Eq, activity, if chance(1, 2) { price } else { -price }),
        };
        y.push(if gap.is_zero() || matches!(kind, Kind::Eq) { dual } else { Q::ZERO });
        rows.push(Row { coefs, kind, b });
    }
    let mut cost = vec![Q::ZERO; n];
    let verdict = if let Some(ray) = &ray {
        for c in cost.iter_mut() {
            *c = coef(&cfg, false);
        }
        let improves = cost.iter().zip(ray).fold(Q::ZERO, |s, (&c, &r)| s + c * r);
        if improves.is_zero() {
            let j = ray.iter().position(|r| !r.is_zero()).unwrap();
            cost[j] = cost[j] - ray[j];
        } else if improves.is_pos() {
            for c in cost.iter_mut() {
                *c = -*c;
            }
        }
        Verdict::Unbounded
    } else if what == 1 && m > 1 {
        // The rows imply `activity <= most`, another row asks for more.
        let mut dense = vec![Q::ZERO; n];
        let mut most = Q::ZERO;
        for row in &rows {
            if chance(1, 3) {
                let f = Q::int(1 + below(3) as i64);
                let (lower, upper) = row.interval();
                let (f, bound) = match (lower, upper) {
                    (_, Some(u)) if lower.is_none() || chance(1, 2) => (f, u),
                    (Some(l), _) => (-f, l),
                    _ => continue,
                };
                most = most + f * bound;
                for &(j, c) in &row.coefs {
                    dense[j] = dense[j] + f * c;
                }
            }
        }
        let more = most + if chance(1, 2) { Q::ONE } else { Q::new(1, if decimal { 2 } else { 1 + below(5) as i128 }) };
        let coefs = dense.into_iter().enumerate().filter(|(_, c)| !c.is_zero()).collect();
        let row = if chance(1, 2) {
            Row { coefs, kind: Kind::Ge, b: more }
        } else {
            Row { coefs, kind: Kind::Eq, b: more }
        };
        rows.insert(below(rows.len() + 1), row);
        for c in cost.iter_mut() {
            *c = coef(&cfg, false);
        }
        Verdict::Infeasible
    } else {
        for (row, &y) in rows.iter().zip(&y) {
            for &(j, c) in &row.coefs {
                cost[j] = cost[j] + y * c;
            }
        }
        for (j, v) in vars.iter().enumerate() {
            let d = Q::int(below(3) as i64);
            let (at_lower, at_upper) = (v.lo == Some(x[j]), v.up == Some(x[j]));
            if at_lower && (!at_upper || chance(1, 2)) {
                cost[j] = cost[j] + d;
            } else if at_upper {
                cost[j] = cost[j] - d;
            }
        }
        Verdict::Optimal(Q::ZERO, x.clone())
    };
    let maximize = chance(1, 3);
    for (v, c) in vars.iter_mut().zip(cost) {
        v.cost = if maximize { -c } else { c };
    }
    let fixed = if chance(1, 4) { coef(&cfg, true) } else { Q::ZERO };
    let lp = Lp { maximize, fixed, vars, rows };
    let verdict = match verdict {
        Verdict::Optimal(..) => Verdict::Optimal(lp.cost_of(&x), x),
        v => v,
    };
    (lp, verdict)
}

/// The same problem in other units: rows multiplied, variables measured by another standard, such
/// that its numbers become large, small or awkward. The answer follows without solving it again.
/// Overflow of the reference numbers is impossible: each new number has few factors.
pub fn other_units(lp: &Lp, verdict: &Verdict, decimal: bool) -> (Lp, Verdict) {
    let factor = |many: bool| -> Q {
        if !chance(1, if many { 1 } else { 3 }) {
            return Q::ONE;
        }
        let (n, d) = if decimal {
            *pick(&[(10, 1), (100, 1), (1000, 1), (100_000, 1), (8, 1), (125, 1), (1, 10), (1, 100), (1, 4), (1, 25), (1, 100_000)])
        } else {
            *pick(&[
                (10, 1), (1000, 1), (1 << 16, 1), (1_000_003, 1), (1 << 31, 1), (4_294_967_291, 1), (1, 10),
                (1, 1000), (1, 1 << 16), (1, 65_537), (1_000_003, 1000), (355, 113), (99, 100), (1, 1_000_003),
            ])
        };
        Q::new(n, d)
    };
    let many = chance(1, 2);
    let columns: Vec<Q> = lp.vars.iter().map(|_| factor(many)).collect();
    let rows: Vec<Q> = lp.rows.iter().map(|_| factor(many)).collect();
    let mut new = lp.clone();
    for (v, &s) in new.vars.iter_mut().zip(&columns) {
        v.cost = v.cost * s;
        v.lo = v.lo.map(|b| b / s);
        v.up = v.up.map(|b| b / s);
    }
    for (row, &r) in new.rows.iter_mut().zip(&rows) {
        for (j, c) in row.coefs.iter_mut() {
            *c = *c * r * columns[*j];
        }
        row.b = row.b * r;
        if let Kind::Range(w) = &mut row.kind {
            *w = *w * r;
        }
    }
    let verdict = match verdict {
        Verdict::Optimal(value, x) => Verdict::Optimal(*value, x.iter().zip(&columns).map(|(&x, &s)| x / s).collect()),
        v => v.clone(),
    };
    note("other units");
    (new, verdict)
}

/// A problem and its answer: usually from the family of small problems, solved by the reference
/// model, and one in `every` times a larger one with a planted answer. Some are put in other units.
pub fn gen_answered(cfg: &GenCfg, every: u64) -> (Lp, Verdict) {
    let (lp, verdict) = gen_known(cfg, every);
    if chance(1, 25) { other_units(&lp, &verdict, cfg.decimal) } else { (lp, verdict) }
}

/// A problem for a file, sometimes with numbers of many digits.
pub fn gen_for_file(size: usize) -> Lp {
    let lp = gen_lp(&GenCfg::standard(size, size));
    if chance(1, 12) { other_units(&lp, &Verdict::Infeasible, true).0 } else { lp }
}

fn gen_known(cfg: &GenCfg, every: u64) -> (Lp, Verdict) {
    if every == 0 || !chance(1, every) {
        let lp = gen_lp(cfg);
        let verdict = lp.solve();
        return (lp, verdict);
    }
    let (n, m) = if cfg.large && chance(1, 12) { (90, 72) } else { *pick(&[(6, 5), (12, 10), (20, 16), (36, 28)]) };
    let (lp, verdict) = planted(n, m, cfg.decimal);
    note("planted answer");
    if lp.rows.len() > 64 {
        note("more than 64 rows");
    }
    let agrees = |v: Verdict| match (&v, &verdict) {
        (Verdict::Optimal(a, _), Verdict::Optimal(b, _)) => a == b,
        _ => v.name() == verdict.name(),
    };
    if n <= 6 && !agrees(lp.solve()) {
        panic!("the two reference models disagree on\n{lp}: {:?} instead of {verdict:?}", lp.solve());
    }
    (lp, verdict)
}
