//! Reference model: an exact LP solver whose every verdict carries a certificate that is checked
//! independently of how it was found (weak duality, Farkas, recession ray).
use crate::rat::Q;
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Eq,
    Le,
    Ge,
    /// b - r <= ax <= b
    Range(Q),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Row {
    pub coefs: Vec<(usize, Q)>,
    pub kind: Kind,
    pub b: Q,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Var {
    pub cost: Q,
    pub lo: Option<Q>,
    pub up: Option<Q>,
}

/// A linear program in general form, as a user states it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lp {
    pub maximize: bool,
    pub fixed: Q,
    pub vars: Vec<Var>,
    pub rows: Vec<Row>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Infeasible,
    Unbounded,
    /// Optimal objective value in the program's own direction, with an optimal point.
    Optimal(Q, Vec<Q>),
}

impl Verdict {
    pub fn name(&self) -> &'static str {
        match self {
            Verdict::Infeasible => "infeasible",
            Verdict::Unbounded => "unbounded",
            Verdict::Optimal(..) => "optimal",
        }
    }
}

impl Row {
    pub fn interval(&self) -> (Option<Q>, Option<Q>) {
        match self.kind {
            Kind::Eq => (Some(self.b), Some(self.b)),
            Kind::Le => (None, Some(self.b)),
            Kind::Ge => (Some(self.b), None),
            Kind::Range(r) => (Some(self.b - r), Some(self.b)),
        }
    }
    pub fn eval(&self, x: &[Q]) -> Q {
        self.coefs.iter().fold(Q::ZERO, |s, &(j, c)| s + c * x[j])
    }
}

impl Lp {
    pub fn cost_of(&self, x: &[Q]) -> Q {
        self.vars.iter().zip(x).fold(self.fixed, |s, (v, &x)| s + v.cost * x)
    }
    /// First violated requirement of `x`, if any.
    pub fn violated(&self, x: &[Q]) -> Option<String> {
        for (j, v) in self.vars.iter().enumerate() {
            if let Some(l) = v.lo {
                if x[j] < l {
                    return Some(format!("x{j} = {} is below its lower bound {l}", x[j]));
                }
            }
            if let Some(u) = v.up {
                if x[j] > u {
                    return Some(format!("x{j} = {} is above its upper bound {u}", x[j]));
                }
            }
        }
        for (i, r) in self.rows.iter().enumerate() {
            let a = r.eval(x);
            let (lo, hi) = r.interval();
            if lo.is_some_and(|l| a < l) || hi.is_some_and(|h| a > h) {
                return Some(format!("row {i} has activity {a}, required {:?} {}", r.kind, r.b));
            }
        }
        None
    }

    /// The best lower bound on `sum c x` (without the constant) that multipliers `y` prove; `None`
    /// when they prove nothing.
    fn dual_bound(&self, c: &[Q], y: &[Q]) -> Option<Q> {
        let mut total = Q::ZERO;
        let mut d = c.to_vec();
        for (i, r) in self.rows.iter().enumerate() {
            let (lo, hi) = r.interval();
            if y[i].is_pos() {
                total = total + y[i] * lo?;
            } else if y[i].is_neg() {
                total = total + y[i] * hi?;
            }
            for &(j, a) in &r.coefs {
                d[j] = d[j] - y[i] * a;
            }
        }
        for (j, v) in self.vars.iter().enumerate() {
            if d[j].is_pos() {
                total = total + d[j] * v.lo?;
            } else if d[j].is_neg() {
                total = total + d[j] * v.up?;
            }
        }
        Some(total)
    }

    fn is_ray(&self, r: &[Q], c: &[Q]) -> bool {
        let improving = c.iter().zip(r).fold(Q::ZERO, |s, (&c, &r)| s + c * r).is_neg();
        improving
            && self.vars.iter().zip(r).all(|(v, r)| {
                !(v.lo.is_some() && r.is_neg()) && !(v.up.is_some() && r.is_pos())
            })
            && self.rows.iter().all(|row| {
                let a = row.eval(r);
                let (lo, hi) = row.interval();
                !(lo.is_some() && a.is_neg()) && !(hi.is_some() && a.is_pos())
            })
    }

    /// Solve exactly. Panics (a harness bug) if a certificate does not check.
    pub fn solve(&self) -> Verdict {
        let n = self.vars.len();
        let c: Vec<Q> = self.vars.iter().map(|v| if self.maximize { -v.cost } else { v.cost }).collect();
        // Trivially contradictory bounds or ranges.
        for v in &self.vars {
            if let (Some(l), Some(u)) = (v.lo, v.up) {
                if l > u {
                    return Verdict::Infeasible;
                }
            }
        }
        for r in &self.rows {
            if let Kind::Range(g) = r.kind {
                if g.is_neg() {
                    return Verdict::Infeasible;
                }
            }
        }
        // Standard form. Each structural variable maps to columns: x_j = off + sum s*col.
        let mut ncols = 0;
        let mut map: Vec<(Q, Vec<(usize, Q)>)> = Vec::new();
        let mut srows: Vec<(Vec<(usize, Q)>, Q, Option<(usize, Q)>)> = Vec::new(); // coefs, rhs, (general row, sign)
        let mut bound_rows = Vec::new();
        for v in &self.vars {
            match (v.lo, v.up) {
                (Some(l), u) => {
                    map.push((l, vec![(ncols, Q::ONE)]));
                    if let Some(u) = u {
                        bound_rows.push((ncols, u - l));
                    }
                    ncols += 1;
                }
                (None, Some(u)) => {
                    map.push((u, vec![(ncols, -Q::ONE)]));
                    ncols += 1;
                }
                (None, None) => {
                    map.push((Q::ZERO, vec![(ncols, Q::ONE), (ncols + 1, -Q::ONE)]));
                    ncols += 2;
                }
            }
        }
        let nstruct = ncols;
        let mut cost = vec![Q::ZERO; nstruct];
        for j in 0..n {
            for &(k, s) in &map[j].1 {
                cost[k] = cost[k] + s * c[j];
            }
        }
        for (i, r) in self.rows.iter().enumerate() {
            let mut dense = vec![Q::ZERO; nstruct];
            let mut off = Q::ZERO;
            for &(j, a) in &r.coefs {
                off = off + a * map[j].0;
                for &(k, s) in &map[j].1 {
                    dense[k] = dense[k] + a * s;
                }
            }
            let sparse: Vec<(usize, Q)> = dense.into_iter().enumerate().filter(|(_, v)| !v.is_zero()).collect();
            match r.kind {
                Kind::Eq => srows.push((sparse, r.b - off, Some((i, Q::ZERO)))),
                _ => {
                    let (lo, hi) = r.interval();
                    if let Some(h) = hi {
                        srows.push((sparse.clone(), h - off, Some((i, Q::ONE))));
                    }
                    if let Some(l) = lo {
                        srows.push((sparse, l - off, Some((i, -Q::ONE))));
                    }
                }
            }
        }
        for (k, u) in bound_rows {
            srows.push((vec![(k, Q::ONE)], u, Some((usize::MAX, Q::ONE))));
        }
        let m = srows.len();
        // Slack columns.
        for (_, _, tag) in &srows {
            if !tag.unwrap().1.is_zero() {
                ncols += 1;
            }
        }
        let width = ncols + m + 1; // columns, artificials, rhs
        let mut t = vec![vec![Q::ZERO; width]; m];
        let mut flip = vec![Q::ONE; m];
        let mut next = nstruct;
        for (i, (coefs, rhs, tag)) in srows.iter().enumerate() {
            for &(k, a) in coefs {
                t[i][k] = a;
            }
            let sign = tag.unwrap().1;
            if !sign.is_zero() {
                t[i][next] = sign; // ax + s = hi ; ax - s = lo
                next += 1;
            }
            t[i][width - 1] = *rhs;
            if rhs.is_neg() {
                flip[i] = -Q::ONE;
                for v in t[i].iter_mut() {
                    *v = -*v;
                }
            }
            t[i][ncols + i] = Q::ONE;
        }
        let mut basis: Vec<usize> = (0..m).map(|i| ncols + i).collect();
        // Cost rows: reduced costs, phase one first.
        let mut z1 = vec![Q::ZERO; width];
        for k in ncols..ncols + m {
            z1[k] = Q::ONE;
        }
        for row in &t {
            for (z, a) in z1.iter_mut().zip(row) {
                *z = *z - *a;
            }
        }
        let mut z2 = vec![Q::ZERO; width];
        z2[..nstruct].copy_from_slice(&cost);
        fn pivot(t: &mut [Vec<Q>], z1: &mut [Q], z2: &mut [Q], basis: &mut [usize], r: usize, k: usize) {
            let p = t[r][k];
            for v in t[r].iter_mut() {
                if !v.is_zero() {
                    *v = *v / p;
                }
            }
            let pr = t[r].clone();
            let elim = |row: &mut [Q]| {
                let f = row[k];
                if !f.is_zero() {
                    for (v, p) in row.iter_mut().zip(&pr) {
                        if !p.is_zero() {
                            *v = *v - f * *p;
                        }
                    }
                }
            };
            for (i, row) in t.iter_mut().enumerate() {
                if i != r {
                    elim(row);
                }
            }
            elim(z1);
            elim(z2);
            basis[r] = k;
        }
        let choose_row = |t: &[Vec<Q>], basis: &[usize], k: usize| -> Option<usize> {
            let mut best: Option<(Q, usize, usize)> = None;
            for i in 0..m {
                if t[i][k].is_pos() {
                    let ratio = t[i][width - 1] / t[i][k];
                    let better = match best {
                        None => true,
                        Some((r, b, _)) => ratio < r || (ratio == r && basis[i] < b),
                    };
                    if better {
                        best = Some((ratio, basis[i], i));
                    }
                }
            }
            best.map(|(_, _, i)| i)
        };
        let duals = |z: &[Q], base: Q| -> Vec<Q> {
            let mut y = vec![Q::ZERO; self.rows.len()];
            for (i, (_, _, tag)) in srows.iter().enumerate() {
                let (g, _) = tag.unwrap();
                if g != usize::MAX {
                    // reduced cost of artificial i is base - y_i (row as flipped)
                    y[g] = y[g] + (base - z[ncols + i]) * flip[i];
                }
            }
            y
        };
        let zero = vec![Q::ZERO; n];
        // Phase one (Bland).
        loop {
            let Some(k) = (0..ncols).find(|&k| z1[k].is_neg()) else { break };
            let r = choose_row(&t, &basis, k).expect("phase one cannot be unbounded");
            pivot(&mut t, &mut z1, &mut z2, &mut basis, r, k);
        }
        if !z1[width - 1].is_zero() {
            let y = duals(&z1, Q::ONE);
            let bound = self.dual_bound(&zero, &y).expect("Farkas certificate has no finite bound");
            assert!(bound.is_pos(), "Farkas certificate does not check");
            return Verdict::Infeasible;
        }
        // Drive artificials out where possible (rows where it is impossible stay, at zero).
        for i in 0..m {
            if basis[i] >= ncols {
                if let Some(k) = (0..ncols).find(|&k| !t[i][k].is_zero()) {
                    pivot(&mut t, &mut z1, &mut z2, &mut basis, i, k);
                }
            }
        }
        let point = |t: &[Vec<Q>], basis: &[usize]| -> Vec<Q> {
            let mut s = vec![Q::ZERO; nstruct];
            for i in 0..m {
                if basis[i] < nstruct {
                    s[basis[i]] = t[i][width - 1];
                }
            }
            map.iter().map(|(off, cols)| cols.iter().fold(*off, |v, &(k, c)| v + c * s[k])).collect()
        };
        loop {
            let Some(k) = (0..ncols).find(|&k| z2[k].is_neg()) else { break };
            match choose_row(&t, &basis, k) {
                Some(r) => pivot(&mut t, &mut z1, &mut z2, &mut basis, r, k),
                None => {
                    let x = point(&t, &basis);
                    assert!(self.violated(&x).is_none(), "unbounded verdict without a feasible point");
                    let mut d = vec![Q::ZERO; nstruct];
                    if k < nstruct {
                        d[k] = Q::ONE;
                    }
                    for i in 0..m {
                        if basis[i] < nstruct {
                            d[basis[i]] = -t[i][k];
                        }
                    }
                    let ray: Vec<Q> = map.iter().map(|(_, cols)| cols.iter().fold(Q::ZERO, |v, &(k, c)| v + c * d[k])).collect();
                    assert!(self.is_ray(&ray, &c), "recession ray does not check");
                    return Verdict::Unbounded;
                }
            }
        }
        let x = point(&t, &basis);
        if let Some(w) = self.violated(&x) {
            panic!("reference optimum is infeasible: {w}");
        }
        let y = duals(&z2, Q::ZERO);
        let value = c.iter().zip(&x).fold(Q::ZERO, |s, (&c, &x)| s + c * x);
        let bound = self.dual_bound(&c, &y).expect("dual certificate has no finite bound");
        assert!(bound == value, "dual certificate does not check: {bound} vs {value}");
        let obj = self.cost_of(&x);
        Verdict::Optimal(obj, x)
    }
}

impl fmt::Display for Lp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} {}", if self.maximize { "max" } else { "min" }, self.fixed)?;
        for (j, v) in self.vars.iter().enumerate() {
            if !v.cost.is_zero() {
                write!(f, " + {} x{j}", v.cost)?;
            }
        }
        writeln!(f)?;
        for (i, r) in self.rows.iter().enumerate() {
            write!(f, "  r{i}:")?;
            for &(j, a) in &r.coefs {
                write!(f, " + {a} x{j}")?;
            }
            match r.kind {
                Kind::Eq => writeln!(f, " == {}", r.b)?,
                Kind::Le => writeln!(f, " <= {}", r.b)?,
                Kind::Ge => writeln!(f, " >= {}", r.b)?,
                Kind::Range(g) => writeln!(f, " in [{}, {}]", r.b - g, r.b)?,
            }
        }
        for (j, v) in self.vars.iter().enumerate() {
            let s = |b: Option<Q>| b.map_or("inf".to_string(), |b| b.to_string());
            writeln!(f, "  x{j} in [{}{}, {}]", if v.lo.is_none() { "-" } else { "" }, s(v.lo), s(v.up))?;
        }
        Ok(())
    }
}
