//! Both representations of a basis inverse, through long histories of updates.
//!
//! The harness owns the true basis matrix: the column that is basic in each row, in the original
//! coordinates. Whatever a representation answers is multiplied with that matrix.
use std::cell::Cell;
use std::panic::{AssertUnwindSafe, catch_unwind};

use relp::algorithm::two_phase::matrix_provider::column::SparseColumn;
use relp::algorithm::two_phase::tableau::inverse_maintenance::ColumnComputationInfo;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::{BasisInverse, RemoveBasisPart};
use relp::data::linear_algebra::vector::{SparseVector, Vector};

use crate::conv::{RB, q, rb};
use crate::ctx::{self, InjectedCrash};
use crate::rat::Q;
use crate::runner::{Fail, Property, fail};

pub const PROPERTY: Property = Property {
    id: "P04",
    title: "The basis inverse stays exact through any history of updates",
    scenario,
    quick_runs: 250_000,
    thorough_secs: 500,
    rule: "a run counts when a query was answered after at least three updates in a row without refactorisation; distinct by its complete history",
    state_measure: "distinct basis matrices of which the inverse was queried",
    real: &["LU decomposition with its permutations, Markowitz pivoting and eta files", "explicit rows of the inverse", "removal of rows and columns from the explicit inverse"],
    stub: &["the tableau around it: the harness decides which column enters at which row, when the inverse is rebuilt and what is asked"],
    assumptions: &["printing and constructing of relp-num's big rationals is right", "the harness' own multiplication of a matrix with a vector is right"],
    must_reach: &["number of many digits", 
        "more than 30 updates without refactorisation",
        "rebuilt from the basis",
        "rebuilt in the other representation",
        "removed rows",
        "removed several rows at once",
        "same row again",
        "order 1",
        "order above 8",
        "order above 31",
        "crash while the caller's column is read",
        "fractional column",
    ],
};

type Col = Vec<(usize, Q)>;
type LuInfo = <LUDecomposition<RB> as BasisInverse>::ColumnComputationInfo;

enum Inverse {
    Lu(LUDecomposition<RB>),
    Rows(BasisInverseRows<RB>),
}
enum Info {
    Lu(LuInfo),
    Rows(SparseVector<RB, RB>),
}

/// A caller's column that may break off while it is read.
#[derive(Clone)]
struct Reader<'a> {
    items: std::slice::Iter<'a, (usize, RB)>,
    fuse: &'a Cell<u32>,
}
impl<'a> Iterator for Reader<'a> {
    type Item = (usize, &'a RB);
    fn next(&mut self) -> Option<Self::Item> {
        match self.fuse.get() {
            0 => {}
            1 => {
                self.fuse.set(0);
                std::panic::panic_any(InjectedCrash);
            }
            n => self.fuse.set(n - 1),
        }
        self.items.next().map(|(i, v)| (*i, v))
    }
}

macro_rules! each {
    ($self:expr, $b:ident => $e:expr) => {
        match $self {
            Inverse::Lu($b) => $e,
            Inverse::Rows($b) => $e,
        }
    };
}
impl Inverse {
    fn identity(lu: bool, m: usize) -> Inverse {
        if lu { Inverse::Lu(BasisInverse::identity(m)) } else { Inverse::Rows(BasisInverse::identity(m)) }
    }
    fn invert(lu: bool, columns: &[Col]) -> Inverse {
        let columns: Vec<SparseColumn<RB>> = columns.iter().map(|c| SparseColumn::new(big(c))).collect();
        if lu { Inverse::Lu(BasisInverse::invert(columns.into_iter())) } else { Inverse::Rows(BasisInverse::invert(columns.into_iter())) }
    }
    fn column(&self, items: &[(usize, RB)], fuse: &Cell<u32>) -> Info {
        let reader = Reader { items: items.iter(), fuse };
        match self {
            Inverse::Lu(b) => Info::Lu(b.left_multiply_by_basis_inverse(reader)),
            Inverse::Rows(b) => Info::Rows(b.left_multiply_by_basis_inverse(reader)),
        }
    }
    fn row(&self, items: &[(usize, RB)], fuse: &Cell<u32>) -> SparseVector<RB, RB> {
        let reader = Reader { items: items.iter(), fuse };
        each!(self, b => b.right_multiply_by_basis_inverse(reader))
    }
    fn element(&self, i: usize, items: &[(usize, RB)], fuse: &Cell<u32>) -> Option<RB> {
        let reader = Reader { items: items.iter(), fuse };
        each!(self, b => b.generate_element(i, reader))
    }
    fn inverse_row(&self, i: usize) -> SparseVector<RB, RB> {
        each!(self, b => b.basis_inverse_row(i))
    }
    fn m(&self) -> usize {
        match self {
            Inverse::Lu(b) => b.m(),
            Inverse::Rows(b) => BasisInverse::m(b),
        }
    }
    fn change(&mut self, row: usize, info: Info) -> SparseVector<RB, RB> {
        match (self, info) {
            (Inverse::Lu(b), Info::Lu(i)) => b.change_basis(row, i),
            (Inverse::Rows(b), Info::Rows(i)) => b.change_basis(row, i),
            _ => unreachable!(),
        }
    }
}
impl Info {
    fn vector(&self) -> &SparseVector<RB, RB> {
        match self {
            Info::Lu(i) => i.column(),
            Info::Rows(i) => i,
        }
    }
}

fn big(c: &Col) -> Vec<(usize, RB)> {
    c.iter().map(|&(i, v)| (i, rb(v))).collect()
}
/// The values of a sparse vector; its representation has to be in order.
fn dense(what: &str, v: &SparseVector<RB, RB>, m: usize) -> Result<Vec<Q>, Fail> {
    if v.len() != m {
        return fail("length", format!("{what} has length {} instead of {m}", v.len()));
    }
    let mut out = vec![Q::ZERO; m];
    let mut last = None;
    for (i, x) in v.iter() {
        if i >= m || last.is_some_and(|l| l >= i) {
            return fail("representation", format!("{what} has its indices out of order: {v:?}"));
        }
        last = Some(i);
        out[i] = q(x);
        if out[i].is_zero() {
            return fail("representation", format!("{what} has an explicit zero: {v:?}"));
        }
    }
    Ok(out)
}

struct History {
    m: usize,
    basis: Vec<Col>,
    inverse: Inverse,
    lu: bool,
    updates: u32,
    /// Number of tenths of a column that are nonzero; 0 for a few elements, all of size one.
    density: u64,
    fractions: bool,
    /// Numbers of very different size.
    wide: bool,
    last_row: Option<usize>,
}

impl History {
    fn value(&self) -> Q {
        if self.density == 0 {
            return Q::int(if ctx::chance(1, 2) { 1 } else { -1 });
        }
        if self.wide && ctx::chance(1, 3) {
            ctx::note("number of many digits");
            let (n, d) = *ctx::pick(&[(1_000_000_007, 1), (-4_294_967_296, 1), (1i128 << 40, 1), (1, 65_537), (-355, 113), (1, 1_000_000), (12_345, 1000)]);
            return Q::new(n, d);
        }
        let n = match ctx::small(3) {
            0 => 1,
            n => n,
        };
        if self.fractions && ctx::chance(1, 4) {
            ctx::note("fractional column");
            Q::new(n as i128, 2 + ctx::below(3) as i128)
        } else {
            Q::int(n)
        }
    }
    fn vector(&self, may_be_empty: bool) -> Col {
        let mut c: Col = Vec::new();
        if ctx::chance(1, 5) {
            c.push((ctx::below(self.m), self.value()));
        } else if self.density == 0 {
            for _ in 0..1 + ctx::below(4) {
                let i = ctx::below(self.m);
                if c.iter().all(|e| e.0 != i) {
                    c.push((i, self.value()));
                }
            }
            c.sort_by_key(|e| e.0);
        } else {
            for i in 0..self.m {
                if ctx::chance(self.density, 10) {
                    c.push((i, self.value()));
                }
            }
        }
        if c.is_empty() && !may_be_empty {
            c.push((ctx::below(self.m), Q::ONE));
        }
        c
    }
    /// A column for the basis; sometimes one close to what is there, so that pivots are tiny.
    fn new_column(&self) -> Col {
        if ctx::chance(1, 4) {
            // A combination of basic columns is what makes the new coordinates sparse.
            let mut sum = vec![Q::ZERO; self.m];
            for _ in 0..1 + ctx::below(3) {
                let f = self.value();
                for &(i, v) in &self.basis[ctx::below(self.m)] {
                    sum[i] = sum[i] + f * v;
                }
            }
            let c: Col = sum.into_iter().enumerate().filter(|(_, v)| !v.is_zero()).collect();
            if !c.is_empty() && c.iter().all(|(_, v)| v.n.abs() < 50 && v.d < 50) {
                return c;
            }
        }
        self.vector(false)
    }
    fn show(&self) -> String {
        format!("basis columns {:?}", self.basis)
    }
    /// basis * x
    fn times(&self, x: &[Q]) -> Vec<Q> {
        let mut out = vec![Q::ZERO; self.m];
        for (c, &f) in self.basis.iter().zip(x) {
            if !f.is_zero() {
                for &(i, v) in c {
                    out[i] = out[i] + v * f;
                }
            }
        }
        out
    }
    /// y * basis
    fn times_left(&self, y: &[Q]) -> Vec<Q> {
        self.basis.iter().map(|c| c.iter().fold(Q::ZERO, |s, &(i, v)| s + y[i] * v)).collect()
    }
    fn spread(&self, c: &Col) -> Vec<Q> {
        let mut out = vec![Q::ZERO; self.m];
        for &(i, v) in c {
            out[i] = v;
        }
        out
    }
    fn check_column(&self, a: &Col, info: &Info) -> Result<Vec<Q>, Fail> {
        let x = dense("a column", info.vector(), self.m)?;
        if self.times(&x) != self.spread(a) {
            return fail("column", format!("column {a:?} has coordinates {x:?} in {} after {} updates, but they don't yield it", self.show(), self.updates));
        }
        Ok(x)
    }
    fn seen(&self) {
        if self.updates >= 3 {
            ctx::nontrivial();
        }
        if self.updates > 30 {
            ctx::note("more than 30 updates without refactorisation");
        }
        ctx::state(ctx::hash_dbg(&self.basis));
    }
    fn query(&self) -> Result<(), Fail> {
        let whole = Cell::new(0);
        ctx::step("queries");
        self.seen();
        match ctx::below(5) {
            0 => {
                let a = self.vector(true);
                let info = self.inverse.column(&big(&a), &whole);
                self.check_column(&a, &info)?;
            }
            1 => {
                let r = self.vector(true);
                let y = dense("a row", &self.inverse.row(&big(&r), &whole), self.m)?;
                if self.times_left(&y) != self.spread(&r) {
                    return fail("row", format!("row {r:?} has coordinates {y:?} in {} after {} updates, but they don't yield it", self.show(), self.updates));
                }
            }
            2 => {
                let a = self.vector(true);
                let items = big(&a);
                let info = self.inverse.column(&items, &whole);
                let x = self.check_column(&a, &info)?;
                for i in 0..self.m {
                    let e = self.inverse.element(i, &items, &whole);
                    let same = match &e {
                        None => x[i].is_zero(),
                        Some(v) => !x[i].is_zero() && q(v) == x[i],
                    };
                    if !same {
                        return fail("element", format!("element {i} of column {a:?} is {e:?} instead of {} in {} after {} updates", x[i], self.show(), self.updates));
                    }
                }
            }
            3 => {
                for i in 0..self.m {
                    let y = dense("a row of the inverse", &self.inverse.inverse_row(i), self.m)?;
                    let z = self.times_left(&y);
                    if (0..self.m).any(|k| z[k] != if k == i { Q::ONE } else { Q::ZERO }) {
                        return fail("inverse row", format!("row {i} of the inverse is {y:?} for {} after {} updates, but the product is {z:?}", self.show(), self.updates));
                    }
                }
            }
            _ => {
                // The caller's code fails while its column is read: nothing may have changed.
                let a = self.vector(false);
                let items = big(&a);
                let fuse = Cell::new(1 + ctx::below(items.len() + 1) as u32);
                let kind = ctx::below(3);
                let i = ctx::below(self.m);
                let broken = catch_unwind(AssertUnwindSafe(|| match kind {
                    0 => drop(self.inverse.column(&items, &fuse)),
                    1 => drop(self.inverse.row(&items, &fuse)),
                    _ => drop(self.inverse.element(i, &items, &fuse)),
                }));
                if let Err(payload) = broken {
                    if !payload.is::<InjectedCrash>() {
                        std::panic::resume_unwind(payload);
                    }
                    ctx::fault("crash while the caller's column is read");
                }
                let info = self.inverse.column(&items, &whole);
                self.check_column(&a, &info)?;
            }
        }
        Ok(())
    }
    /// Replace a basic column, unless it can't be.
    fn pivot(&mut self) -> Result<(), Fail> {
        let a = self.new_column();
        let whole = Cell::new(0);
        let info = self.inverse.column(&big(&a), &whole);
        let x = self.check_column(&a, &info)?;
        let mut rows: Vec<usize> = (0..self.m).filter(|&i| !x[i].is_zero() && x[i].n.abs() < 1 << 40 && x[i].d < 1 << 40).collect();
        if self.density == 0 {
            // Small determinants
            rows.retain(|&i| x[i].n.abs() == 1 && x[i].d == 1 || ctx::chance(1, 20));
        }
        if rows.is_empty() {
            return Ok(());
        }
        // Sometimes something else is asked in between.
        if ctx::chance(1, 8) {
            self.query()?;
        }
        let row = match self.last_row {
            Some(r) if rows.contains(&r) && ctx::chance(1, 4) => {
                ctx::note("same row again");
                r
            }
            _ => *ctx::pick(&rows),
        };
        ctx::log(|| format!("column {a:?} enters in row {row}"));
        ctx::event(row as u64);
        let before = self.inverse.change(row, info);
        let before = dense("the column before the change", &before, self.m)?;
        if before != x {
            return fail("column before", format!("the change reports column {before:?} as that before it, which was {x:?}"));
        }
        self.basis[row] = a;
        self.last_row = Some(row);
        self.updates += 1;
        if ctx::chance(1, 3) { self.query() } else { Ok(()) }
    }
    /// Only the basis survives.
    fn rebuild(&mut self) {
        let lu = if ctx::chance(1, 3) { !self.lu } else { self.lu };
        ctx::fault(if lu == self.lu { "rebuilt from the basis" } else { "rebuilt in the other representation" });
        ctx::log(|| format!("rebuild, LU: {lu}"));
        self.lu = lu;
        self.inverse = Inverse::invert(lu, &self.basis);
        self.updates = 0;
    }
    /// Rows whose own unit column is basic in them may be taken out.
    fn remove(&mut self) {
        let Inverse::Rows(inverse) = &mut self.inverse else { return };
        let own: Vec<usize> = (0..self.m).filter(|&i| self.basis[i] == vec![(i, Q::ONE)]).collect();
        let gone: Vec<usize> = own.into_iter().filter(|_| ctx::chance(1, 2)).collect();
        if gone.is_empty() || gone.len() >= self.m {
            return;
        }
        ctx::note("removed rows");
        if gone.len() > 1 {
            ctx::note("removed several rows at once");
        }
        ctx::log(|| format!("remove rows {gone:?}"));
        inverse.remove_basis_part(&gone);
        let kept: Vec<usize> = (0..self.m).filter(|i| !gone.contains(i)).collect();
        self.basis = kept
            .iter()
            .map(|&k| self.basis[k].iter().filter_map(|&(i, v)| kept.iter().position(|&x| x == i).map(|p| (p, v))).collect())
            .collect();
        self.m = kept.len();
        self.last_row = None;
    }
}

fn scenario() -> Result<(), Fail> {
    let large = ctx::chance(1, 40);
    let m = match ctx::below(4) {
        _ if large => *ctx::pick(&[13usize, 17, 24, 33, 40, 64]) + ctx::below(7),
        0 => 1 + ctx::below(3),
        1 | 2 => 2 + ctx::below(5),
        _ => 4 + ctx::below(9),
    };
    match m {
        1 => ctx::note("order 1"),
        32.. => ctx::note("order above 31"),
        9.. => ctx::note("order above 8"),
        _ => {}
    }
    let lu = !ctx::chance(1, 3);
    let mut h = History {
        m,
        basis: (0..m).map(|i| vec![(i, Q::ONE)]).collect(),
        inverse: Inverse::identity(lu, m),
        lu,
        updates: 0,
        density: if large { 0 } else { *ctx::pick(&[1u64, 2, 3, 5, 8]) },
        fractions: !large && ctx::chance(1, 3),
        wide: m <= 4 && ctx::chance(1, 8),
        last_row: None,
    };
    ctx::log(|| format!("order {m}, LU: {lu}, density {}/10", h.density));
    // A long history or a short one; rebuilt often, rarely or never.
    let rounds = if large { *ctx::pick(&[20usize, 60, 150]) } else { *ctx::pick(&[4usize, 8, 16, 40, 70]) };
    let rebuild = *ctx::pick(&[0u64, 3, 10, 25]);
    for _ in 0..rounds {
        ctx::step("updates");
        h.pivot()?;
        if rebuild > 0 && ctx::chance(1, rebuild) {
            h.rebuild();
        }
        if !h.lu && ctx::chance(1, 6) {
            h.remove();
        }
        if ctx::chance(1, 10) {
            h.query()?;
        }
        if h.inverse.m() != h.m {
            return fail("order", format!("order {} is reported as {}", h.m, h.inverse.m()));
        }
    }
    for _ in 0..3 {
        h.query()?;
    }
    // Whatever the history, it must agree with a start from the basis alone.
    let fresh = Inverse::invert(!h.lu, &h.basis);
    for i in 0..h.m {
        let (a, b) = (dense("a row of the inverse", &h.inverse.inverse_row(i), h.m)?, dense("a row of the inverse", &fresh.inverse_row(i), h.m)?);
        if a != b {
            return fail("disagreement", format!("row {i} of the inverse is {a:?} after {} updates and {b:?} from scratch, {}", h.updates, h.show()));
        }
    }
    Ok(())
}
