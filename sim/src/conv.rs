//! Between the reference model's programs and relp's data structures.
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::{Objective, RangedConstraintRelation, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Variable};
use relp_num::{Rational64, RationalBig};

use crate::oracle::{Kind, Lp};
use crate::rat::Q;

pub type RB = RationalBig;

/// Any number, also those with a numerator or a denominator that doesn't fit in 64 bits.
pub fn rb(q: Q) -> RB {
    if let (Ok(n), Ok(d)) = (i64::try_from(q.n), u64::try_from(q.d)) {
        return RB::new(n, d).expect("nonzero denominator");
    }
    let v = &whole(q.n.unsigned_abs()) / &whole(q.d.unsigned_abs());
    if q.n < 0 { -v } else { v }
}
fn whole(mut rest: u128) -> RB {
    let mut limbs = Vec::new();
    while rest > 0 {
        limbs.push((rest & 0xffff_ffff) as i64);
        rest >>= 32;
    }
    let base = RB::from(1i64 << 32);
    let mut v = RB::from(0i64);
    for l in limbs.into_iter().rev() {
        v = &v * &base;
        v += RB::from(l);
    }
    v
}
pub fn r64(q: Q) -> Rational64 {
    let n = i64::try_from(q.n).expect("numerator within 64 bits");
    let d = u64::try_from(q.d).expect("denominator within 64 bits");
    Rational64::new(n, d).expect("nonzero denominator")
}

/// The exact value of a number relp returned.
pub fn q<T: std::fmt::Display>(v: &T) -> Q {
    let s = v.to_string();
    match Q::parse(&s) {
        Some(q) => q,
        None => std::panic::panic_any(crate::rat::OracleOverflow),
    }
}

pub fn general_form(lp: &Lp) -> GeneralForm<RB> {
    let n = lp.vars.len();
    let m = lp.rows.len();
    let mut columns: Vec<Vec<(usize, RB)>> = vec![Vec::new(); n];
    for (i, row) in lp.rows.iter().enumerate() {
        for &(j, c) in &row.coefs {
            columns[j].push((i, rb(c)));
        }
    }
    let constraints = ColumnMajor::new(columns, m, n);
    let types = lp
        .rows
        .iter()
        .map(|r| match r.kind {
            Kind::Eq => RangedConstraintRelation::Equal,
            Kind::Le => RangedConstraintRelation::Less,
            Kind::Ge => RangedConstraintRelation::Greater,
            Kind::Range(w) => RangedConstraintRelation::Range(rb(w)),
        })
        .collect();
    let b = DenseVector::new(lp.rows.iter().map(|r| rb(r.b)).collect(), m);
    let variables = lp
        .vars
        .iter()
        .map(|v| Variable {
            variable_type: VariableType::Continuous,
            cost: rb(v.cost),
            lower_bound: v.lo.map(rb),
            upper_bound: v.up.map(rb),
            shift: rb(Q::ZERO),
            flipped: false,
        })
        .collect();
    let names = (0..n).map(|j| format!("x{j}")).collect();
    let objective = if lp.maximize { Objective::Maximize } else { Objective::Minimize };
    GeneralForm::new(objective, constraints, types, b, variables, names, rb(lp.fixed))
}
