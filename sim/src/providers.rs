//! Problems as a caller might supply them: nothing but implementations of the public interface.
use std::iter::Chain;
use std::ops::{Add, Mul};
use std::option::IntoIter as OptionIter;
use std::vec::IntoIter as VecIter;

use num_traits::Zero;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::data::linear_algebra::SparseTuple;
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;
use relp::data::linear_program::network::representation::{ArcDirection, ArcIncidenceColumn, IncidenceMatrix};
use relp_num::{Binary, One, Rational64};

use crate::conv::{RB, r64};
use crate::rat::Q;

/// Leave out rows from a column, the way the interface asks for.
fn filter<F>(values: &mut Vec<(usize, F)>, to_remove: &[usize]) {
    values.retain(|(i, _)| !to_remove.contains(i));
    for (i, _) in values.iter_mut() {
        *i -= to_remove.iter().filter(|r| *r < i).count();
    }
}

/// Constraint values and, below them, perhaps the one in a row that bounds the variable.
#[derive(Debug, Clone)]
pub struct Stacked<F> {
    pub above: Vec<(usize, F)>,
    pub below: Option<(usize, F)>,
}

macro_rules! stacked {
    ($f:ty, $unit:expr) => {
        impl Column for Stacked<$f> {
            type F = $f;
            type Iter<'a> = Chain<SparseSliceIterator<'a, $f>, OptionIter<(usize, &'a $f)>>;

            fn iter(&self) -> Self::Iter<'_> {
                SparseSliceIterator::new(&self.above).chain(self.below.as_ref().map(|(i, v)| (*i, v)))
            }
            fn index_to_string(&self, i: usize) -> String {
                self.iter().find(|(k, _)| *k == i).map_or("0".to_string(), |(_, v)| v.to_string())
            }
        }
        impl IntoIterator for Stacked<$f> {
            type Item = SparseTuple<$f>;
            type IntoIter = Chain<VecIter<(usize, $f)>, OptionIter<(usize, $f)>>;
            fn into_iter(self) -> Self::IntoIter {
                self.above.into_iter().chain(self.below)
            }
        }
        impl Identity for Stacked<$f> {
            fn identity(i: usize, _len: usize) -> Self {
                Stacked { above: Vec::new(), below: Some((i, $unit)) }
            }
        }
        impl IntoFilteredColumn for Stacked<$f> {
            type Filtered = Self;
            fn into_filtered(mut self, to_remove: &[usize]) -> Self {
                filter(&mut self.above, to_remove);
                let mut below: Vec<_> = self.below.into_iter().collect();
                filter(&mut below, to_remove);
                Stacked { above: self.above, below: below.pop() }
            }
        }
    };
}
stacked!(ArcDirection, ArcDirection::Incoming);
stacked!(Rational64, Rational64::new(1, 1).expect("one"));

/// What flow costs, where only these occur.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FlowCost {
    Nothing,
    Plus,
    Minus,
}
impl Add<FlowCost> for RB {
    type Output = RB;
    fn add(self, c: FlowCost) -> RB {
        match c {
            FlowCost::Nothing => self,
            FlowCost::Plus => self + One,
            FlowCost::Minus => self - One,
        }
    }
}
impl Mul<FlowCost> for RB {
    type Output = RB;
    fn mul(self, c: FlowCost) -> RB {
        match c {
            FlowCost::Nothing => RB::zero(),
            FlowCost::Plus => self,
            FlowCost::Minus => -self,
        }
    }
}
impl Mul<FlowCost> for &RB {
    type Output = RB;
    fn mul(self, c: FlowCost) -> RB {
        self.clone() * c
    }
}

/// A directed graph: for each pair (from, to) a number.
#[derive(Clone, Debug)]
pub struct Graph {
    pub vertices: usize,
    pub arcs: Vec<(usize, usize, Q)>,
}
impl Graph {
    /// The library's incidence matrix without some vertices, and the numbers in its arc order.
    pub fn incidence(&self, removed: Vec<usize>) -> (IncidenceMatrix, DenseVector<Rational64>) {
        let mut columns = vec![Vec::new(); self.vertices];
        for &(from, to, v) in &self.arcs {
            columns[from].push((to, r64(v)));
        }
        let adjacency = ColumnMajor::new::<Rational64, Rational64>(columns, self.vertices, self.vertices);
        IncidenceMatrix::new(adjacency, removed)
    }
}

macro_rules! dimensions {
    () => {
        fn bound_row_index(&self, j: usize, bound_type: BoundDirection) -> Option<usize> {
            match bound_type {
                BoundDirection::Lower => None,
                BoundDirection::Upper => self.bound_row(j),
            }
        }
        fn reconstruct_solution<G>(&self, column_values: SparseVector<G, G>) -> SparseVector<G, G>
        where
            G: SparseElement<G> + SparseComparator,
        {
            column_values
        }
    };
}

/// As much as possible from s to t.
pub struct MaxFlow {
    pub matrix: IncidenceMatrix,
    pub capacity: DenseVector<Rational64>,
    pub costs: Vec<FlowCost>,
}
impl MaxFlow {
    pub fn new(g: &Graph, s: usize, t: usize) -> MaxFlow {
        let (matrix, capacity) = g.incidence(vec![s, t]);
        let costs = g
            .arcs
            .iter()
            .map(|&(from, to, _)| match (from == s, to == s) {
                (true, _) => FlowCost::Minus,
                (_, true) => FlowCost::Plus,
                _ => FlowCost::Nothing,
            })
            .collect();
        MaxFlow { matrix, capacity, costs }
    }
    fn bound_row(&self, j: usize) -> Option<usize> {
        (j < self.matrix.nr_edges()).then(|| self.nr_constraints() + j)
    }
}
impl MatrixProvider for MaxFlow {
    type Column = Stacked<ArcDirection>;
    type Cost<'a> = FlowCost;
    type Rhs = Rational64;

    fn column(&self, j: usize) -> Self::Column {
        let e = self.matrix.nr_edges();
        Stacked {
            above: if j < e { self.matrix.column(j) } else { Vec::new() },
            below: Some((self.nr_constraints() + j % e, ArcDirection::Incoming)),
        }
    }
    fn cost_value(&self, j: usize) -> FlowCost {
        self.costs.get(j).copied().unwrap_or(FlowCost::Nothing)
    }
    fn right_hand_side(&self) -> DenseVector<Rational64> {
        let mut b = DenseVector::constant(r64(Q::ZERO), self.nr_constraints());
        b.extend_with_values(self.capacity.iter().cloned().collect());
        b
    }
    fn nr_constraints(&self) -> usize {
        self.matrix.nr_vertices() - 2
    }
    fn nr_variable_bounds(&self) -> usize {
        self.matrix.nr_edges()
    }
    fn nr_columns(&self) -> usize {
        2 * self.matrix.nr_edges()
    }
    dimensions!();
}
impl PartialInitialBasis for MaxFlow {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        (0..self.matrix.nr_edges()).map(|j| (self.nr_constraints() + j, self.matrix.nr_edges() + j)).collect()
    }
    fn nr_initial_elements(&self) -> usize {
        self.matrix.nr_edges()
    }
}

/// One unit from s to t, as cheap as possible.
pub struct ShortestPath {
    pub matrix: IncidenceMatrix,
    pub cost: DenseVector<Rational64>,
    pub s: usize,
    pub t: usize,
}
impl ShortestPath {
    pub fn new(g: &Graph, s: usize, t: usize) -> ShortestPath {
        let (matrix, cost) = g.incidence(vec![s]);
        ShortestPath { matrix, cost, s, t }
    }
    fn bound_row(&self, _j: usize) -> Option<usize> {
        None
    }
}
impl MatrixProvider for ShortestPath {
    type Column = ArcIncidenceColumn;
    type Cost<'a> = &'a Rational64;
    type Rhs = Binary;

    fn column(&self, j: usize) -> ArcIncidenceColumn {
        ArcIncidenceColumn(self.matrix.column(j))
    }
    fn cost_value(&self, j: usize) -> &Rational64 {
        &self.cost[j]
    }
    fn right_hand_side(&self) -> DenseVector<Binary> {
        let mut b = DenseVector::constant(Binary::Zero, self.nr_constraints());
        b[self.t - usize::from(self.t > self.s)] = Binary::One;
        b
    }
    fn nr_constraints(&self) -> usize {
        self.matrix.nr_vertices() - 1
    }
    fn nr_variable_bounds(&self) -> usize {
        0
    }
    fn nr_columns(&self) -> usize {
        self.matrix.nr_edges()
    }
    dimensions!();
}

/// Demands at the vertices, met as cheaply as possible; some arcs have a capacity, some none.
pub struct MinCost {
    pub matrix: IncidenceMatrix,
    pub cost: DenseVector<Rational64>,
    /// Of the vertices that are not removed.
    pub demand: Vec<Q>,
    /// Arc and capacity, by arc.
    pub capacity: Vec<(usize, Q)>,
}
impl MinCost {
    fn bound_row(&self, j: usize) -> Option<usize> {
        self.capacity.iter().position(|(a, _)| *a == j).map(|k| self.demand.len() + k)
    }
}
impl MatrixProvider for MinCost {
    type Column = Stacked<ArcDirection>;
    type Cost<'a> = Option<&'a Rational64>;
    type Rhs = Rational64;

    fn column(&self, j: usize) -> Self::Column {
        let e = self.matrix.nr_edges();
        let (above, row) = if j < e { (self.matrix.column(j), self.bound_row(j)) } else { (Vec::new(), Some(self.demand.len() + j - e)) };
        Stacked { above, below: row.map(|i| (i, ArcDirection::Incoming)) }
    }
    fn cost_value(&self, j: usize) -> Option<&Rational64> {
        (j < self.matrix.nr_edges()).then(|| &self.cost[j])
    }
    fn right_hand_side(&self) -> DenseVector<Rational64> {
        let values: Vec<_> = self.demand.iter().chain(self.capacity.iter().map(|(_, c)| c)).map(|&v| r64(v)).collect();
        let n = values.len();
        DenseVector::new(values, n)
    }
    fn nr_constraints(&self) -> usize {
        self.demand.len()
    }
    fn nr_variable_bounds(&self) -> usize {
        self.capacity.len()
    }
    fn nr_columns(&self) -> usize {
        self.matrix.nr_edges() + self.capacity.len()
    }
    dimensions!();
}
impl PartialInitialBasis for MinCost {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        (0..self.capacity.len()).map(|k| (self.demand.len() + k, self.matrix.nr_edges() + k)).collect()
    }
    fn nr_initial_elements(&self) -> usize {
        self.capacity.len()
    }
}

/// Any matrix, its columns computed when asked for.
pub struct Lazy {
    /// Values by row, for each column.
    pub columns: Vec<Vec<(usize, Q)>>,
    pub costs: Vec<Q>,
    pub rhs: Vec<Q>,
    /// The last so many rows bound a single variable each: with a slack.
    pub bounds: usize,
    pub bounded: Vec<usize>,
    pub owned_costs: Vec<Rational64>,
}
impl Lazy {
    fn bound_row(&self, j: usize) -> Option<usize> {
        self.bounded.iter().position(|&k| k == j).map(|k| self.nr_constraints() + k)
    }
}
impl MatrixProvider for Lazy {
    type Column = Stacked<Rational64>;
    type Cost<'a> = &'a Rational64;
    type Rhs = Rational64;

    fn column(&self, j: usize) -> Self::Column {
        let mut above: Vec<_> = self.columns[j].iter().map(|&(i, v)| (i, r64(v))).collect();
        let below = if j % 2 == 0 { above.pop() } else { None };
        Stacked { above, below }
    }
    fn cost_value(&self, j: usize) -> &Rational64 {
        &self.owned_costs[j]
    }
    fn right_hand_side(&self) -> DenseVector<Rational64> {
        DenseVector::new(self.rhs.iter().map(|&v| r64(v)).collect(), self.rhs.len())
    }
    fn nr_constraints(&self) -> usize {
        self.rhs.len() - self.bounds
    }
    fn nr_variable_bounds(&self) -> usize {
        self.bounds
    }
    fn nr_columns(&self) -> usize {
        self.columns.len()
    }
    dimensions!();
}
