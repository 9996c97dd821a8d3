//! The seams: everything the code under test asks its surroundings for goes through here.
//!
//! * `SimHooks` answers the choices the solver leaves open (guarded hooks in /repo).
//! * `SimBI` stands between the tableau and a basis inverse: it counts steps, decides when the
//!   representation is rebuilt, and can crash or yield at any callback.
//! * `SimProvider` does the same between the solver and the problem data.
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::{Column, ColumnIterator};
use relp::algorithm::two_phase::phase_one::{FullInitialBasis, PartialInitialBasis};
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::{BasisInverse, RemoveBasisPart};
use relp::algorithm::two_phase::tableau::inverse_maintenance::ops as im_ops;
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector};
use relp::data::linear_program::elements::BoundDirection;

use crate::ctx::{self, InjectedCrash};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Refactor {
    /// As the implementation decides.
    Default,
    Never,
    Always,
    /// With probability 1/n, whenever asked.
    Sometimes(u64),
}

/// What the simulator does to one simulated thread.
#[derive(Clone, Copy)]
pub struct Knobs {
    pub refactor: Refactor,
    /// Deviate from the default choice at a hook with probability 1/n (0: never).
    pub deviate: u64,
    pub deviations_left: u32,
    /// Presolve decisions deviate with probability 1/n (0: never).
    pub presolve: u64,
    /// Crash at this many callbacks from now.
    pub crash_in: Option<u64>,
    pub crash_fault: &'static str,
    /// Count towards the crash always (0), after phase one (1), or once a basis was noted there (2).
    pub crash_late: usize,
    /// Yield to the other simulated threads at callbacks.
    pub yields: bool,
}

impl Knobs {
    pub const NONE: Knobs = Knobs {
        refactor: Refactor::Default,
        deviate: 0,
        deviations_left: 0,
        presolve: 0,
        crash_in: None,
        crash_fault: "",
        crash_late: 0,
        yields: false,
    };
}

thread_local! {
    static KNOBS: Cell<Knobs> = const { Cell::new(Knobs::NONE) };
    static CALLBACKS: Cell<u64> = const { Cell::new(0) };
    static BASIS_CHANGES: Cell<u64> = const { Cell::new(0) };
    static PIVOTS_LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// The option to take the next time that a row has to leave.
    static LEAVING: Cell<Option<usize>> = const { Cell::new(None) };
    static YIELD: RefCell<Option<Rc<dyn Fn(&'static str)>>> = const { RefCell::new(None) };
}

pub fn set_knobs(k: Knobs) {
    KNOBS.with(|c| c.set(k));
}
pub fn knobs() -> Knobs {
    KNOBS.with(|c| c.get())
}
pub fn set_yield(f: Option<Rc<dyn Fn(&'static str)>>) {
    YIELD.with(|y| *y.borrow_mut() = f);
}
/// Let others run, if this execution yields.
pub fn yield_at(site: &'static str) {
    if knobs().yields {
        let f = YIELD.with(|y| y.borrow().clone());
        if let Some(f) = f {
            f(site);
        }
    }
}

/// Everything the simulator keeps about the execution on this thread.
pub struct Life {
    knobs: Knobs,
    callbacks: u64,
    basis_changes: u64,
    pivots_left: u64,
    leaving: Option<usize>,
    yielder: Option<Rc<dyn Fn(&'static str)>>,
    observer: Option<crate::rule::Observer>,
    disk: Option<crate::simfs::Disk>,
    hooks: Option<Box<dyn crate::hooks::Hooks>>,
}
/// Set the execution on this thread aside, for another to start afresh.
pub fn set_aside() -> Life {
    Life {
        knobs: KNOBS.with(|c| c.replace(Knobs::NONE)),
        callbacks: CALLBACKS.with(|c| c.replace(0)),
        basis_changes: BASIS_CHANGES.with(|c| c.replace(0)),
        pivots_left: PIVOTS_LEFT.with(|c| c.replace(u64::MAX)),
        leaving: LEAVING.with(|l| l.take()),
        yielder: YIELD.with(|y| y.borrow_mut().take()),
        observer: crate::rule::take(),
        disk: crate::simfs::take(),
        hooks: crate::hooks::install(None),
    }
}
/// Go on with the one set aside.
pub fn go_on(life: Life) {
    KNOBS.with(|c| c.set(life.knobs));
    CALLBACKS.with(|c| c.set(life.callbacks));
    BASIS_CHANGES.with(|c| c.set(life.basis_changes));
    PIVOTS_LEFT.with(|c| c.set(life.pivots_left));
    LEAVING.with(|l| l.set(life.leaving));
    YIELD.with(|y| *y.borrow_mut() = life.yielder);
    crate::rule::put(life.observer);
    crate::simfs::put(life.disk);
    crate::hooks::install(life.hooks);
}
pub fn force_leaving(option: usize) {
    LEAVING.with(|l| l.set(Some(option)));
}
/// More than this many further basis changes is a violation of progress.
pub fn limit_pivots(n: u64) {
    PIVOTS_LEFT.with(|c| c.set(n));
}
fn basis_change() {
    BASIS_CHANGES.with(|c| c.set(c.get() + 1));
    let left = PIVOTS_LEFT.with(|c| c.get());
    if left == 0 {
        limit_pivots(u64::MAX);
        std::panic::panic_any(ctx::BudgetExceeded("basis changes"));
    }
    if left != u64::MAX {
        limit_pivots(left - 1);
    }
}
pub fn reset() {
    limit_pivots(u64::MAX);
    LEAVING.with(|l| l.set(None));
    set_knobs(Knobs::NONE);
    set_yield(None);
    crate::hooks::install(None);
    crate::rule::reset();
    crate::simfs::unmount();
}
pub fn callbacks() -> u64 {
    CALLBACKS.with(|c| c.get())
}
pub fn basis_changes() -> u64 {
    BASIS_CHANGES.with(|c| c.get())
}

/// A point where the code under test calls out.
pub fn callback(site: &'static str) {
    CALLBACKS.with(|c| c.set(c.get() + 1));
    ctx::step("solver callbacks");
    let mut k = knobs();
    if let Some(n) = k.crash_in.filter(|_| k.crash_late <= crate::rule::progress()) {
        if n == 0 {
            k.crash_in = None;
            set_knobs(k);
            if !k.crash_fault.is_empty() {
                ctx::fault(k.crash_fault);
            }
            ctx::log(|| format!("crash at callback {site}"));
            std::panic::panic_any(InjectedCrash);
        }
        k.crash_in = Some(n - 1);
        set_knobs(k);
    }
    yield_at(site);
}

pub struct SimHooks;
impl crate::hooks::Hooks for SimHooks {
    fn choose(&mut self, site: &'static str, n: usize) -> usize {
        yield_at("hook");
        if site == "leaving row" {
            if let Some(c) = LEAVING.with(|l| l.take()).filter(|&c| c < n) {
                ctx::log(|| format!("schedule: {site} -> option {c} of {n}"));
                ctx::event(ctx::mix(ctx::hash_str(site), c as u64));
                return c;
            }
        }
        let mut k = knobs();
        let presolve = site.starts_with("presolve");
        let p = if presolve { k.presolve } else { k.deviate };
        if p == 0 || (!presolve && k.deviations_left == 0) || !ctx::chance(1, p) {
            return 0;
        }
        let c = ctx::below(n);
        if c != 0 {
            if !presolve {
                k.deviations_left -= 1;
                set_knobs(k);
            }
            ctx::fault(match site {
                "entering column" => "forced entering column",
                "leaving row" => "forced leaving row among ties",
                "column for artificial" => "forced replacement of an artificial variable",
                "presolve queue" => "reordered presolve queue",
                "presolve stop" => "presolve stopped early",
                _ => "forced choice",
            });
            ctx::log(|| format!("schedule: {site} -> option {c} of {n}"));
        }
        ctx::event(ctx::mix(ctx::hash_str(site), c as u64));
        c
    }
}
pub fn install_hooks() {
    crate::hooks::install(Some(Box::new(SimHooks)));
}

/// A basis inverse under the simulator's control.
#[derive(Debug)]
pub struct SimBI<B> {
    pub inner: B,
}
impl<B: fmt::Display> fmt::Display for SimBI<B> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<B: BasisInverse> BasisInverse for SimBI<B> {
    type F = B::F;
    type ColumnComputationInfo = B::ColumnComputationInfo;

    fn identity(m: usize) -> Self {
        callback("identity");
        SimBI { inner: B::identity(m) }
    }
    fn invert<C: Column>(columns: impl ExactSizeIterator<Item = C>) -> Self
    where
        Self::F: im_ops::Column<C::F>,
    {
        callback("invert");
        basis_change();
        SimBI { inner: B::invert(columns) }
    }
    fn change_basis(&mut self, pivot_row_index: usize, column: Self::ColumnComputationInfo) -> SparseVector<Self::F, Self::F> {
        callback("change_basis");
        basis_change();
        ctx::event(pivot_row_index as u64 + 77);
        self.inner.change_basis(pivot_row_index, column)
    }
    fn left_multiply_by_basis_inverse<'a, I: ColumnIterator<'a>>(&'a self, column: I) -> Self::ColumnComputationInfo
    where
        Self::F: im_ops::Column<I::F>,
    {
        callback("left_multiply");
        self.inner.left_multiply_by_basis_inverse(column)
    }
    fn right_multiply_by_basis_inverse<'a, I: ColumnIterator<'a>>(&self, row: I) -> SparseVector<Self::F, Self::F>
    where
        Self::F: im_ops::Column<I::F>,
    {
        callback("right_multiply");
        self.inner.right_multiply_by_basis_inverse(row)
    }
    fn generate_element<'a, I: ColumnIterator<'a>>(&'a self, i: usize, original_column: I) -> Option<Self::F>
    where
        Self::F: im_ops::Column<I::F>,
    {
        callback("generate_element");
        self.inner.generate_element(i, original_column)
    }
    fn should_refactor(&self) -> bool {
        callback("should_refactor");
        let default = self.inner.should_refactor();
        let decided = match knobs().refactor {
            Refactor::Default => default,
            Refactor::Never => false,
            Refactor::Always => true,
            Refactor::Sometimes(n) => ctx::chance(1, n),
        };
        if decided != default {
            ctx::fault(if decided { "forced refactorisation" } else { "suppressed refactorisation" });
        }
        decided
    }
    fn basis_inverse_row(&self, row: usize) -> SparseVector<Self::F, Self::F> {
        callback("basis_inverse_row");
        self.inner.basis_inverse_row(row)
    }
    fn m(&self) -> usize {
        self.inner.m()
    }
}
impl<B: RemoveBasisPart> RemoveBasisPart for SimBI<B> {
    fn remove_basis_part(&mut self, indices: &[usize]) {
        callback("remove_basis_part");
        self.inner.remove_basis_part(indices);
    }
}

/// Problem data under the simulator's control. Declares no initial basis at all.
pub struct SimProvider<'p, MP> {
    pub inner: &'p MP,
}
impl<'p, MP: MatrixProvider> MatrixProvider for SimProvider<'p, MP> {
    type Column = MP::Column;
    type Cost<'a>
        = MP::Cost<'a>
    where
        Self: 'a;
    type Rhs = MP::Rhs;

    fn column(&self, j: usize) -> Self::Column {
        callback("column");
        self.inner.column(j)
    }
    fn cost_value(&self, j: usize) -> Self::Cost<'_> {
        callback("cost_value");
        self.inner.cost_value(j)
    }
    fn right_hand_side(&self) -> DenseVector<Self::Rhs> {
        callback("right_hand_side");
        self.inner.right_hand_side()
    }
    fn bound_row_index(&self, j: usize, bound_type: BoundDirection) -> Option<usize> {
        self.inner.bound_row_index(j, bound_type)
    }
    fn nr_constraints(&self) -> usize {
        self.inner.nr_constraints()
    }
    fn nr_variable_bounds(&self) -> usize {
        self.inner.nr_variable_bounds()
    }
    fn nr_rows(&self) -> usize {
        self.inner.nr_rows()
    }
    fn nr_columns(&self) -> usize {
        self.inner.nr_columns()
    }
    fn reconstruct_solution<G>(&self, column_values: SparseVector<G, G>) -> SparseVector<G, G>
    where
        G: SparseElement<G> + SparseComparator,
    {
        self.inner.reconstruct_solution(column_values)
    }
}

/// As `SimProvider`, declaring some of the unit columns as the initial basis.
pub struct SimPartial<'p, MP> {
    pub inner: SimProvider<'p, MP>,
    pub pivots: Vec<(usize, usize)>,
}
/// As `SimPartial`, declaring an initial basis for all rows.
pub struct SimFull<'p, MP>(pub SimPartial<'p, MP>);

macro_rules! delegate {
    ($name:ident, $($path:tt)+) => {
        impl<'p, MP: MatrixProvider> MatrixProvider for $name<'p, MP> {
            type Column = MP::Column;
            type Cost<'a> = MP::Cost<'a> where Self: 'a;
            type Rhs = MP::Rhs;
            fn column(&self, j: usize) -> Self::Column { self.$($path)+.column(j) }
            fn cost_value(&self, j: usize) -> Self::Cost<'_> { self.$($path)+.cost_value(j) }
            fn right_hand_side(&self) -> DenseVector<Self::Rhs> { self.$($path)+.right_hand_side() }
            fn bound_row_index(&self, j: usize, b: BoundDirection) -> Option<usize> { self.$($path)+.bound_row_index(j, b) }
            fn nr_constraints(&self) -> usize { self.$($path)+.nr_constraints() }
            fn nr_variable_bounds(&self) -> usize { self.$($path)+.nr_variable_bounds() }
            fn nr_rows(&self) -> usize { self.$($path)+.nr_rows() }
            fn nr_columns(&self) -> usize { self.$($path)+.nr_columns() }
            fn reconstruct_solution<G>(&self, v: SparseVector<G, G>) -> SparseVector<G, G>
            where G: SparseElement<G> + SparseComparator { self.$($path)+.reconstruct_solution(v) }
        }
    };
}
delegate!(SimPartial, inner);
delegate!(SimFull, 0.inner);

impl<'p, MP: MatrixProvider> PartialInitialBasis for SimPartial<'p, MP> {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        callback("pivot_element_indices");
        self.pivots.clone()
    }
    fn nr_initial_elements(&self) -> usize {
        self.pivots.len()
    }
}
impl<'p, MP: MatrixProvider> PartialInitialBasis for SimFull<'p, MP> {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> {
        callback("pivot_element_indices");
        self.0.pivots.clone()
    }
    fn nr_initial_elements(&self) -> usize {
        self.0.pivots.len()
    }
}
impl<'p, MP: MatrixProvider> FullInitialBasis for SimFull<'p, MP> {}
