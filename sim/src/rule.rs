//! A pivot rule that is also the simulator's observer: it sees the complete tableau before each
//! pivot, checks it against the problem, remembers it as a checkpoint, and decides what enters.
use std::cell::RefCell;
use std::collections::HashMap;

use num_traits::Zero;
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::strategy::pivot_rule::{
    FirstProfitable, FirstProfitableWithMemory, PivotRule, SteepestDescentAlongObjective, SteepestDescentAlongVariable,
};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer, ops as im_ops};
use relp::algorithm::two_phase::tableau::kind::Kind;
use relp::algorithm::two_phase::tableau::{BasisChangeComputationInfo, Tableau};
use relp::data::linear_algebra::SparseTuple;
use relp::data::linear_algebra::vector::Vector;

use crate::conv::RB;
use crate::ctx;
use crate::runner::{Fail, ViolationPanic};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    First,
    FirstMemory,
    AlongVariable,
    AlongObjective,
    /// Any profitable column.
    Random,
    /// One that makes no progress, if there is any, for as long as its patience lasts. What leaves
    /// among ties is chosen as unhelpfully.
    Stalling,
}
pub const WHICH: [Which; 6] = [Which::AlongObjective, Which::First, Which::FirstMemory, Which::AlongVariable, Which::Random, Which::Stalling];

/// Which of the rows that tie leaves, as long as patience lasts.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ties {
    /// The implementation decides.
    Default,
    FirstRow,
    LastRow,
    LargestIndex,
}
pub const TIES: [Ties; 4] = [Ties::Default, Ties::FirstRow, Ties::LastRow, Ties::LargestIndex];

/// What the observer knows about the problem: columns (artificial ones first), costs, right-hand
/// side, all exact.
#[derive(Clone, Default)]
pub struct Model {
    pub columns: Vec<Vec<(usize, RB)>>,
    pub costs: Vec<RB>,
    pub rhs: Vec<RB>,
}

/// What one tableau looked like.
#[derive(Clone, Debug)]
pub struct Checkpoint {
    /// Basis column by row.
    pub basis: Vec<usize>,
    pub objective: RB,
    pub relative_costs: Vec<RB>,
    pub values: Vec<RB>,
}

pub struct Observer {
    pub which: Which,
    pub ties: Ties,
    /// Check the whole tableau with probability 1/n before each pivot (0: never).
    pub check: u64,
    /// Take a checkpoint with probability 1/n before each pivot (0: never).
    pub checkpoint: u64,
    pub model: Option<Model>,
    /// A rule without memory never returns to a basis.
    pub watch_cycles: bool,
    /// Check that rules and the ratio test choose what they promise.
    pub contract: bool,
    /// But only at these pivots, and give up after them.
    pub window: Option<(u64, u64)>,
    /// Switch rules during the run.
    pub switch: u64,
    /// After so many pivots in one phase, price by the lowest index, which always ends.
    pub patience: u64,

    pub last_checkpoint: Option<Checkpoint>,
    /// What the memory rule selected last.
    pub remembered: Option<usize>,
    /// The column that must leave, and the column that enters in terms of the basis.
    pub expected_leaving: Option<(usize, Vec<(usize, RB)>)>,
    pub seen: HashMap<Vec<usize>, u64>,
    pub last_objective: Option<RB>,
    pub pivots: u64,
    /// Pivots without progress until now.
    pub stalled: u64,
    pub phase: &'static str,
    pub artificial: usize,
}

impl Observer {
    pub fn new(which: Which) -> Observer {
        Observer {
            which,
            ties: Ties::Default,
            check: 0,
            checkpoint: 0,
            model: None,
            watch_cycles: false,
            contract: false,
            window: None,
            remembered: None,
            expected_leaving: None,
            switch: 0,
            patience: 60,
            last_checkpoint: None,
            seen: HashMap::new(),
            last_objective: None,
            pivots: 0,
            stalled: 0,
            phase: "",
            artificial: 0,
        }
    }
}

thread_local! {
    static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
}
pub fn observe(o: Observer) {
    OBSERVER.with(|x| *x.borrow_mut() = Some(o));
}
pub fn reset() {
    let _ = take();
}
pub fn take() -> Option<Observer> {
    OBSERVER.with(|x| x.borrow_mut().take())
}
pub fn put(o: Option<Observer>) {
    OBSERVER.with(|x| *x.borrow_mut() = o);
}
pub fn with<R>(f: impl FnOnce(&mut Observer) -> R) -> R {
    OBSERVER.with(|x| f(x.borrow_mut().as_mut().expect("an observer")))
}
/// Start a new phase with its own model.
pub fn phase(name: &'static str, artificial: usize, model: Option<Model>) {
    with(|o| {
        o.artificial = artificial;
        o.phase = name;
        o.model = model;
        o.seen.clear();
        o.last_objective = None;
        o.last_checkpoint = None;
        o.remembered = None;
        o.expected_leaving = None;
        o.pivots = 0;
        o.stalled = 0;
        if o.which != Which::First || o.ties != Ties::Default {
            o.watch_cycles = false;
        }
    });
}

// Outside of the generic functions, where the operators are those of the columns' numbers.
fn add_product(to: &mut RB, a: &RB, b: &RB) {
    *to += a * b;
}
fn subtract_product(from: &mut RB, a: &RB, b: &RB) {
    *from -= a * b;
}
fn quotient(a: &RB, b: &RB) -> RB {
    a / b
}
fn quotient_of_square(a: &RB, b: &RB) -> RB {
    &(a * a) / b
}

fn violation(class: &str, detail: String) -> ! {
    std::panic::panic_any(ViolationPanic(Fail { class: class.into(), detail }))
}

pub struct SimRule {
    which: Which,
    ties: Ties,
    memory: FirstProfitableWithMemory,
    steepest: SteepestDescentAlongObjective<RB>,
}

impl PivotRule<RB> for SimRule {
    fn new<IM, K>(tableau: &Tableau<IM, K>) -> Self
    where
        IM: InverseMaintainer<F = RB>,
        K: Kind,
        RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
    {
        let which = with(|o| o.which);
        if which == Which::Stalling {
            let mut k = crate::seam::knobs();
            k.deviate = 2;
            k.deviations_left = u32::MAX;
            crate::seam::set_knobs(k);
        }
        SimRule {
            which,
            ties: with(|o| o.ties),
            memory: <FirstProfitableWithMemory as PivotRule<RB>>::new(tableau),
            steepest: SteepestDescentAlongObjective::new(tableau),
        }
    }

    fn select_primal_pivot_column<IM, K>(&mut self, tableau: &Tableau<IM, K>) -> Option<SparseTuple<RB>>
    where
        IM: InverseMaintainer<F = RB>,
        K: Kind,
        RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
    {
        crate::seam::callback("select_column");
        look_at(tableau);
        let switch = with(|o| o.switch);
        if switch > 0 && with(|o| o.pivots < o.patience) && ctx::chance(1, switch) {
            self.which = *ctx::pick(&WHICH);
            // It skips the column it selected last, which is in the basis unless others chose since.
            self.memory = <FirstProfitableWithMemory as PivotRule<RB>>::new(tableau);
            ctx::fault("pivot rule switched");
        }
        if with(|o| o.pivots) >= with(|o| o.patience) && (self.which != Which::First || self.ties != Ties::Default) {
            ctx::note("patience with a pivot rule ran out");
            if self.which == Which::Stalling {
                let mut k = crate::seam::knobs();
                k.deviate = 0;
                crate::seam::set_knobs(k);
            }
            if crate::seam::knobs().deviate == 0 {
                // From here on it may not return to any basis.
                with(|o| o.watch_cycles = true);
            }
            self.which = Which::First;
            self.ties = Ties::Default;
        }
        let n = tableau.nr_columns();
        let profitable = |tableau: &Tableau<IM, K>| -> Vec<(usize, RB)> {
            // Artificial variables, numbered first, never re-enter.
            let first = with(|o| o.artificial);
            (first..n).filter(|&j| !tableau.is_in_basis(j)).map(|j| (j, tableau.relative_cost(j))).filter(|(_, c)| c < &RB::zero()).collect()
        };
        let selected = match self.which {
            Which::First => FirstProfitable.select_primal_pivot_column(tableau),
            Which::FirstMemory => self.memory.select_primal_pivot_column(tableau),
            Which::AlongVariable => SteepestDescentAlongVariable.select_primal_pivot_column(tableau),
            Which::AlongObjective => self.steepest.select_primal_pivot_column(tableau),
            Which::Random => {
                let mut all = profitable(tableau);
                if all.is_empty() {
                    None
                } else {
                    let k = ctx::below(all.len());
                    if k > 0 {
                        ctx::fault("random entering column");
                    }
                    Some(all.swap_remove(k))
                }
            }
            Which::Stalling => {
                let mut all = profitable(tableau);
                let stalls: Vec<bool> = all.iter().map(|(j, _)| no_progress(tableau, *j)).collect();
                if stalls.contains(&true) {
                    let mut it = stalls.iter();
                    all.retain(|_| *it.next().unwrap());
                    ctx::fault("stalled on purpose");
                }
                if all.is_empty() {
                    None
                } else {
                    let k = ctx::below(all.len());
                    Some(all.swap_remove(k))
                }
            }
        };
        let check = with(|o| o.check);
        let mut contract = with(|o| o.contract);
        if let Some((from, to)) = with(|o| o.window) {
            let now = with(|o| o.pivots);
            contract &= (from..to).contains(&now);
            if now >= to {
                ctx::fault("given up half way");
                std::panic::panic_any(ctx::InjectedCrash);
            }
        }
        if contract || check > 0 && with(|o| o.model.is_some()) {
            check_selection(self.which, contract, tableau, &selected, &profitable(tableau));
        }
        if let (Which::FirstMemory, Some((j, _)), false) = (self.which, &selected, contract) {
            with(|o| o.remembered = Some(*j));
        }
        if contract {
            if let Some((j, _)) = &selected {
                expect_leaving(tableau, *j);
            }
        }
        if let Some((j, _)) = selected.as_ref().filter(|_| self.ties != Ties::Default) {
            choose_leaving(tableau, *j, self.ties);
        }
        with(|o| o.pivots += selected.is_some() as u64);
        if let Some((j, _)) = &selected {
            ctx::event(*j as u64 + 1000);
            ctx::log(|| format!("{}: column {j} enters ({:?})", with(|o| o.phase), self.which));
        }
        selected
    }

    fn after_basis_update<IM, K>(&mut self, info: BasisChangeComputationInfo<RB>, tableau: &Tableau<IM, K>)
    where
        IM: InverseMaintainer<F = RB>,
        K: Kind,
        RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
    {
        ctx::log(|| format!("{}: row {} leaves (column {})", with(|o| o.phase), info.pivot_row_index, info.leaving_column_index));
        if let Some((leaving, column)) = with(|o| o.expected_leaving.take()) {
            if info.leaving_column_index != leaving {
                violation("leaving", format!("column {} leaves, instead of column {leaving}", info.leaving_column_index));
            }
            let before: Vec<_> = info.column_before_change.iter().map(|(i, v)| (i, v.clone())).collect();
            if before != column {
                violation("column before change", format!("{before:?} instead of {column:?}"));
            }
        }
        self.steepest.after_basis_update(info, tableau);
    }
}

fn check_selection<IM, K>(which: Which, contract: bool, tableau: &Tableau<IM, K>, selected: &Option<(usize, RB)>, profitable: &[(usize, RB)])
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
{
    match selected {
        None => {
            if let Some((j, c)) = profitable.first() {
                violation("pricing", format!("{which:?} finds no entering column, but column {j} has relative cost {c}"));
            }
        }
        Some((j, c)) => {
            if !profitable.iter().any(|(k, d)| k == j && d == c) {
                violation("pricing", format!("{which:?} selects column {j} with cost {c}, which is not profitable"));
            }
            match which {
                Which::First => {
                    if profitable[0].0 != *j {
                        violation("pricing", format!("the first profitable column is {}, not {j}", profitable[0].0));
                    }
                }
                Which::FirstMemory if contract => {
                    let after = with(|o| o.remembered.replace(*j)).map_or(0, |last| last + 1);
                    let first = profitable.iter().find(|(k, _)| *k >= after).or(profitable.first()).unwrap().0;
                    if first != *j {
                        violation("pricing", format!("the first profitable column from {after} on is {first}, not {j}"));
                    }
                }
                Which::AlongVariable => {
                    if let Some((k, d)) = profitable.iter().find(|(_, d)| d < c) {
                        violation("pricing", format!("column {k} has a steeper relative cost {d} than column {j} with {c}"));
                    }
                }
                Which::AlongObjective if crate::seam::knobs().deviate == 0 => {
                    let ratio = |k: usize, d: &RB| -> RB {
                        let column = tableau.generate_column(k).into_column();
                        let mut gamma = <RB as num_traits::One>::one();
                        for (_, v) in column.iter() {
                            add_product(&mut gamma, v, v);
                        }
                        quotient_of_square(d, &gamma)
                    };
                    let best = ratio(*j, c);
                    for (k, d) in profitable {
                        if ratio(*k, d) > best {
                            violation("pricing weights", format!("column {k} has a steeper edge than the selected column {j}"));
                        }
                    }
                }
                _ => {}
            }
        }
    }
}

/// Whether nothing changes but the basis when this column enters.
fn no_progress<IM, K>(tableau: &Tableau<IM, K>, entering: usize) -> bool
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
{
    let basis = basis_by_row(tableau);
    let column = tableau.generate_column(entering).into_column();
    column.iter().any(|(i, v)| *v > RB::zero() && tableau.variable_value(basis[i]).is_zero())
}

/// Have one of the rows that tie leave.
fn choose_leaving<IM, K>(tableau: &Tableau<IM, K>, entering: usize, ties: Ties)
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
{
    let basis = basis_by_row(tableau);
    let mut least: Option<RB> = None;
    let mut tied: Vec<usize> = Vec::new();
    for (i, v) in tableau.generate_column(entering).into_column().iter() {
        if *v <= RB::zero() {
            continue;
        }
        let ratio = quotient(&tableau.variable_value(basis[i]), v);
        match &least {
            Some(l) if ratio > *l => {}
            Some(l) if ratio == *l => tied.push(i),
            _ => {
                least = Some(ratio);
                tied = vec![i];
            }
        }
    }
    if tied.len() < 2 {
        return;
    }
    let k = match ties {
        Ties::FirstRow | Ties::Default => 0,
        Ties::LastRow => tied.len() - 1,
        Ties::LargestIndex => (0..tied.len()).max_by_key(|&k| basis[tied[k]]).unwrap(),
    };
    let usual = (0..tied.len()).min_by_key(|&k| basis[tied[k]]).unwrap();
    if k != usual {
        ctx::fault("ties broken unhelpfully");
        // Option 0 is the implementation's own choice.
        crate::seam::force_leaving(1 + k);
    }
}

/// Which column has to leave when a column enters: of those in rows with minimal ratio, the first.
fn expect_leaving<IM, K>(tableau: &Tableau<IM, K>, entering: usize)
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
{
    let basis = basis_by_row(tableau);
    let column: Vec<(usize, RB)> = tableau.generate_column(entering).into_column().iter().map(|(i, v)| (i, v.clone())).collect();
    let mut best: Option<(RB, usize, bool)> = None;
    for (i, v) in &column {
        if *v <= RB::zero() {
            continue;
        }
        let ratio = quotient(&tableau.variable_value(basis[*i]), v);
        best = match best {
            Some((r, j, _)) if ratio == r => Some((r, j.min(basis[*i]), true)),
            Some((r, j, t)) if ratio > r => Some((r, j, t)),
            _ => Some((ratio, basis[*i], false)),
        };
    }
    if let Some((_, _, true)) = best {
        ctx::note("tie in the ratio test");
    }
    with(|o| o.expected_leaving = best.map(|(_, j, _)| (j, column)));
}

/// Which column is the pivot in which row.
pub fn basis_by_row<IM, K>(tableau: &Tableau<IM, K>) -> Vec<usize>
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
{
    let m = tableau.nr_rows();
    let mut by_row = vec![usize::MAX; m];
    let mut count = 0;
    for j in (0..tableau.nr_columns()).filter(|&j| tableau.is_in_basis(j)) {
        count += 1;
        let column = tableau.generate_column(j).into_column();
        let mut it = column.iter();
        match (it.next(), it.next()) {
            (Some((i, v)), None) if *v == <RB as num_traits::One>::one() && i < m && by_row[i] == usize::MAX => by_row[i] = j,
            _ => violation("basis inverse", format!("basis column {j} is not a unit column: {column:?}")),
        }
    }
    if count != m {
        violation("basis size", format!("{count} columns in the basis of {m} rows"));
    }
    by_row
}

pub fn snapshot<IM, K>(tableau: &Tableau<IM, K>) -> Checkpoint
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
{
    let n = tableau.nr_columns();
    Checkpoint {
        basis: basis_by_row(tableau),
        objective: tableau.objective_function_value(),
        relative_costs: (0..n).map(|j| tableau.relative_cost(j)).collect(),
        values: (0..n).map(|j| tableau.variable_value(j)).collect(),
    }
}

/// Check the complete state of a tableau against the problem it is a tableau of.
pub fn check_tableau<IM, K>(tableau: &Tableau<IM, K>, model: &Model)
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
{
    let m = model.rhs.len();
    let n = model.columns.len();
    if tableau.nr_rows() != m || tableau.nr_columns() != n {
        violation("dimensions", format!("{} x {} instead of {m} x {n}", tableau.nr_rows(), tableau.nr_columns()));
    }
    let basis = basis_by_row(tableau);
    let artificial = with(|o| o.artificial);
    // Values: feasible, and they satisfy the equations.
    let mut activity = vec![RB::zero(); m];
    let mut objective = RB::zero();
    for (j, column) in model.columns.iter().enumerate() {
        let x = tableau.variable_value(j);
        if x < RB::zero() {
            violation("basic solution", format!("variable {j} has value {x}"));
        }
        if x.is_zero() {
            continue;
        }
        for (i, v) in column {
            add_product(&mut activity[*i], v, &x);
        }
        add_product(&mut objective, &model.costs[j], &x);
    }
    if activity != model.rhs {
        violation("basic solution", format!("the basic solution gives {activity:?} instead of {:?}", model.rhs));
    }
    let reported = tableau.objective_function_value();
    if reported != objective {
        violation("objective", format!("the objective is reported as {reported} but the basic solution costs {objective}"));
    }
    // Columns in terms of the basis, and relative costs.
    for (j, column) in model.columns.iter().enumerate() {
        let generated = tableau.generate_column(j);
        let mut recomposed = vec![RB::zero(); m];
        let mut relative = model.costs[j].clone();
        for (i, alpha) in generated.column().iter() {
            for (k, v) in &model.columns[basis[i]] {
                add_product(&mut recomposed[*k], alpha, v);
            }
            subtract_product(&mut relative, alpha, &model.costs[basis[i]]);
        }
        let mut dense = vec![RB::zero(); m];
        for (i, v) in column {
            dense[*i] = v.clone();
        }
        if recomposed != dense {
            violation("basis inverse", format!("column {j} is {dense:?}, the tableau's column recomposes to {recomposed:?}"));
        }
        // Artificial columns never enter, so nobody asks for theirs. (relp-num's `-1/3 + One` is 0.)
        if j < artificial {
            relative = RB::zero();
        }
        let r = if j < artificial { RB::zero() } else { tableau.relative_cost(j) };
        if r != relative {
            violation("relative cost", format!("column {j} has relative cost {relative}, the tableau says {r}"));
        }
        for i in 0..m {
            let e = tableau.generate_element(i, j);
            if e.as_ref() != generated.column().get(i) {
                violation("element", format!("element ({i}, {j}) is {e:?} but the column has {:?}", generated.column().get(i)));
            }
        }
    }
}

fn look_at<IM, K>(tableau: &Tableau<IM, K>)
where
    IM: InverseMaintainer<F = RB>,
    K: Kind,
    RB: im_ops::Column<<K::Column as Column>::F> + im_ops::Cost<K::Cost>,
{
    let (check, checkpoint, watch, model) = with(|o| (o.check, o.checkpoint, o.watch_cycles, o.model.clone()));
    let objective = tableau.objective_function_value();
    with(|o| {
        if let Some(last) = &o.last_objective {
            o.stalled = if objective == *last { o.stalled + 1 } else { 0 };
            if o.stalled == 30 {
                ctx::note("30 pivots without progress");
            }
            if objective > *last {
                violation("monotone objective", format!("the objective went from {last} up to {objective}"));
            }
        }
        o.last_objective = Some(objective);
    });
    let members: Vec<usize> = (0..tableau.nr_columns()).filter(|&j| tableau.is_in_basis(j)).collect();
    let h = ctx::hash_dbg(&members);
    ctx::state(ctx::mix(h, tableau.nr_columns() as u64));
    if watch {
        let again = with(|o| {
            let k = o.seen.entry(members.clone()).or_default();
            *k += 1;
            *k > 1
        });
        if again {
            violation("cycle", format!("the basis {members:?} is visited again"));
        }
    }
    if check > 0 && ctx::chance(1, check) {
        if let Some(model) = model {
            ctx::note("tableau checked");
            check_tableau(tableau, &model);
        }
    }
    if checkpoint > 0 && ctx::chance(1, checkpoint) {
        let c = snapshot(tableau);
        ctx::note("checkpoint taken");
        ctx::log(|| format!("checkpoint: basis {:?}", c.basis));
        with(|o| o.last_checkpoint = Some(c));
    }
}

/// How far the observed execution came: beyond phase one, and with a basis noted there.
pub fn progress() -> usize {
    OBSERVER.with(|x| {
        let Ok(o) = x.try_borrow() else { return 0 };
        match o.as_ref() {
            Some(o) if !o.phase.is_empty() && o.phase != "phase one" => 1 + o.last_checkpoint.is_some() as usize,
            _ => 0,
        }
    })
}
pub fn active() -> bool {
    OBSERVER.with(|x| x.borrow().is_some())
}
