//! Driving the real solver end to end, with every schedule decision under the simulator.
use std::cell::RefCell;

use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::{Column, ColumnIterator};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::phase_one::{PartialInitialBasis, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::tableau::Tableau;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::vector::SparseVector;
use relp::data::linear_program::elements::LinearProgramType;
use relp::data::linear_program::general_form::GeneralForm;
use relp::data::linear_program::solution::Solution;

use num_traits::{One, Zero};

use crate::conv::{RB, q};
use crate::ctx;
use crate::oracle::{Lp, Verdict};
use crate::rat::Q;
use crate::rule::{self, Model, Observer, SimRule, TIES, Ties, Which};
use crate::runner::{Fail, fail};
use crate::seam::{self, Knobs, Refactor, SimBI, SimFull, SimPartial, SimProvider};

pub type SimLu = Carry<RB, SimBI<LUDecomposition<RB>>>;
pub type SimRows = Carry<RB, SimBI<BasisInverseRows<RB>>>;
pub type PlainLu = Carry<RB, LUDecomposition<RB>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Engine {
    /// LU decomposition with eta files.
    Lu,
    /// Explicit rows of the inverse.
    Rows,
}

/// What the solver is told about an initial basis, and who prices.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Route {
    /// As a user calls it.
    Standard,
    /// No initial basis is declared: all artificial.
    NoBasis,
    /// Some of the available unit columns are declared.
    SomeBasis,
    /// A complete initial basis, when there is one.
    FullBasis,
    /// Through the phases by hand, with the observing pivot rule.
    Observed { fully: bool },
}

/// How the solver answered.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
    Infeasible,
    Unbounded,
    Optimal(SparseVector<RB, RB>),
}
impl Answer {
    pub fn name(&self) -> &'static str {
        match self {
            Answer::Infeasible => "infeasible",
            Answer::Unbounded => "unbounded",
            Answer::Optimal(_) => "optimal",
        }
    }
}
pub fn answer(r: OptimizationResult<RB>) -> Answer {
    match r {
        OptimizationResult::Infeasible => Answer::Infeasible,
        OptimizationResult::Unbounded => Answer::Unbounded,
        OptimizationResult::FiniteOptimum(v) => Answer::Optimal(v),
    }
}

/// The user's view of an answer: name, reported objective and values by variable name.
#[derive(Clone, Debug)]
pub struct Reported {
    pub name: &'static str,
    pub objective: Option<Q>,
    pub values: Vec<(String, Q)>,
    /// The objective is that of the equivalent minimisation problem.
    pub minimisation: bool,
}

/// Which of the tableau's columns could be declared as initial basis.
pub fn pivots_of<MP: PartialInitialBasis>(provider: &MP) -> Vec<(usize, usize)> {
    provider.pivot_element_indices()
}

pub fn draw_engine() -> Engine {
    *ctx::pick(&[Engine::Lu, Engine::Lu, Engine::Rows])
}
pub fn draw_route() -> Route {
    match ctx::below(8) {
        0 | 1 => Route::Standard,
        2 => Route::NoBasis,
        3 => Route::SomeBasis,
        4 => Route::FullBasis,
        5 => Route::Observed { fully: true },
        _ => Route::Observed { fully: false },
    }
}
/// A random schedule: refactorisation moments and deviations from the default pivots.
pub fn draw_knobs() -> Knobs {
    let refactor = match ctx::below(6) {
        0 | 1 => Refactor::Default,
        2 => Refactor::Never,
        3 => Refactor::Always,
        4 => Refactor::Sometimes(2),
        _ => Refactor::Sometimes(6),
    };
    let deviate = *ctx::pick(&[0u64, 1, 2, 5]);
    Knobs { refactor, deviate, deviations_left: 40, ..Knobs::NONE }
}

/// Watching each step or never refactoring takes too long for large problems.
pub fn take_it_easy(lp: &Lp, route: &mut Route, knobs: &mut Knobs) {
    if lp.rows.len() > 64 && matches!(route, Route::Observed { .. }) {
        *route = Route::Standard;
    }
    if lp.rows.len() > 20 && matches!(knobs.refactor, Refactor::Never | Refactor::Always) {
        knobs.refactor = Refactor::Default;
    }
}

/// Exact data of the problem behind a provider, for the observer.
pub fn model_of<'a, MP: MatrixProvider>(provider: &'a MP, artificial: &[usize], phase_one: bool) -> Model
where
    RB: for<'r> From<&'r <MP::Column as Column>::F> + From<MP::Rhs> + std::ops::Add<MP::Cost<'a>, Output = RB>,
{
    let mut columns: Vec<Vec<(usize, RB)>> = artificial.iter().map(|&i| vec![(i, RB::one())]).collect();
    let mut costs: Vec<RB> = artificial.iter().map(|_| RB::one()).collect();
    for j in 0..provider.nr_columns() {
        let column = provider.column(j);
        columns.push(column.iter().map(|(i, v)| (i, RB::from(v))).collect());
        costs.push(if phase_one { RB::zero() } else { RB::zero() + provider.cost_value(j) });
    }
    let rhs = provider.right_hand_side().into_iter().map(RB::from).collect();
    Model { columns, costs, rhs }
}

/// The model without some of its rows.
pub fn without_rows(mut model: Model, rows: &[usize]) -> Model {
    let kept: Vec<usize> = (0..model.rhs.len()).filter(|i| !rows.contains(i)).collect();
    let place = |i: usize| kept.iter().position(|&k| k == i);
    for column in &mut model.columns {
        *column = column.drain(..).filter_map(|(i, v)| place(i).map(|i| (i, v))).collect();
    }
    model.rhs = kept.iter().map(|&i| model.rhs[i].clone()).collect();
    model
}

thread_local! {
    static PHASE_ONE_REMOVED: RefCell<Option<Vec<usize>>> = const { RefCell::new(None) };
}
pub fn forget_phase_one() {
    PHASE_ONE_REMOVED.with(|r| *r.borrow_mut() = None);
}
pub fn note_removed(rows: Vec<usize>) {
    PHASE_ONE_REMOVED.with(|r| *r.borrow_mut() = Some(rows));
}
/// The rows the last observed phase one found redundant, if it ended feasible.
pub fn phase_one_removed() -> Option<Vec<usize>> {
    PHASE_ONE_REMOVED.with(|r| r.borrow().clone())
}

/// Solve a kind of problem over one kind of basis representation. The unit columns `units` may be
/// declared as initial basis.
#[macro_export]
macro_rules! by_engine {
    ($name:ident, $im:ty, $mp:ty) => {
        pub fn $name(data: &$mp, units: &[(usize, usize)], route: Route) -> Answer {
            match route {
                Route::Standard => answer(data.solve_relaxation::<$im>()),
                Route::NoBasis => answer(SimProvider { inner: data }.solve_relaxation::<$im>()),
                Route::SomeBasis => {
                    let mut pivots = units.to_vec();
                    pivots.retain(|_| ctx::chance(1, 2));
                    answer(SimPartial { inner: SimProvider { inner: data }, pivots }.solve_relaxation::<$im>())
                }
                Route::FullBasis => {
                    let mut pivots = units.to_vec();
                    if pivots.len() < data.nr_rows() {
                        return $name(data, units, Route::Standard);
                    }
                    ctx::shuffle(&mut pivots);
                    answer(SimFull(SimPartial { inner: SimProvider { inner: data }, pivots }).solve_relaxation::<$im>())
                }
                Route::Observed { fully } => {
                    let provider = SimProvider { inner: data };
                    let partial = SimPartial { inner: SimProvider { inner: data }, pivots: units.to_vec() };
                    let m = data.nr_rows();
                    let artificial: Vec<usize> =
                        if fully { (0..m).collect() } else { (0..m).filter(|i| partial.pivots.iter().all(|(r, _)| r != i)).collect() };
                    let modelled = rule::with(|o| o.check > 0);
                    rule::phase("phase one", artificial.len(), modelled.then(|| model_of(data, &artificial, true)));
                    let result = if fully {
                        crate::hooks::phase_one_fully::<$im, _, SimRule>(&provider)
                    } else {
                        crate::hooks::phase_one_partially::<$im, _, SimRule>(&partial)
                    };
                    match result {
                        RankedFeasibilityResult::Infeasible => Answer::Infeasible,
                        RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => match rank {
                            Rank::Deficient(rows) if !rows.is_empty() => {
                                ctx::note("rank deficient");
                                note_removed(rows.clone());
                                let model = modelled.then(|| without_rows(model_of(data, &[], false), &rows));
                                let removed = RemoveRows::new(&provider, rows);
                                rule::phase("phase two", 0, model);
                                let mut tableau = Tableau::<_, NonArtificial<_>>::from_artificial_removing_rows(
                                    inverse_maintainer,
                                    nr_artificial_variables,
                                    basis,
                                    &removed,
                                );
                                answer(phase_two::primal::<_, _, SimRule>(&mut tableau))
                            }
                            _ => {
                                note_removed(Vec::new());
                                rule::phase("phase two", 0, modelled.then(|| model_of(data, &[], false)));
                                let mut tableau =
                                    Tableau::<_, NonArtificial<_>>::from_artificial(inverse_maintainer, nr_artificial_variables, basis, &provider);
                                answer(phase_two::primal::<_, _, SimRule>(&mut tableau))
                            }
                        },
                    }
                }
            }
        }
    };
}
by_engine!(solve_lu, SimLu, MatrixData<RB>);
by_engine!(solve_rows, SimRows, MatrixData<RB>);

pub fn solve(data: &MatrixData<RB>, engine: Engine, route: Route) -> Answer {
    if let Route::Observed { .. } = route {
        // Unless the scenario already set one up.
        if !rule::active() {
            rule::observe(Observer::new(*ctx::pick(&rule::WHICH)));
        }
    }
    let units = pivots_of(data);
    match engine {
        Engine::Lu => solve_lu(data, &units, route),
        Engine::Rows => solve_rows(data, &units, route),
    }
}

pub fn solution(s: &Solution<RB>, minimisation: bool) -> Reported {
    Reported {
        name: "optimal",
        objective: Some(q(&s.objective_value)),
        values: s.solution_values.iter().map(|(n, v)| (n.clone(), q(v))).collect(),
        minimisation,
    }
}
pub fn without_solution(name: &'static str) -> Reported {
    Reported { name, objective: None, values: Vec::new(), minimisation: false }
}

/// What presolving says, if it already says everything.
pub fn presolve(general: &mut GeneralForm<RB>) -> Option<Reported> {
    match general.presolve() {
        Ok(()) => None,
        Err(LinearProgramType::Infeasible) => Some(without_solution("infeasible")),
        Err(LinearProgramType::Unbounded) => Some(without_solution("unbounded")),
        Err(LinearProgramType::FiniteOptimum(s)) => Some(solution(&s, false)),
    }
}

/// Standardise, solve, and report in terms of the original problem.
pub fn finish(mut general: GeneralForm<RB>, engine: Engine, route: Route) -> Reported {
    let counts = general.standardize();
    let data = general.derive_matrix_data(counts);
    let a = solve(&data, engine, route);
    ctx::log(|| format!("answer: {}", a.name()));
    match a {
        Answer::Infeasible => without_solution("infeasible"),
        Answer::Unbounded => without_solution("unbounded"),
        Answer::Optimal(v) => {
            let reduced = data.reconstruct_solution(v);
            let full = general.compute_full_solution_with_reduced_solution(reduced);
            solution(&full, true)
        }
    }
}

/// Judge a report against the reference model. `names` maps the model's variables.
pub fn judge(lp: &Lp, verdict: &Verdict, reported: &Reported, names: &[String]) -> Result<(), Fail> {
    if reported.name != verdict.name() {
        return fail(
            format!("verdict {} instead of {}", reported.name, verdict.name()),
            format!("reported {}, the reference model says {:?} for\n{lp}", reported.name, verdict),
        );
    }
    let Verdict::Optimal(best, _) = verdict else { return Ok(()) };
    let mut x = vec![None; lp.vars.len()];
    for (name, value) in &reported.values {
        match names.iter().position(|n| n == name) {
            None => return fail("unknown variable", format!("the solution names {name:?}, which is no variable of\n{lp}")),
            Some(j) => {
                if x[j].replace(*value).is_some() {
                    return fail("variable twice", format!("the solution names {name:?} twice for\n{lp}"));
                }
            }
        }
    }
    if let Some(j) = x.iter().position(|v| v.is_none()) {
        return fail("variable missing", format!("the solution has no value for {:?} of\n{lp}", names[j]));
    }
    let x: Vec<Q> = x.into_iter().map(|v| v.unwrap()).collect();
    if let Some(why) = lp.violated(&x) {
        return fail("infeasible solution", format!("{why}, in the solution {x:?} of\n{lp}"));
    }
    let cost = lp.cost_of(&x);
    if cost != *best {
        return fail("suboptimal solution", format!("the solution {x:?} costs {cost}, the optimum is {best}, of\n{lp}"));
    }
    let expected = if lp.maximize && reported.minimisation { -*best } else { *best };
    if reported.objective != Some(expected) {
        return fail(
            "reported objective",
            format!("the objective is reported as {:?} instead of {expected}, for the solution {x:?} of\n{lp}", reported.objective),
        );
    }
    Ok(())
}

pub fn default_names(lp: &Lp) -> Vec<String> {
    (0..lp.vars.len()).map(|j| format!("x{j}")).collect()
}

/// Every simulated solve must end within this many callbacks. The generated problems need a few
/// hundred, a random schedule a few thousand.
pub const SOLVE_STEPS: u64 = 2_000_000;
/// And within this many basis changes.
pub const SOLVE_PIVOTS: u64 = 800;

/// Log the scenario.
pub fn describe(lp: &Lp, engine: Engine, route: Route, k: &Knobs) {
    ctx::event(ctx::hash_str(&lp.to_string()));
    ctx::log(|| format!("{lp}engine {engine:?}, route {route:?}, refactorisation {:?}, deviate 1/{}", k.refactor, k.deviate));
}

pub fn observer(which: Which, check: u64) -> Observer {
    Observer { check, ..Observer::new(which) }
}
/// On a problem on which ties can be broken such that the solver cycles: an observer that has it do
/// so for a while.
pub fn cycling_observer() -> Observer {
    let which = *ctx::pick(&[Which::Stalling, Which::First, Which::First, Which::AlongVariable, Which::AlongObjective, Which::FirstMemory]);
    let mut o = observer(which, 0);
    o.ties = if which == Which::Stalling { Ties::Default } else { *ctx::pick(&TIES) };
    o.patience = *ctx::pick(&[10u64, 40, 120]);
    o
}
pub fn reset_seams() {
    seam::reset();
}
/// A presolve applies at most so many rules, each of which asks the simulator for decisions.
pub const PRESOLVE_STEPS: u64 = 200_000;
