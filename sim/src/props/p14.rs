//! Problems supplied by the caller's own code.
use std::panic::{AssertUnwindSafe, catch_unwind};

use relp::algorithm::SolveRelaxation;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::phase_one::{PartialInitialBasis, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::tableau::Tableau;
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::data::linear_algebra::vector::Vector;
use relp::data::linear_program::network::representation::ArcDirection;

use crate::by_engine;
use crate::conv::{q, r64};
use crate::ctx::{self, InjectedCrash};
use crate::netflow;
use crate::oracle::{Kind, Lp, Row, Var, Verdict};
use crate::pipeline::*;
use crate::providers::*;
use crate::rat::Q;
use crate::rule::{self, Observer, SimRule};
use crate::runner::{Fail, Property, fail};
use crate::seam::{self, Knobs, Refactor, SimFull, SimPartial, SimProvider};

pub const PROPERTY: Property = Property {
    id: "P14",
    title: "Problems supplied by the caller's own code are solved just as exactly",
    scenario,
    quick_runs: 350_000,
    thorough_secs: 500,
    rule: "a run counts when a problem given only by the harness's own implementation of the interface was pivoted on and judged; distinct by its complete history",
    state_measure: "distinct graphs and matrices",
    real: &["both simplex phases", "fully and partially artificial tableaus", "announced bases", "removal of redundant rows", "incidence matrix", "both representations of the basis inverse"],
    stub: &["the problems are implementations of the public traits in the harness", "pivots, ties and refactorisation moments come from the simulator"],
    assumptions: &["the reference model (exact rational arithmetic, Bland's rule) is right", "columns keep the interface's contract: sorted by row, nonnegative right-hand side, announced columns are unit columns in distinct rows"],
    must_reach: &["maximum flow", "shortest path", "minimum cost flow", "lazy matrix", "no path", "negative cycle", "redundant rows", "announced basis of a lazy matrix", "complete announced basis", "provider panicked", "rank deficient", "large graph", "large lazy matrix", "more than 64 columns"],
};

by_engine!(lazy_lu, SimLu, Lazy);
by_engine!(lazy_rows, SimRows, Lazy);
by_engine!(flow_lu, SimLu, MaxFlow);
by_engine!(flow_rows, SimRows, MaxFlow);
by_engine!(path_lu, SimLu, ShortestPath);
by_engine!(path_rows, SimRows, ShortestPath);
by_engine!(cost_lu, SimLu, MinCost);
by_engine!(cost_rows, SimRows, MinCost);

/// What the interface says, as a problem for the reference model.
fn standard(columns: Vec<Vec<(usize, Q)>>, costs: Vec<Q>, rhs: &[Q]) -> Lp {
    let mut rows: Vec<Row> = rhs.iter().map(|&b| Row { coefs: Vec::new(), kind: Kind::Eq, b }).collect();
    for (j, column) in columns.into_iter().enumerate() {
        for (i, v) in column {
            rows[i].coefs.push((j, v));
        }
    }
    let vars = costs.into_iter().map(|cost| Var { cost, lo: Some(Q::ZERO), up: None }).collect();
    Lp { maximize: false, fixed: Q::ZERO, vars, rows }
}

struct Drawn {
    engine: Engine,
    route: Route,
    knobs: Knobs,
}
fn draw() -> Drawn {
    let d = Drawn { engine: draw_engine(), route: draw_route(), knobs: draw_knobs() };
    if let Route::Observed { .. } = d.route {
        rule::observe(Observer { check: *ctx::pick(&[0u64, 1, 3]), ..Observer::new(*ctx::pick(&rule::WHICH)) });
    }
    d
}

/// Solve, perhaps after an attempt that panics in the caller's code, and judge.
fn judged(lp: &Lp, verdict: Verdict, columns: usize, mut d: Drawn, mut solve: impl FnMut(Engine, Route) -> Answer) -> Result<(), Fail> {
    ctx::state(ctx::hash_str(&lp.to_string()));
    let size = (lp.rows.len() + columns) as u64;
    if columns > 64 {
        ctx::note("more than 64 columns");
    }
    if size > 40 {
        // Watching each step or never refactoring takes too long here.
        if let Route::Observed { .. } = d.route {
            d.route = Route::Standard;
        }
        if matches!(d.knobs.refactor, Refactor::Never | Refactor::Always) {
            d.knobs.refactor = Refactor::Default;
        }
    }
    describe(lp, d.engine, d.route, &d.knobs);
    seam::install_hooks();
    ctx::set_step_limit(SOLVE_STEPS);
    seam::limit_pivots(SOLVE_PIVOTS + if size > 40 { 60 * size } else { 0 });
    let before = seam::basis_changes();
    forget_phase_one();
    if ctx::chance(1, 8) {
        seam::set_knobs(Knobs { crash_in: Some(ctx::below(200) as u64), crash_fault: "provider panicked", ..d.knobs });
        match catch_unwind(AssertUnwindSafe(|| solve(d.engine, d.route))) {
            Ok(_) => {}
            Err(p) if p.is::<InjectedCrash>() => {}
            Err(p) => std::panic::resume_unwind(p),
        }
        forget_phase_one();
    }
    seam::set_knobs(d.knobs);
    let answer = solve(d.engine, d.route);
    ctx::clear_step_limit();
    seam::limit_pivots(u64::MAX);
    if seam::basis_changes() > before + 1 {
        ctx::nontrivial();
    }
    if phase_one_removed().is_some_and(|r| !r.is_empty()) {
        ctx::note("redundant rows");
    }
    if answer.name() != verdict.name() {
        return fail(
            format!("verdict {} instead of {}", answer.name(), verdict.name()),
            format!("reported {}, the reference model says {verdict:?} for\n{lp}", answer.name()),
        );
    }
    let (Answer::Optimal(v), Verdict::Optimal(best, _)) = (answer, verdict) else { return Ok(()) };
    if v.len() != columns {
        return fail("number of values", format!("{} values for {columns} columns of\n{lp}", v.len()));
    }
    let mut x = vec![Q::ZERO; columns];
    for (j, value) in v.iter() {
        x[j] = q(value);
    }
    if let Some(why) = lp.violated(&x) {
        return fail("infeasible solution", format!("{why}, in the solution {x:?} of\n{lp}"));
    }
    let cost = lp.cost_of(&x);
    if cost != best {
        return fail("suboptimal solution", format!("the solution {x:?} costs {cost}, the optimum is {best}, of\n{lp}"));
    }
    Ok(())
}

fn scenario() -> Result<(), Fail> {
    match ctx::below(6) {
        0 | 1 => lazy(),
        2 => max_flow(),
        3 => shortest_path(),
        _ => min_cost(),
    }
}

/// Small enough for the reference model, which is asked as well then.
fn draw_graph(negative: bool) -> (Graph, usize, usize, bool) {
    let large = ctx::chance(1, 150);
    let (vertices, most) = if large { *ctx::pick(&[(8, 24), (14, 40), (24, 70), (40, 100)]) } else { (2 + ctx::below(5), 12) };
    let (density, of) = if large { (1 + ctx::below(3) as u64, vertices as u64 / 2) } else { (1 + ctx::below(3) as u64, 4) };
    if large {
        ctx::note("large graph");
    }
    let fractions = ctx::chance(1, 4);
    let mut arcs = Vec::new();
    for from in 0..vertices {
        for to in 0..vertices {
            if from == to || !ctx::chance(density, of) || arcs.len() >= most {
                continue;
            }
            let mut v = Q::int(1 + ctx::below(6) as i64);
            if fractions && ctx::chance(1, 2) {
                v = v / Q::int(1 + ctx::below(5) as i64);
            }
            if negative && ctx::chance(1, if large { 30 } else { 5 }) {
                v = -v;
            }
            arcs.push((from, to, v));
        }
    }
    if arcs.is_empty() {
        arcs.push((0, 1, Q::ONE));
    }
    let s = ctx::below(vertices);
    let t = (s + 1 + ctx::below(vertices - 1)) % vertices;
    (Graph { vertices, arcs }, s, t, large)
}

/// What the incidence matrix should be, checked against what the library makes of the graph.
fn incidence(g: &Graph, removed: &[usize], of: &relp::data::linear_program::network::representation::IncidenceMatrix) -> Result<Vec<Vec<(usize, Q)>>, Fail> {
    if (of.nr_vertices(), of.nr_edges()) != (g.vertices, g.arcs.len()) {
        return fail("incidence matrix", format!("{} vertices, {} arcs for {g:?}", of.nr_vertices(), of.nr_edges()));
    }
    let place = |v: usize| (!removed.contains(&v)).then(|| v - removed.iter().filter(|r| **r < v).count());
    let mut columns = Vec::new();
    for (j, &(from, to, _)) in g.arcs.iter().enumerate() {
        let mut expected = Vec::new();
        expected.extend(place(from).map(|i| (i, -Q::ONE)));
        expected.extend(place(to).map(|i| (i, Q::ONE)));
        expected.sort_by_key(|(i, _)| *i);
        let got: Vec<(usize, Q)> = of
            .column(j)
            .into_iter()
            .map(|(i, d)| (i, if d == ArcDirection::Incoming { Q::ONE } else { -Q::ONE }))
            .collect();
        if got != expected {
            return fail("incidence matrix", format!("arc {j} from {from} to {to} is {got:?} instead of {expected:?} without {removed:?} in {g:?}"));
        }
        columns.push(expected);
    }
    Ok(columns)
}

/// The reference model agrees with the other methods.
fn agree(lp: &Lp, first: &Verdict, second: &Verdict) {
    let told = |v: &Verdict| match v {
        Verdict::Optimal(best, _) => (v.name(), Some(*best)),
        _ => (v.name(), None),
    };
    let model = lp.solve();
    if told(first) != told(&model) || told(second) != told(&model) {
        panic!("harness: reference algorithms disagree: {first:?}, {second:?}, {model:?} of\n{lp}");
    }
}

fn max_flow() -> Result<(), Fail> {
    ctx::note("maximum flow");
    let (g, s, t, large) = draw_graph(false);
    let d = draw();
    let problem = MaxFlow::new(&g, s, t);
    let mut columns = incidence(&g, &[s, t], &problem.matrix)?;
    let (n, e) = (g.vertices - 2, g.arcs.len());
    for (j, column) in columns.iter_mut().enumerate() {
        column.push((n + j, Q::ONE));
    }
    columns.extend((0..e).map(|j| vec![(n + j, Q::ONE)]));
    let out = |v: usize, w: usize| if v == s { -Q::ONE } else if w == s { Q::ONE } else { Q::ZERO };
    let mut costs: Vec<Q> = g.arcs.iter().map(|&(v, w, _)| out(v, w)).collect();
    costs.resize(2 * e, Q::ZERO);
    let mut rhs = vec![Q::ZERO; n];
    rhs.extend(g.arcs.iter().map(|a| a.2));
    let lp = standard(columns, costs, &rhs);
    // Only the cost at s counts, wherever the flow ends.
    let arcs: Vec<_> = g.arcs.iter().zip(&lp.vars).map(|(&(from, to, c), v)| netflow::Arc { from, to, cost: v.cost, capacity: Some(c) }).collect();
    // Flow that comes out of t goes back to s.
    let back = netflow::Arc { from: t, to: s, cost: Q::ZERO, capacity: None };
    let verdict = netflow::solve(g.vertices, &[&arcs[..], &[back.clone(), netflow::Arc { from: s, to: t, ..back }]].concat(), &vec![Q::ZERO; g.vertices]);
    if !large {
        // The least cut.
        let cut = (0..1usize << g.vertices)
            .filter(|set| set >> s & 1 == 1 && set >> t & 1 == 0)
            .map(|set| g.arcs.iter().filter(|&&(v, w, _)| set >> v & 1 == 1 && set >> w & 1 == 0).fold(Q::ZERO, |sum, a| sum + a.2))
            .min()
            .expect("some cut");
        agree(&lp, &Verdict::Optimal(-cut, Vec::new()), &verdict);
    }
    let units = problem.pivot_element_indices();
    judged(&lp, verdict, 2 * e, d, |engine, route| match engine {
        Engine::Lu => flow_lu(&problem, &units, route),
        Engine::Rows => flow_rows(&problem, &units, route),
    })
}

fn shortest_path() -> Result<(), Fail> {
    ctx::note("shortest path");
    let (g, s, t, large) = draw_graph(ctx::chance(1, 2));
    let d = draw();
    let problem = ShortestPath::new(&g, s, t);
    let columns = incidence(&g, &[s], &problem.matrix)?;
    let mut rhs = vec![Q::ZERO; g.vertices - 1];
    rhs[t - usize::from(t > s)] = Q::ONE;
    let lp = standard(columns, g.arcs.iter().map(|a| a.2).collect(), &rhs);
    // Bellman and Ford.
    let relax = |dist: &mut Vec<Option<Q>>| {
        let mut changed = false;
        for &(v, w, c) in &g.arcs {
            if let Some(x) = dist[v] {
                let through = x + c;
                if dist[w].is_none_or(|y| through < y) {
                    dist[w] = Some(through);
                    changed = true;
                }
            }
        }
        changed
    };
    let mut from_s = vec![None; g.vertices];
    from_s[s] = Some(Q::ZERO);
    let mut anywhere = vec![Some(Q::ZERO); g.vertices];
    let mut cycle = false;
    for _ in 0..=g.vertices {
        relax(&mut from_s);
        cycle = relax(&mut anywhere);
    }
    let arcs: Vec<_> = g.arcs.iter().map(|&(from, to, cost)| netflow::Arc { from, to, cost, capacity: None }).collect();
    let mut demand = vec![Q::ZERO; g.vertices];
    (demand[s], demand[t]) = (-Q::ONE, Q::ONE);
    let verdict = netflow::solve(g.vertices, &arcs, &demand);
    let paths = match (from_s[t], cycle) {
        (None, _) => {
            ctx::note("no path");
            Verdict::Infeasible
        }
        (Some(_), true) => {
            ctx::note("negative cycle");
            Verdict::Unbounded
        }
        (Some(length), false) => Verdict::Optimal(length, Vec::new()),
    };
    if !large {
        agree(&lp, &paths, &verdict);
    }
    let route = match d.route {
        // There are no unit columns to be found beforehand.
        Route::SomeBasis | Route::FullBasis => Route::Standard,
        r => r,
    };
    judged(&lp, paths, g.arcs.len(), Drawn { route, ..d }, |engine, route| match engine {
        Engine::Lu => path_lu(&problem, &[], route),
        Engine::Rows => path_rows(&problem, &[], route),
    })
}

fn min_cost() -> Result<(), Fail> {
    ctx::note("minimum cost flow");
    let (g, s, _, large) = draw_graph(ctx::chance(2, 3));
    let d = draw();
    // Circulations keep all vertices; otherwise one supplies the others.
    let removed = if ctx::chance(1, 3) { vec![] } else { vec![s] };
    let circulation = removed.is_empty();
    let all = ctx::chance(1, 2);
    let mut capacity = Vec::new();
    for a in 0..g.arcs.len() {
        if all || ctx::chance(1, 2) {
            capacity.push((a, Q::int(ctx::below(6) as i64)));
        }
    }
    let n = g.vertices - removed.len();
    let demand: Vec<Q> = (0..n).map(|_| if circulation || ctx::chance(1, 2) { Q::ZERO } else { Q::int(ctx::below(4) as i64) }).collect();
    let (matrix, cost) = g.incidence(removed.clone());
    let mut columns = incidence(&g, &removed, &matrix)?;
    let mut costs: Vec<Q> = g.arcs.iter().map(|a| a.2).collect();
    for (k, &(a, _)) in capacity.iter().enumerate() {
        columns[a].push((n + k, Q::ONE));
        columns.push(vec![(n + k, Q::ONE)]);
        costs.push(Q::ZERO);
    }
    let mut rhs = demand.clone();
    rhs.extend(capacity.iter().map(|c| c.1));
    let total = columns.len();
    let lp = standard(columns, costs, &rhs);
    let problem = MinCost { matrix, cost, demand, capacity };
    let arcs: Vec<_> = g.arcs.iter().map(|&(from, to, cost)| netflow::Arc { from, to, cost, capacity: None }).collect();
    let mut arcs = arcs;
    for &(a, c) in &problem.capacity {
        arcs[a].capacity = Some(c);
    }
    let mut needs = problem.demand.clone();
    if !circulation {
        needs.insert(s, -problem.demand.iter().fold(Q::ZERO, |sum, &d| sum + d));
    }
    let verdict = netflow::solve(g.vertices, &arcs, &needs);
    if !large {
        agree(&lp, &verdict, &verdict);
    }
    let units = problem.pivot_element_indices();
    judged(&lp, verdict, total, d, |engine, route| match engine {
        Engine::Lu => cost_lu(&problem, &units, route),
        Engine::Rows => cost_rows(&problem, &units, route),
    })
}

fn lazy() -> Result<(), Fail> {
    ctx::note("lazy matrix");
    let large = ctx::chance(1, 150);
    if large {
        ctx::note("large lazy matrix");
    }
    let (m, n) = if large { *ctx::pick(&[(10, 20), (20, 60), (50, 40), (70, 80)]) } else { (1 + ctx::below(6), 1 + ctx::below(8)) };
    let d = draw();
    let wide = if ctx::chance(1, 4) { 9 } else { 3 };
    let number = || {
        let v = Q::int(ctx::small(wide));
        if ctx::chance(1, 8) { v / Q::int(1 + ctx::below(4) as i64) } else { v }
    };
    // Rows, some of them combinations of earlier ones.
    let mut rows: Vec<Vec<Q>> = Vec::new();
    let x0: Vec<Q> = (0..n).map(|_| Q::int(ctx::below(4) as i64) * Q::int(ctx::below(2) as i64)).collect();
    let consistent = large || !ctx::chance(1, 5);
    let (density, of) = if large { (2 + ctx::below(3) as u64, m as u64) } else { (1 + ctx::below(4) as u64, 4) };
    let mut rhs: Vec<Q> = Vec::new();
    let full = d.route == Route::FullBasis;
    for i in 0..m {
        let row: Vec<Q> = if i > 0 && !full && ctx::chance(1, if large { 40 } else { 5 }) {
            let (a, b) = (ctx::below(i), ctx::below(i));
            let (f, g) = (number(), number());
            (0..n).map(|j| rows[a][j] * f + rows[b][j] * g).collect()
        } else {
            (0..n).map(|_| if ctx::chance(density, of) { number() } else { Q::ZERO }).collect()
        };
        let attained = row.iter().zip(&x0).fold(Q::ZERO, |sum, (a, x)| sum + *a * *x);
        let b = if consistent { attained } else { Q::int(ctx::below(5) as i64) };
        let sign = if b.is_neg() { -Q::ONE } else { Q::ONE };
        rows.push(row.into_iter().map(|a| a * sign).collect());
        rhs.push(b * sign);
    }
    // Columns, with unit columns at any place.
    let mut columns: Vec<(Vec<(usize, Q)>, Option<usize>, Option<usize>)> = (0..n)
        .map(|j| ((0..m).map(|i| (i, rows[i][j])).filter(|(_, v)| !v.is_zero()).collect(), None, Some(j)))
        .collect();
    let share = if full { 1 } else { *ctx::pick(&[2u64, 3, 6]) };
    for i in 0..m {
        if ctx::chance(1, share) {
            columns.insert(ctx::below(columns.len() + 1), (vec![(i, Q::ONE)], Some(i), None));
        }
    }
    // Rows that bound one variable, with their slacks.
    let bounds = if ctx::chance(1, 2) { ctx::below(if large { 20 } else { 3 }).min(n) } else { 0 };
    let mut bounded = Vec::new();
    let mut slack = vec![Q::ZERO; m + bounds];
    for k in 0..bounds {
        let row = m + k;
        let place = columns.iter().position(|c| c.2 == Some(k)).expect("an original column");
        columns[place].0.push((row, Q::ONE));
        slack[row] = Q::int(ctx::below(3) as i64);
        rhs.push(x0[k] + slack[row]);
        columns.insert(ctx::below(columns.len() + 1), (vec![(row, Q::ONE)], Some(row), None));
    }
    for k in 0..bounds {
        bounded.push(columns.iter().position(|c| c.2 == Some(k)).expect("an original column"));
    }
    let mut units: Vec<(usize, usize)> = columns.iter().enumerate().filter_map(|(j, c)| c.1.map(|i| (i, j))).collect();
    units.sort_unstable();
    let mut costs: Vec<Q> = columns.iter().map(|_| if ctx::chance(1, 3) { Q::ZERO } else { number() }).collect();
    let mut planted = Q::ZERO;
    if large {
        // Prices for which x0 is optimal.
        let price: Vec<Q> = (0..m + bounds).map(|_| if ctx::chance(1, 3) { Q::ZERO } else { Q::int(ctx::small(3)) }).collect();
        for (cost, (column, unit, original)) in costs.iter_mut().zip(&columns) {
            let x = original.map_or_else(|| unit.map_or(Q::ZERO, |i| slack[i]), |j| x0[j]);
            let more = if x.is_zero() && ctx::chance(2, 3) { Q::int(ctx::below(5) as i64) } else { Q::ZERO };
            *cost = column.iter().fold(more, |sum, &(i, v)| sum + price[i] * v);
            planted = planted + *cost * x;
        }
    }
    let columns: Vec<Vec<(usize, Q)>> = columns.into_iter().map(|c| c.0).collect();
    let lp = standard(columns.clone(), costs.clone(), &rhs);
    if !units.is_empty() && matches!(d.route, Route::SomeBasis | Route::Observed { fully: false }) {
        ctx::note("announced basis of a lazy matrix");
    }
    if full && units.len() == rhs.len() {
        ctx::note("complete announced basis");
    }
    let total = columns.len();
    let verdict = if large { Verdict::Optimal(planted, Vec::new()) } else { lp.solve() };
    let owned_costs = costs.iter().map(|&c| r64(c)).collect();
    let problem = Lazy { columns, costs, rhs, bounds, bounded, owned_costs };
    judged(&lp, verdict, total, d, |engine, route| match engine {
        Engine::Lu => lazy_lu(&problem, &units, route),
        Engine::Rows => lazy_rows(&problem, &units, route),
    })
}
