//! Minimum cost flow by its own methods: a feasible flow along augmenting paths, then negative
//! cycles of the residual graph cancelled one after the other.
use crate::oracle::Verdict;
use crate::rat::Q;

#[derive(Clone, Debug)]
pub struct Arc {
    pub from: usize,
    pub to: usize,
    pub cost: Q,
    /// None: as much as one likes.
    pub capacity: Option<Q>,
}

/// What can still be pushed: along the arc, or back.
fn room(arc: &Arc, flow: Q, back: bool) -> Option<Q> {
    if back { Some(flow) } else { arc.capacity.map(|c| c - flow) }
}
fn open(arc: &Arc, flow: Q, back: bool) -> bool {
    room(arc, flow, back).is_none_or(|r| !r.is_zero())
}
/// Push as much as possible along a path or cycle of (arc, backwards); nothing when there is no limit.
fn push(arcs: &[Arc], flow: &mut [Q], path: &[(usize, bool)], limit: Option<Q>) -> Option<Q> {
    let most = path.iter().filter_map(|&(a, back)| room(&arcs[a], flow[a], back)).chain(limit).min()?;
    for &(a, back) in path {
        flow[a] = if back { flow[a] - most } else { flow[a] + most };
    }
    Some(most)
}

/// Inflow minus outflow is the demand at each vertex; the demands add up to zero.
pub fn solve(vertices: usize, arcs: &[Arc], demand: &[Q]) -> Verdict {
    let mut flow = vec![Q::ZERO; arcs.len()];
    // Needs are met one augmenting path at a time.
    let mut excess: Vec<Q> = demand.iter().map(|&d| -d).collect();
    loop {
        let mut reached: Vec<Option<Option<(usize, bool)>>> = vec![None; vertices];
        let mut queue: Vec<usize> = (0..vertices).filter(|&v| excess[v] > Q::ZERO).collect();
        if queue.is_empty() {
            break;
        }
        for &v in &queue {
            reached[v] = Some(None);
        }
        let mut next = 0;
        let mut end = None;
        while next < queue.len() && end.is_none() {
            let v = queue[next];
            next += 1;
            for (a, arc) in arcs.iter().enumerate() {
                for (back, here, there) in [(false, arc.from, arc.to), (true, arc.to, arc.from)] {
                    if here == v && reached[there].is_none() && open(arc, flow[a], back) {
                        reached[there] = Some(Some((a, back)));
                        queue.push(there);
                        if excess[there] < Q::ZERO && end.is_none() {
                            end = Some(there);
                        }
                    }
                }
            }
        }
        let Some(end) = end else { return Verdict::Infeasible };
        let mut path = Vec::new();
        let mut v = end;
        while let Some(Some((a, back))) = reached[v] {
            path.push((a, back));
            v = if back { arcs[a].to } else { arcs[a].from };
        }
        let most = push(arcs, &mut flow, &path, Some(excess[v].min(-excess[end]))).expect("limited");
        excess[v] = excess[v] - most;
        excess[end] = excess[end] + most;
    }
    // Without a negative cycle it is as cheap as can be.
    while let Some(cycle) = negative_cycle(vertices, arcs, &flow) {
        if push(arcs, &mut flow, &cycle, None).is_none() {
            return Verdict::Unbounded;
        }
    }
    let total = arcs.iter().zip(&flow).fold(Q::ZERO, |sum, (a, &f)| sum + a.cost * f);
    Verdict::Optimal(total, flow)
}

/// First one of arcs without a limit, if there is any: then the cost has no lower bound.
fn negative_cycle(vertices: usize, arcs: &[Arc], flow: &[Q]) -> Option<Vec<(usize, bool)>> {
    cycle_among(vertices, arcs, &|a, back| !back && arcs[a].capacity.is_none())
        .or_else(|| cycle_among(vertices, arcs, &|a, back| open(&arcs[a], flow[a], back)))
}
fn cycle_among(vertices: usize, arcs: &[Arc], usable: &dyn Fn(usize, bool) -> bool) -> Option<Vec<(usize, bool)>> {
    let mut distance = vec![Q::ZERO; vertices];
    let mut through: Vec<Option<(usize, bool)>> = vec![None; vertices];
    let mut last = None;
    for _ in 0..=vertices {
        last = None;
        for (a, arc) in arcs.iter().enumerate() {
            for (back, from, to) in [(false, arc.from, arc.to), (true, arc.to, arc.from)] {
                if !usable(a, back) {
                    continue;
                }
                let reached = if back { distance[from] - arc.cost } else { distance[from] + arc.cost };
                if reached < distance[to] {
                    distance[to] = reached;
                    through[to] = Some((a, back));
                    last = Some(to);
                }
            }
        }
        last?;
    }
    let before = |v: usize| {
        let (a, back) = through[v].expect("improved");
        ((a, back), if back { arcs[a].to } else { arcs[a].from })
    };
    let mut v = last?;
    for _ in 0..vertices {
        v = before(v).1;
    }
    let start = v;
    let mut cycle = Vec::new();
    loop {
        let (step, w) = before(v);
        cycle.push(step);
        v = w;
        if v == start {
            return Some(cycle);
        }
    }
}
