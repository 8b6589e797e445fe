//! Depth-first order is a genuine depth-first traversal.
use crate::graphs::*;
use crate::prelude::*;
use crate::with_graph_types;
use sparsetools::graph::depth_first_order;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    g: GraphSpec,
    start: u16,
}
fn strategy() -> BoxedStrategy<Case> {
    (prop_oneof![1 => Just(0u8), 2 => 0u8..8], graph_spec(), any::<u16>()).prop_map(|(ty, g, start)| Case { ty, g, start }).boxed()
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C18",
        rule: "random and structured graphs with random extra edges, relabelled nodes, edges in random storage order, duplicates and self-loops, mostly small, up to 3000 and rarely beyond 65536 nodes, random start node, both modes; the returned order is replayed as a depth-first traversal; non-trivial: at least 4 nodes reached in directed mode and some listed node has two or more children or a backtrack happened",
        assumptions: &["the start node lies inside the graph"],
        quick: 220_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_graph_types!(c.ty, go, c)
}
/// Replays the order; number of backtracks.
fn replay(adj: &[Vec<usize>], s: usize, order: &[usize], pred: &[Option<usize>], what: &str) -> Result<usize, String> {
    let n = adj.len();
    ensure(pred.len() == n, || format!("{what}: {} predecessors for {n} nodes", pred.len()))?;
    ensure(order.first() == Some(&s), || format!("{what}: starts with {:?}, expected {s}", order.first()))?;
    let reach = reached(adj, s);
    let total = reach.iter().filter(|r| **r).count();
    ensure(order.len() == total, || format!("{what}: lists {} nodes, {total} are reachable; order {}", order.len(), short(order)))?;
    let mut seen = vec![false; n];
    seen[s] = true;
    let mut left: Vec<std::collections::HashSet<usize>> = adj.iter().map(|v| v.iter().copied().collect()).collect();
    left.iter_mut().for_each(|l| {
        l.remove(&s);
    });
    // for removing a visited node from its neighbours' sets
    let mut into = vec![vec![]; n];
    for (u, v) in adj.iter().enumerate() {
        v.iter().for_each(|&w| into[w].push(u));
    }
    let mut stack = vec![s];
    let mut back = 0;
    for (k, &v) in order.iter().enumerate().skip(1) {
        ensure(v < n, || format!("{what}: node {v} of {n}"))?;
        ensure(!seen[v], || format!("{what}: node {v} listed twice; order {}", short(order)))?;
        while let Some(&u) = stack.last() {
            if left[u].is_empty() {
                stack.pop();
                back += 1;
            } else {
                break;
            }
        }
        let u = *stack.last().ok_or_else(|| format!("{what}: node {v} at place {k} has no listed neighbour left"))?;
        ensure(left[u].contains(&v), || {
            format!("{what}: node {v} at place {k} is no unvisited neighbour of {u}, the latest node that still has one; order {}", short(order))
        })?;
        ensure(pred[v] == Some(u), || format!("{what}: predecessor of {v} is {:?}, expected {u}", pred[v]))?;
        seen[v] = true;
        for &x in &into[v] {
            left[x].remove(&v);
        }
        stack.push(v);
    }
    for i in 0..n {
        ensure(seen[i] == reach[i], || format!("{what}: node {i} reachable: {}, listed: {}", reach[i], seen[i]))?;
        if i == s || !seen[i] {
            ensure(pred[i].is_none(), || format!("{what}: node {i} has predecessor {:?}", pred[i]))?;
        }
    }
    Ok(back)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let g = graph(&c.g, I::max_us(), false);
    let mut cov = Cov::default();
    if g.n > 0 {
        let a = g.csr::<I, T>();
        let s = spread(c.start, g.n);
        let adj = g.out();
        op("depth_first_order directed");
        let (o, p) = okay(depth_first_order(&a, s, true), "directed")?;
        let back = replay(&adj, s, &o, &p, "directed")?;
        op("depth_first_order undirected");
        let (u, p) = okay(depth_first_order(&a, s, false), "undirected")?;
        replay(&g.undirected(), s, &u, &p, "undirected")?;
        cov.nontrivial = o.len() >= 4 && back > 0;
        cov = cov.class_if(o.len() == g.n && g.n > 2, "reaches every node").class_if(u.len() > o.len(), "undirected reaches more").class_if(back > 2, "three or more backtracks");
    }
    if let Some(b) = skewed::<I, T>(&c.g, &g) {
        for d in [true, false] {
            op("depth_first_order of a non-square matrix");
            ensure(depth_first_order(&b, 0, d).is_err(), || format!("a {}x{} matrix was accepted", b.rows(), b.cols()))?;
        }
        cov = cov.class("non-square rejected");
    }
    op("");
    Ok(g.classes(cov).class(format!("index type {}", I::NAME)))
}
