//! Strong components are the true partition.
use crate::graphs::*;
use crate::prelude::*;
use crate::with_graph_types;
use sparsetools::graph::{connected_components, Connection};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    g: GraphSpec,
}
fn strategy() -> BoxedStrategy<Case> {
    (prop_oneof![1 => Just(0u8), 2 => 0u8..8], graph_spec()).prop_map(|(ty, g)| Case { ty, g }).boxed()
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C17",
        rule: "random and structured directed graphs (chains of cycles, nested back edges, figure eights, one-way bridges, trees, complete, self-loops) with random extra edges, relabelled nodes, edges in random storage order, duplicates, mostly small, up to 3000 and rarely beyond 65536 nodes; compared with mutual reachability; non-trivial: at least 2 strong components, one of them of 2 or more nodes",
        assumptions: &["for more than 150 nodes the reference is Kosaraju's algorithm, below that reachability by definition"],
        quick: 250_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_graph_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let g = graph(&c.g, I::max_us(), false);
    let want = strong(&g);
    let a = g.csr::<I, T>();
    op("connected_components strong");
    let (n, l) = okay(connected_components(&a, true, Connection::Strong), "strong components")?;
    same_partition(&l, n, &want, "strong components")?;
    let mut cov = Cov::default();
    if let Some(b) = skewed::<I, T>(&c.g, &g) {
        op("connected_components of a non-square matrix");
        ensure(connected_components(&b, true, Connection::Strong).is_err(), || format!("a {}x{} matrix was accepted", b.rows(), b.cols()))?;
        cov = cov.class("non-square rejected");
    }
    op("");
    let mut size: std::collections::HashMap<usize, usize> = Default::default();
    want.iter().for_each(|&w| *size.entry(w).or_default() += 1);
    cov.nontrivial = size.len() >= 2 && size.values().any(|&s| s >= 2);
    let cov = cov
        .class_if(size.len() == 1, "one component")
        .class_if(size.len() == g.n && g.n > 1, "all singletons")
        .class_if(size.values().filter(|&&s| s >= 2).count() >= 2, "two or more components of 2 or more nodes");
    Ok(g.classes(cov).class(format!("index type {}", I::NAME)))
}
