//! Undirected and weak components are the true partition.
use crate::graphs::*;
use crate::prelude::*;
use crate::with_graph_types;
use sparsetools::graph::{connected_components, Connection};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    g: GraphSpec,
}
fn strategy() -> BoxedStrategy<Case> {
    (prop_oneof![1 => Just(0u8), 2 => 0u8..8], graph_spec()).prop_map(|(ty, g)| Case { ty, g }).boxed()
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C16",
        rule: "random and structured graphs (paths, cycles, chains of cycles, trees, stars, blocks, complete, self-loops) with random extra edges, relabelled nodes, edges in random storage order, duplicates and edges stored as zero, mostly small, up to 3000 and rarely beyond 65536 nodes; non-square variants; non-trivial: at least 3 nodes, 2 edges and 2 components, or a component of 4 or more nodes",
        assumptions: &[],
        quick: 240_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_graph_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let g = graph(&c.g, I::max_us(), false);
    let want = weak(&g);
    let a = g.csr::<I, T>();
    let modes = [(false, Connection::Weak, "undirected (weak)"), (false, Connection::Strong, "undirected (strong)"), (true, Connection::Weak, "directed, weak")];
    for (d, conn, name) in modes {
        op("connected_components undirected/weak");
        let (n, l) = okay(connected_components(&a, d, conn), name)?;
        same_partition(&l, n, &want, name)?;
    }
    let mut cov = Cov::default();
    if let Some(b) = skewed::<I, T>(&c.g, &g) {
        for (d, conn, name) in modes {
            op("connected_components of a non-square matrix");
            ensure(connected_components(&b, d, conn).is_err(), || format!("{name}: a {}x{} matrix was accepted", b.rows(), b.cols()))?;
        }
        cov = cov.class("non-square rejected");
    }
    op("");
    let mut size: std::collections::HashMap<usize, usize> = Default::default();
    want.iter().for_each(|&w| *size.entry(w).or_default() += 1);
    cov.nontrivial = g.n >= 3 && g.e.len() >= 2 && (size.len() >= 2 || size.values().any(|&s| s >= 4));
    let cov = cov.class_if(size.len() == 1, "one component").class_if(size.len() == g.n && g.n > 1, "all singletons");
    Ok(g.classes(cov).class(format!("index type {}", I::NAME)))
}
