//! Component labelling of symmetric graphs is exact.
use crate::graphs::*;
use crate::prelude::*;
use crate::with_graph_types;
use num_traits::Signed;
use sparsetools::graph::cs_graph_components;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    label: u8,
    stale: i8,
    g: GraphSpec,
}
fn strategy() -> BoxedStrategy<Case> {
    (prop_oneof![1 => Just(0u8), 2 => 0u8..8], 0u8..6, -3i8..10, graph_spec()).prop_map(|(ty, label, stale, g)| Case { ty, label, stale, g }).boxed()
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C19",
        rule: "random and structured graphs made symmetric, relabelled nodes, isolated nodes, self-loops, edges in random storage order with duplicates, mostly small, up to 3000 and rarely beyond 65536 nodes; every signed label type; stale label buffers; non-square variants; non-trivial: at least 2 components, one of them of 2 or more nodes",
        assumptions: &["the component count fits the label type"],
        quick: 200_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_graph_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let g = graph(&c.g, I::max_us(), true);
    // components numbered by their smallest node; -2: empty row
    let part = weak(&g);
    let mut busy_row = vec![false; g.n];
    g.e.iter().for_each(|x| busy_row[x.0] = true);
    let mut ids: std::collections::HashMap<usize, i64> = Default::default();
    let want: Vec<i64> = (0..g.n)
        .map(|i| {
            if !busy_row[i] {
                return -2;
            }
            let k = ids.len() as i64;
            *ids.entry(part[i]).or_insert(k)
        })
        .collect();
    let n = ids.len();
    let mut sizes = vec![0usize; n];
    want.iter().filter(|w| **w >= 0).for_each(|&w| sizes[w as usize] += 1);
    let label = if n > 128 && c.label % 6 == 0 { 2 } else { c.label };
    let r = match label % 6 {
        0 => labelled::<I, T, i8>(c, &g, n, &want),
        1 => labelled::<I, T, i16>(c, &g, n, &want),
        2 => labelled::<I, T, i32>(c, &g, n, &want),
        3 => labelled::<I, T, i64>(c, &g, n, &want),
        4 => labelled::<I, T, i128>(c, &g, n, &want),
        _ => labelled::<I, T, isize>(c, &g, n, &want),
    };
    let cov = r?;
    let cov = Cov { nontrivial: n >= 2 && sizes.iter().any(|&s| s >= 2), ..cov }
        .class_if(want.contains(&-2), "some row empty")
        .class_if(n == 0 && g.n > 0, "every row empty");
    Ok(g.classes(cov).class(format!("index type {}", I::NAME)))
}
fn labelled<I: Ix, T: Ts, F: Ix + Signed>(c: &Case, g: &Graph, n: usize, want: &[i64]) -> Check {
    let same = |k: I, f: &[F], what: &str| -> Result<(), String> {
        ensure(k.us() == Some(n), || format!("{what}: {k} components, expected {n}; labels {}", short(f)))?;
        ensure(f.len() == want.len(), || format!("{what}: {} labels for {} nodes", f.len(), want.len()))?;
        for i in 0..f.len() {
            ensure(f[i].to_i64() == Some(want[i]), || format!("{what}: label of node {i} is {}, expected {}", f[i], want[i]))?;
        }
        Ok(())
    };
    let a = g.csr::<I, T>();
    op("CSR::connected_components");
    let (k, f) = okay(a.connected_components::<F>(), "CSR::connected_components")?;
    same(k, &f, "CSR::connected_components")?;
    let mut f = vec![<F as num_traits::NumCast>::from(c.stale).unwrap(); g.n];
    op("cs_graph_components");
    let k = okay(cs_graph_components::<I, T, F>(g.n, a.rowptr(), a.colidx(), &mut f), "cs_graph_components")?;
    same(k, &f, "cs_graph_components")?;
    let mut cov = Cov::default().class(format!("label type {}", F::NAME));
    if let Some(b) = skewed::<I, T>(&c.g, g) {
        op("CSR::connected_components of a non-square matrix");
        ensure(b.connected_components::<F>().is_err(), || format!("a {}x{} matrix was accepted", b.rows(), b.cols()))?;
        cov = cov.class("non-square rejected");
    }
    op("");
    Ok(cov)
}
