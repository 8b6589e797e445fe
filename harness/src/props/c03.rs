//! Canonicalisation keeps the matrix; predicates are exact.
use crate::prelude::*;
use crate::with_types;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    /// Swap two neighbouring stored entries / copy one index over its neighbour: near-sorted input.
    poke: Option<(u16, bool)>,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (ty(), exp(), mat_spec(p, false), prop::option::of((any::<u16>(), any::<bool>())))
            .prop_map(|(ty, exp, a, poke)| Case { ty, exp, a, poke })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C03",
        rule: "random compressed-row and compressed-column matrices in random storage order, with duplicates, explicit zeros and near-sorted disturbances; predicates, sorting and duplicate summing through methods and kernels; non-trivial: some row (column) stores at least 2 entries",
        assumptions: &["sums of duplicates are generated to be exact in the scalar type"],
        quick: 60_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}

fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    let mut multi = false;
    for by_row in [true, false] {
        let mut r = if by_row { e.raw_csr::<I>() } else { e.raw_csc::<I>() };
        if let (Some((k, copy)), true) = (c.poke, r.j.len() >= 2) {
            let k = k as usize % (r.j.len() - 1);
            if copy {
                r.j[k + 1] = r.j[k];
            } else {
                r.j.swap(k, k + 1);
            }
        }
        multi |= r.p.windows(2).any(|w| w[1].us().unwrap() - w[0].us().unwrap() >= 2);
        one(&r, by_row, &e)?;
    }
    let cov = Cov::new(multi).class_if(c.poke.is_some(), "disturbed order");
    Ok(mat_classes(cov, c.ty, &e))
}

type Line<T> = Vec<(usize, T)>;
fn lines<I: Ix, T: Ts>(n: usize, p: &[I], j: &[I], x: &[T]) -> Vec<Line<T>> {
    (0..n)
        .map(|i| (p[i].us().unwrap()..p[i + 1].us().unwrap()).map(|k| (j[k].us().unwrap(), x[k])).collect())
        .collect()
}
fn same_lines<T: Ts>(got: &[Line<T>], want: &[Line<T>], what: &str) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} rows, expected {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let ok = g.len() == w.len() && g.iter().zip(w).all(|(a, b)| a.0 == b.0 && a.1.same(b.1));
        ensure(ok, || format!("{what}: row/column {i} stores {}, expected {}", short(g), short(w)))?;
    }
    Ok(())
}

fn one<I: Ix, T: Ts>(r: &Raw<I, T>, by_row: bool, e: &Ent<T>) -> Result<(), String> {
    let n = r.n_major;
    let fmt = if by_row { "CSR" } else { "CSC" };
    let src = lines(n, &r.p, &r.j, &r.x);
    let want_sorted = src.iter().all(|l| l.windows(2).all(|w| w[0].0 <= w[1].0));
    let want_canon = src.iter().all(|l| l.windows(2).all(|w| w[0].0 < w[1].0));
    let sorted: Vec<Line<T>> = src
        .iter()
        .map(|l| {
            let mut l = l.clone();
            l.sort_by_key(|x| x.0);
            l
        })
        .collect();
    let summed: Vec<Line<T>> = sorted
        .iter()
        .map(|l| {
            let mut o: Line<T> = vec![];
            for &(j, v) in l {
                match o.last_mut() {
                    Some(t) if t.0 == j => t.1 = t.1 + v,
                    _ => o.push((j, v)),
                }
            }
            o
        })
        .collect();

    // kernels
    let pred = |p: &[I], j: &[I], ws: bool, wc: bool, what: &str| -> Result<(), String> {
        op("csr_has_sorted_indices");
        let g = csr_has_sorted_indices(n, p, j);
        ensure(g == ws, || format!("csr_has_sorted_indices is {g} {what}, expected {ws}"))?;
        op("csr_has_canonical_format");
        let g = csr_has_canonical_format(n, p, j);
        ensure(g == wc, || format!("csr_has_canonical_format is {g} {what}, expected {wc}"))
    };
    pred(&r.p, &r.j, want_sorted, want_canon, "on the source")?;
    let (mut p, mut j, mut x) = (r.p.clone(), r.j.clone(), r.x.clone());
    op("csr_sort_indices");
    csr_sort_indices(n, &p, &mut j, &mut x);
    same_lines(&lines(n, &p, &j, &x), &sorted, "csr_sort_indices")?;
    let dupfree = sorted.iter().all(|l| l.windows(2).all(|w| w[0].0 < w[1].0));
    pred(&p, &j, true, dupfree, "after sorting")?;
    op("csr_sort_indices");
    csr_sort_indices(n, &p, &mut j, &mut x);
    same_lines(&lines(n, &p, &j, &x), &sorted, "csr_sort_indices a second time")?;
    for round in ["csr_sum_duplicates", "csr_sum_duplicates a second time"] {
        op("csr_sum_duplicates");
        csr_sum_duplicates(n, r.n_minor, &mut p, &mut j, &mut x);
        let nnz = p[n].us().ok_or("csr_sum_duplicates: bad last pointer")?;
        ensure(nnz <= j.len(), || format!("{round}: last pointer {nnz} beyond the arrays"))?;
        read_compressed(round, n, r.n_minor, nnz, &p, &j[..nnz], &x[..nnz])?;
        same_lines(&lines(n, &p, &j, &x), &summed, round)?;
        pred(&p, &j, true, true, "after summing duplicates")?;
    }

    // methods
    macro_rules! methods {
        ($mk:expr, $ptr:ident, $idx:ident, $obs:ident, $sum:expr) => {{
            let preds = |m: &_, ws: bool, wc: bool, what: &str| -> Result<(), String> {
                let m: &_ = id(m, &$mk);
                op("has_sorted_indexes");
                let g = m.has_sorted_indexes();
                ensure(g == ws, || format!("{fmt}::has_sorted_indexes is {g} {what}, expected {ws}"))?;
                op("has_canonical_format");
                let g = m.has_canonical_format();
                ensure(g == wc, || format!("{fmt}::has_canonical_format is {g} {what}, expected {wc}"))
            };
            let mk = $mk;
            let mut m = mk();
            preds(&m, want_sorted, want_canon, "on the source")?;
            for round in ["sort_indexes", "sort_indexes a second time"] {
                op("sort_indexes");
                m.sort_indexes();
                $obs(&m, round)?;
                same_lines(&lines(n, m.$ptr(), m.$idx(), m.values()), &sorted, &format!("{fmt}::{round}"))?;
                preds(&m, true, dupfree, "after sorting")?;
            }
            for from_sorted in [true, false] {
                let mut m = if from_sorted { m_clone(&m, &mk) } else { mk() };
                if from_sorted {
                    m.sort_indexes();
                }
                for round in ["sum_duplicates", "sum_duplicates a second time"] {
                    op("sum_duplicates");
                    $sum(&mut m)?;
                    $obs(&m, round)?;
                    ensure((m.rows(), m.cols()) == (e.rows, e.cols), || format!("{fmt}::{round}: shape changed"))?;
                    same_lines(&lines(n, m.$ptr(), m.$idx(), m.values()), &summed, &format!("{fmt}::{round}"))?;
                    preds(&m, true, true, "after summing duplicates")?;
                }
            }
        }};
    }
    fn id<'a, M>(m: &'a M, _: &impl Fn() -> M) -> &'a M {
        m
    }
    fn m_clone<M>(_: &M, mk: &impl Fn() -> M) -> M {
        mk()
    }
    if by_row {
        methods!(
            || CSR::new(e.rows, e.cols, r.p.clone(), r.j.clone(), r.x.clone()).expect("valid"),
            rowptr, colidx, obs_csr,
            |m: &mut CSR<I, T>| okay(m.sum_duplicates(), "CSR::sum_duplicates")
        );
    } else {
        methods!(
            || CSC::new(e.rows, e.cols, r.j.clone(), r.p.clone(), r.x.clone()).expect("valid"),
            colptr, rowidx, obs_csc,
            |m: &mut CSC<I, T>| -> Result<(), String> { m.sum_duplicates(); Ok(()) }
        );
        // removing slack behind the entries changes nothing stored
        let (mut j, mut x) = (r.j.clone(), r.x.clone());
        j.extend([I::of(0), I::of(0)]);
        x.extend([T::one(), T::one()]);
        let mut m = okay(CSC::new(e.rows, e.cols, j, r.p.clone(), x), "CSC::new")?;
        op("CSC::prune");
        okay(m.prune(), "CSC::prune")?;
        obs_csc(&m, "CSC::prune")?;
        same_lines(&lines(n, m.colptr(), m.rowidx(), m.values()), &src, "CSC::prune")?;
    }
    op("");
    Ok(())
}
