//! Slicing kernels extract exactly the requested part.
use crate::prelude::*;
use crate::with_types;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    range: [u16; 4],
    idx: Vec<u16>,
    slice: (u16, u16, u64),
    stale: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (
            ty(), exp(), mat_spec(p, false), any::<[u16; 4]>(),
            raw_list(),
            (any::<u16>(), any::<u16>(), prop_oneof![4 => 1u64..4, 2 => 1u64..50, 1 => any::<u64>(), 1 => Just(u64::MAX)]),
            any::<bool>(),
        )
            .prop_map(|(ty, exp, a, range, idx, slice, stale)| Case { ty, exp, a, range, idx, slice, stale })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C11",
        rule: "random matrix in random storage order with duplicates and zeros; half-open row and column ranges inside the shape (empty and complete included), index lists with repeats, start/stop/positive step; non-trivial: at least 2 rows, 2 columns and 2 stored entries, and a part that is neither empty nor everything",
        assumptions: &["list lengths and result entry counts fit the index type"],
        quick: 160_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn span(a: u16, b: u16, n: usize) -> (usize, usize) {
    let (x, y) = (spread(a, n + 1), spread(b, n + 1));
    (x.min(y), x.max(y))
}
type Line<T> = Vec<(usize, T)>;
fn lines<T: Ts>(want: &[Line<T>]) -> Vec<(usize, usize, T)> {
    want.iter().enumerate().flat_map(|(i, l)| l.iter().map(move |&(j, v)| (i, j, v))).collect()
}
/// Index and value arrays of concatenated rows.
fn flat<I: Ix, T: Ts>(j: &[I], x: &[T], want: &[Line<T>], what: &str) -> Result<(), String> {
    let w: Vec<(usize, T)> = want.iter().flatten().copied().collect();
    ensure(j.len() == w.len() && x.len() == w.len(), || format!("{what}: {} indices and {} values, expected {}", j.len(), x.len(), w.len()))?;
    for k in 0..w.len() {
        ensure(j[k].us() == Some(w[k].0) && x[k].same(w[k].1), || {
            format!("{what}: entry {k} is ({}, {:?}), expected {:?}", j[k], x[k], w[k])
        })?;
    }
    Ok(())
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    let r = e.raw_csr::<I>();
    let (nr, nc, nnz) = (e.rows, e.cols, e.t.len());
    let mut rows: Vec<Line<T>> = vec![vec![]; nr];
    for (i, j, v) in read_compressed("source", nr, nc, nnz, &r.p, &r.j, &r.x)? {
        rows[i].push((j, v));
    }
    let cap = I::max_us();

    // sub-matrix
    let (r0, r1) = span(c.range[0], c.range[1], nr);
    let (c0, c1) = span(c.range[2], c.range[3], nc);
    let want: Vec<Line<T>> = rows[r0..r1]
        .iter()
        .map(|l| l.iter().filter(|x| x.0 >= c0 && x.0 < c1).map(|&(j, v)| (j - c0, v)).collect())
        .collect();
    let (mut bp, mut bj, mut bx): (Vec<I>, Vec<I>, Vec<T>) =
        if c.stale { (junk_i(3), junk_i(nnz + 3), junk(nnz + 3)) } else { (vec![], vec![], vec![]) };
    op("get_csr_submatrix");
    get_csr_submatrix(nr, nc, &r.p, &r.j, &r.x, I::of(r0), I::of(r1), I::of(c0), I::of(c1), &mut bp, &mut bj, &mut bx);
    let n = want.iter().map(|l| l.len()).sum();
    let got = read_compressed("get_csr_submatrix", r1 - r0, c1 - c0, n, &bp, &bj, &bx)?;
    same_seq(&got, &lines(&want), "get_csr_submatrix")?;
    let part = n > 0 && n < nnz;

    // rows by list
    let mut list: Vec<usize> = if nr == 0 { vec![] } else { c.idx.iter().map(|&x| spread(x, nr)).collect() };
    while list.iter().map(|&i| rows[i].len()).sum::<usize>() > cap {
        list.pop();
    }
    let want: Vec<Line<T>> = list.iter().map(|&i| rows[i].clone()).collect();
    let (mut bj, mut bx) = (vec![], vec![]);
    op("csr_row_index");
    csr_row_index(list.len(), &list, &r.p, &r.j, &r.x, &mut bj, &mut bx);
    flat(&bj, &bx, &want, "csr_row_index")?;

    // rows by slice; an empty range may start anywhere up to the row count
    let (s0, s1) = (spread(c.slice.0, nr + 1), spread(c.slice.1, nr + 1));
    let step = c.slice.2.max(1) as usize;
    let want: Vec<Line<T>> = (s0..s1).filter(|i| (i - s0) % step == 0).map(|i| rows[i].clone()).collect();
    let (mut bj, mut bx) = (vec![], vec![]);
    op("csr_row_slice");
    csr_row_slice(s0, s1, step, &r.p, &r.j, &r.x, &mut bj, &mut bx);
    flat(&bj, &bx, &want, "csr_row_slice")?;

    // columns by list, two passes
    let mut list: Vec<usize> = if nc == 0 { vec![] } else { c.idx.iter().map(|&x| spread(x, nc)).collect() };
    list.truncate(cap);
    let mut per = vec![0usize; nc];
    rows.iter().flatten().for_each(|x| per[x.0] += 1);
    while list.iter().map(|&j| per[j]).sum::<usize>() > cap {
        list.pop();
    }
    let mut order: Vec<usize> = (0..list.len()).collect();
    order.sort_by_key(|&k| list[k]); // stable
    let want: Vec<Line<T>> = rows
        .iter()
        .map(|l| l.iter().flat_map(|&(j, v)| list.iter().enumerate().filter(move |x| *x.1 == j).map(move |x| (x.0, v))).collect())
        .collect();
    let mut offs = vec![I::zero(); nc];
    let mut bp = junk_i::<I>(nr + 1);
    op("csr_column_index1");
    csr_column_index1(list.len(), &list, nr, nc, &r.p, &r.j, &mut offs, &mut bp);
    let n: usize = want.iter().map(|l| l.len()).sum();
    let (mut bj, mut bx) = (junk_i::<I>(n), junk::<T>(n));
    let order: Vec<I> = order.iter().map(|&k| I::of(k)).collect();
    op("csr_column_index2");
    csr_column_index2(&order, &offs, nnz, &r.j, &r.x, &mut bj, &mut bx);
    let got = read_compressed("csr_column_index", nr, list.len(), n, &bp, &bj, &bx)?;
    same_seq(&got, &lines(&want), "csr_column_index")?;
    op("");
    let cov = Cov::new(busy(&e) && part)
        .class_if(s1 > s0 && step > 1, "stepped row slice")
        .class_if(list.len() > nc, "more columns requested than there are")
        .class_if(r0 == r1 || c0 == c1, "empty range");
    Ok(mat_classes(cov, c.ty, &e))
}
