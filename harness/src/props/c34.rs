//! Kernels act on what the counts and pointers delimit, wherever that lies in longer arrays.
use crate::prelude::*;
use crate::with_ord_types;
use crate::with_types;
use sparsetools::graph::cs_graph_components;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    b: EntSpec,
    rel: u8,
    /// 0 spare room, 1 room left by merging in place, 2 leading rows of the matrix, 3 room left by dropping zeros
    mode: u8,
    lead: u16,
    room: [u8; 4],
    /// what the spare room holds
    fill: u16,
    idx: Vec<u16>,
    knob: u16,
    vecs: u8,
    ordered: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    let profs = [TINY, SMALL, MEDIUM, LIMIT, LARGE, DICT];
    over_profiles(&profs, |p| {
        (
            (ty(), exp(), mat_spec(p, false), ent_spec(p.nmin, p.nmax, false), rel()),
            (0u8..4, any::<u16>(), prop::array::uniform4(prop_oneof![1 => Just(0u8), 4 => 1u8..6, 1 => 1u8..60]), any::<u16>()),
            (prop::collection::vec(any::<u16>(), 0..8), any::<u16>(), 1u8..4, any::<bool>()),
        )
            .prop_map(|((ty, exp, a, b, rel), (mode, lead, room, fill), (idx, knob, vecs, ordered))| Case {
                ty, exp, a, b, rel, mode, lead, room, fill, idx, knob, vecs, ordered,
            })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C34",
        rule: "random compressed and triplet arrays as they are, and the same data at the front of longer arrays (spare room with arbitrary content, what an in-place merge or elimination left behind, or the following rows of a larger matrix) with longer, stale output arrays; every array-level kernel on both, results compared element by element; in-place kernels must leave the room behind the entries alone; non-trivial: at least 2 rows, 2 columns, 2 stored entries and some spare room",
        assumptions: &[
            "output arrays of accumulating kernels start with equal content in the part that is computed",
            "where an in-place kernel shortens the data, the room it frees may hold anything",
            "values are generated so that both runs meet the same scalar operations",
        ],
        quick: 300_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    if c.ordered {
        with_ord_types!(c.ty, go_ord, c)
    } else {
        with_types!(c.ty, go, c)
    }
}

#[derive(Clone)]
struct Arr<I, T> {
    p: Vec<I>,
    j: Vec<I>,
    x: Vec<T>,
}
/// One variant of the arguments: exact, or with room.
struct Var<I, T> {
    nr: usize,
    nc: usize,
    a: Arr<I, T>,
    b: Arr<I, T>,
    /// triplet form of `a`
    t: Arr<I, T>,
    /// right operand of a product
    m: Arr<I, T>,
    /// symmetric graph
    g: Arr<I, T>,
    /// spare output elements (0: exact, clean)
    spare: usize,
}
fn ki<I: Ix>(v: &[I]) -> Vec<u128> {
    v.iter().map(|i| i.to_i128().unwrap() as u128).collect()
}
fn kt<T: Ts>(v: &[T]) -> Vec<u128> {
    v.iter().flat_map(|x| x.key()).collect()
}
type Got = Vec<(&'static str, Vec<u128>)>;

impl<I: Ix, T: Ts> Var<I, T> {
    fn oi(&self, n: usize) -> Vec<I> {
        if self.spare > 0 { junk_i(n + self.spare) } else { vec![I::zero(); n] }
    }
    fn ot(&self, n: usize) -> Vec<T> {
        if self.spare > 0 { junk(n + self.spare) } else { vec![T::zero(); n] }
    }
    /// `n` equal values, then room.
    fn vt(&self, n: usize, knob: u16) -> Vec<T> {
        let mut v = filler::<T>(n, knob, 0);
        v.extend(junk::<T>(self.spare));
        v
    }
}
impl<I: Ix, T: Ts> Var<I, T> {
    /// The room behind `n` elements of an output array made by `oi` or `ot`.
    fn room_i(&self, what: &str, a: &[I], n: usize) -> Result<(), String> {
        ensure(self.spare == 0 || a[n..] == junk_i::<I>(a.len())[n..], || format!("{what}: wrote behind the indices"))
    }
    fn room_t(&self, what: &str, a: &[T], n: usize) -> Result<(), String> {
        ensure(self.spare == 0 || kt(&a[n..]) == kt(&junk::<T>(a.len())[n..]), || format!("{what}: wrote behind the values"))
    }
}
fn nnz<I: Ix>(p: &[I], n: usize) -> usize {
    p[n].us().expect("pointer")
}
fn pjx<I: Ix, T: Ts>(out: &mut Got, name: &'static str, n: usize, p: &[I], j: &[I], x: &[T]) {
    let mut v = ki(&p[..n + 1]);
    let k = nnz(p, n);
    v.extend(ki(&j[..k]));
    v.extend(kt(&x[..k]));
    out.push((name, v));
}

fn single<I: Ix, T: Ts>(c: &Case, v: &Var<I, T>) -> Result<Got, String> {
    let mut out: Got = vec![];
    let (nr, nc) = (v.nr, v.nc);
    let (p, j, x) = (&v.a.p[..], &v.a.j[..], &v.a.x[..]);
    let n = nnz(p, nr);
    let tail = |what: &str, p2: &[I], j2: &[I], x2: &[T]| -> Result<(), String> {
        ensure(p2[nr + 1..] == p[nr + 1..], || format!("{what}: changed what lies behind the pointers"))?;
        ensure(j2[n..] == j[n..], || format!("{what}: changed what lies behind the indices"))?;
        ensure(kt(&x2[n..]) == kt(&x[n..]), || format!("{what}: changed what lies behind the values"))
    };

    op("csr_sort_indices");
    let mut w = v.a.clone();
    csr_sort_indices(nr, p, &mut w.j, &mut w.x);
    pjx(&mut out, "csr_sort_indices", nr, p, &w.j, &w.x);
    tail("csr_sort_indices", p, &w.j, &w.x)?;
    op("csr_sum_duplicates");
    let mut w = v.a.clone();
    csr_sum_duplicates(nr, nc, &mut w.p, &mut w.j, &mut w.x);
    pjx(&mut out, "csr_sum_duplicates", nr, &w.p, &w.j, &w.x);
    tail("csr_sum_duplicates", &w.p, &w.j, &w.x)?;
    op("csr_eliminate_zeros");
    let mut w = v.a.clone();
    csr_eliminate_zeros(nr, nc, &mut w.p, &mut w.j, &mut w.x);
    pjx(&mut out, "csr_eliminate_zeros", nr, &w.p, &w.j, &w.x);
    tail("csr_eliminate_zeros", &w.p, &w.j, &w.x)?;
    op("csr_scale_rows");
    let mut w = v.a.clone();
    csr_scale_rows(nr, nc, p, j, &mut w.x, &v.vt(nr, c.knob));
    pjx(&mut out, "csr_scale_rows", nr, p, j, &w.x);
    tail("csr_scale_rows", p, j, &w.x)?;
    op("csr_scale_columns");
    let mut w = v.a.clone();
    csr_scale_columns(nr, nc, p, j, &mut w.x, &v.vt(nc, c.knob));
    pjx(&mut out, "csr_scale_columns", nr, p, j, &w.x);
    tail("csr_scale_columns", p, j, &w.x)?;

    op("csr_has_sorted_indices");
    out.push(("csr_has_sorted_indices", vec![csr_has_sorted_indices(nr, p, j) as u128]));
    op("csr_has_canonical_format");
    out.push(("csr_has_canonical_format", vec![csr_has_canonical_format(nr, p, j) as u128]));
    op("csr_count_diagonals");
    out.push(("csr_count_diagonals", vec![csr_count_diagonals(nr, p, j) as u128]));
    for k in [0isize, 1, -1, c.lead as isize % 50, -(c.lead as isize % 50)] {
        let len = |r: usize, c: usize, k: isize| if k >= 0 { r.min(c.saturating_sub(k as usize)) } else { c.min(r.saturating_sub(k.unsigned_abs())) };
        op("csr_diagonal");
        let mut y = v.ot(len(nr, nc, k));
        csr_diagonal(k, nr, nc, p, j, x, &mut y);
        out.push(("csr_diagonal", kt(&y[..len(nr, nc, k)])));
        op("csc_diagonal");
        let mut y = v.ot(len(nc, nr, k));
        csc_diagonal(k, nc, nr, p, j, x, &mut y);
        out.push(("csc_diagonal", kt(&y[..len(nc, nr, k)])));
    }
    op("expandptr");
    let mut y = v.oi(n);
    expandptr(nr, p, &mut y);
    out.push(("expandptr", ki(&y[..n])));
    v.room_i("expandptr", &y, n)?;
    op("csr_tocoo");
    let (mut oi, mut oj, mut ox) = (v.oi(n), v.oi(n), v.ot(n));
    csr_tocoo(nr, nc, p, j, x, &mut oi, &mut oj, &mut ox);
    let mut got = ki(&oi[..n]);
    got.extend(ki(&oj[..n]));
    got.extend(kt(&ox[..n]));
    out.push(("csr_tocoo", got));
    v.room_i("csr_tocoo", &oi, n)?;
    v.room_i("csr_tocoo", &oj, n)?;
    v.room_t("csr_tocoo", &ox, n)?;
    op("csr_tocsc");
    let (mut op_, mut oj, mut ox) = (v.oi(nc + 1), v.oi(n), v.ot(n));
    csr_tocsc(nr, nc, p, j, x, &mut op_, &mut oj, &mut ox);
    pjx(&mut out, "csr_tocsc", nc, &op_, &oj, &ox);
    v.room_i("csr_tocsc", &oj, n)?;
    v.room_t("csr_tocsc", &ox, n)?;
    op("csc_tocsr");
    let (mut op_, mut oj, mut ox) = (v.oi(nc + 1), v.oi(n), v.ot(n));
    csc_tocsr(nc, nr, p, j, x, &mut op_, &mut oj, &mut ox);
    pjx(&mut out, "csc_tocsr", nc, &op_, &oj, &ox);
    v.room_i("csc_tocsr", &oj, n)?;
    v.room_t("csc_tocsr", &ox, n)?;
    if nr * nc <= 5000 {
        op("csr_todense");
        let mut d = vec![vec![T::zero(); nc]; nr];
        csr_todense(nr, nc, p, j, x, &mut d);
        out.push(("csr_todense", d.iter().flat_map(|r| kt(r)).collect()));
    }
    op("csr_matvec");
    let mut y = v.vt(nr, c.knob ^ 1);
    csr_matvec(nr, nc, p, j, x, &v.vt(nc, c.knob ^ 2), &mut y);
    out.push(("csr_matvec", kt(&y[..nr])));
    ensure(kt(&y[nr..]) == kt(&junk::<T>(v.spare)), || "csr_matvec: wrote behind the result".into())?;
    op("csc_matvec");
    let mut y = v.vt(nc, c.knob ^ 1);
    csc_matvec(nc, nr, p, j, x, &v.vt(nr, c.knob ^ 2), &mut y);
    out.push(("csc_matvec", kt(&y[..nc])));
    ensure(kt(&y[nc..]) == kt(&junk::<T>(v.spare)), || "csc_matvec: wrote behind the result".into())?;
    let k = c.vecs as usize;
    op("csr_matvecs");
    let mut y = v.vt(nr * k, c.knob ^ 1);
    csr_matvecs(nr, nc, k, p, j, x, &v.vt(nc * k, c.knob ^ 2), &mut y);
    out.push(("csr_matvecs", kt(&y[..nr * k])));
    ensure(kt(&y[nr * k..]) == kt(&junk::<T>(v.spare)), || "csr_matvecs: wrote behind the result".into())?;
    op("csc_matvecs");
    let mut y = v.vt(nc * k, c.knob ^ 1);
    csc_matvecs(nc, nr, k, p, j, x, &v.vt(nr * k, c.knob ^ 2), &mut y);
    out.push(("csc_matvecs", kt(&y[..nc * k])));
    ensure(kt(&y[nc * k..]) == kt(&junk::<T>(v.spare)), || "csc_matvecs: wrote behind the result".into())?;

    // selection and slicing
    let cap = I::max_us();
    let len = |r: usize| nnz(p, r + 1) - nnz(p, r);
    let mut rows: Vec<usize> = if nr == 0 { vec![] } else { c.idx.iter().map(|&i| i as usize % nr).collect() };
    while rows.iter().map(|&r| len(r)).sum::<usize>() > cap {
        rows.pop();
    }
    let cols: Vec<usize> = if nc == 0 { vec![] } else { c.idx.iter().rev().map(|&i| i as usize % nc).collect() };
    if rows.len() * cols.len() <= cap {
        op("csr_select");
        let (mut op_, mut oj, mut ox) = (v.oi(0), v.oi(0), v.ot(0));
        let (ri, ci): (Vec<I>, Vec<I>) = (rows.iter().map(|&r| I::of(r)).collect(), cols.iter().map(|&r| I::of(r)).collect());
        csr_select(nr, nc, p, j, x, &ri, &ci, &mut op_, &mut oj, &mut ox);
        ensure(op_.len() == ri.len() + 1 && oj.len() == nnz(&op_, ri.len()) && ox.len() == oj.len(), || "csr_select: lengths of the result".into())?;
        // where a position repeats in the source, which entry is taken is not part of this property
        let canonical = {
            let mut s = std::collections::HashSet::new();
            rows.iter().collect::<std::collections::BTreeSet<_>>().iter().all(|&&r| (nnz(p, r)..nnz(p, r + 1)).all(|k| s.insert((r, j[k].us()))))
        };
        if canonical {
            pjx(&mut out, "csr_select", ri.len(), &op_, &oj, &ox);
        }
    }
    op("csr_row_index");
    let (mut oj, mut ox) = (vec![], vec![]);
    let mut list = rows.clone();
    if v.spare > 0 {
        list.extend(rows.first().copied());
    }
    csr_row_index(rows.len(), &list, p, j, x, &mut oj, &mut ox);
    let mut got = ki(&oj);
    got.extend(kt(&ox));
    out.push(("csr_row_index", got));
    op("csr_row_slice");
    let (mut oj, mut ox) = (vec![], vec![]);
    csr_row_slice((c.knob as usize) % (nr + 1), nr, 1 + c.lead as usize % 3, p, j, x, &mut oj, &mut ox);
    let mut got = ki(&oj);
    got.extend(kt(&ox));
    out.push(("csr_row_slice", got));
    let (r0, c0) = (c.lead as usize % (nr + 1), c.knob as usize % (nc + 1));
    op("get_csr_submatrix");
    let (mut op_, mut oj, mut ox) = (v.oi(0), v.oi(0), v.ot(0));
    get_csr_submatrix(nr, nc, p, j, x, I::of(r0), I::of(nr), I::of(c0), I::of(nc), &mut op_, &mut oj, &mut ox);
    pjx(&mut out, "get_csr_submatrix", nr - r0, &op_, &oj, &ox);
    let mut list = cols.clone();
    let mut per = vec![0usize; nc];
    j[..n].iter().for_each(|i| per[i.us().unwrap()] += 1);
    list.truncate(cap);
    while list.iter().map(|&i| per[i]).sum::<usize>() > cap {
        list.pop();
    }
    op("csr_column_index");
    let mut offs = vec![I::zero(); nc];
    offs.extend(junk_i::<I>(v.spare));
    let mut op_ = v.oi(nr + 1);
    let want = list.len();
    let mut order: Vec<usize> = (0..want).collect();
    order.sort_by_key(|&k| list[k]);
    let mut order: Vec<I> = order.into_iter().map(I::of).collect();
    if v.spare > 0 && nc > 0 {
        list.push(0);
        order.push(I::zero());
    }
    csr_column_index1(want, &list, nr, nc, p, j, &mut offs, &mut op_);
    let k = nnz(&op_, nr);
    let (mut oj, mut ox) = (v.oi(k), v.ot(k));
    csr_column_index2(&order, &offs, n, j, x, &mut oj, &mut ox);
    pjx(&mut out, "csr_column_index", nr, &op_, &oj, &ox);

    // products
    op("csr_matmat_maxnnz");
    let k = csr_matmat_maxnnz(nr, nr, p, j, &v.m.p, &v.m.j);
    out.push(("csr_matmat_maxnnz", vec![k as u128]));
    if k <= cap {
        op("csr_matmat");
        let (mut op_, mut oj, mut ox) = (v.oi(nr + 1), v.oi(k), v.ot(k));
        csr_matmat(nr, nr, p, j, x, &v.m.p, &v.m.j, &v.m.x, &mut op_, &mut oj, &mut ox);
        pjx(&mut out, "csr_matmat", nr, &op_, &oj, &ox);
    }
    // as columns: (B A) with A's arrays compressed by column
    op("csc_matmat_maxnnz");
    let k = csc_matmat_maxnnz(nr, nr, &v.m.p, &v.m.j, p, j);
    out.push(("csc_matmat_maxnnz", vec![k as u128]));
    if k <= cap {
        op("csc_matmat");
        let (mut op_, mut oj, mut ox) = (v.oi(nr + 1), v.oi(k), v.ot(k));
        csc_matmat(nr, nr, &v.m.p, &v.m.j, &v.m.x, p, j, x, &mut op_, &mut oj, &mut ox);
        pjx(&mut out, "csc_matmat", nr, &op_, &oj, &ox);
    }

    // triplets
    let (ti, tj, tx) = (&v.t.p[..], &v.t.j[..], &v.t.x[..]);
    op("coo_tocsr");
    let (mut op_, mut oj, mut ox) = (v.oi(nr + 1), v.oi(n), v.ot(n));
    coo_tocsr(nr, nc, n, ti, tj, tx, &mut op_, &mut oj, &mut ox);
    pjx(&mut out, "coo_tocsr", nr, &op_, &oj, &ox);
    v.room_i("coo_tocsr", &oj, n)?;
    v.room_t("coo_tocsr", &ox, n)?;
    op("coo_matvec");
    let mut y = v.vt(nr, c.knob ^ 1);
    coo_matvec(n, ti, tj, tx, &v.vt(nc, c.knob ^ 2), &mut y);
    out.push(("coo_matvec", kt(&y[..nr])));
    if nr * nc <= 5000 {
        for f in [false, true] {
            op("coo_todense");
            let mut d = v.vt(nr * nc, c.knob ^ 3);
            coo_todense(nr, nc, n, ti, tj, tx, &mut d, f);
            out.push(("coo_todense", kt(&d[..nr * nc])));
            ensure(kt(&d[nr * nc..]) == kt(&junk::<T>(v.spare)), || "coo_todense: wrote behind the result".into())?;
        }
    }

    // symmetric graph
    op("cs_graph_components");
    let mut flag = vec![if v.spare > 0 { 77i64 } else { -1 }; nr + v.spare];
    let k = okay(cs_graph_components::<I, T, i64>(nr, &v.g.p, &v.g.j, &mut flag), "cs_graph_components")?;
    let mut got: Vec<u128> = flag[..nr].iter().map(|&f| f as i128 as u128).collect();
    got.push(k.to_u128().unwrap());
    out.push(("cs_graph_components", got));
    ensure(flag[nr..].iter().all(|&f| f == 77), || "cs_graph_components: wrote behind the flags".into())?;
    Ok(out)
}

macro_rules! bin {
    ($out:expr, $v:expr, $R:ty, $stale:expr, $key:expr, $($k:ident),*) => {$({
        let v = $v;
        op(stringify!($k));
        let cap = nnz(&v.a.p, v.nr) + nnz(&v.b.p, v.nr);
        let (mut cp, mut cj) = (v.oi(v.nr + 1), v.oi(cap));
        let mut cx: Vec<$R> = vec![$stale; cap + v.spare];
        $k(v.nr, v.nc, &v.a.p, &v.a.j, &v.a.x, &v.b.p, &v.b.j, &v.b.x, &mut cp, &mut cj, &mut cx);
        let n = nnz(&cp, v.nr);
        let mut got = ki(&cp[..v.nr + 1]);
        got.extend(ki(&cj[..n]));
        got.extend($key(&cx[..n]));
        $out.push((stringify!($k), got));
    })*};
}
fn kb(v: &[bool]) -> Vec<u128> {
    v.iter().map(|&b| b as u128).collect()
}
fn build<I: Ix, T: Ts>(c: &Case) -> (Ent<T>, Var<I, T>, Var<I, T>) {
    let cap = I::max_us();
    let (mut ea, eb) = pair::<I, T>(&c.a, &c.b, c.rel, c.exp as i32);
    // room needs indices within the type; entries may fill it up
    let nc = ea.cols;
    let arr = |r: Raw<I, T>| Arr { p: r.p, j: r.j, x: r.x };
    let mut a = arr(ea.raw_csr::<I>());
    let mut b = arr(eb.raw_csr::<I>());
    let mut nr = ea.rows;
    match c.mode {
        1 => {
            csr_sum_duplicates(nr, nc, &mut a.p, &mut a.j, &mut a.x);
            csr_sum_duplicates(nr, nc, &mut b.p, &mut b.j, &mut b.x);
        }
        2 => nr = spread(c.lead, nr + 1),
        3 => {
            for (k, x) in a.x.iter_mut().chain(b.x.iter_mut()).enumerate() {
                if (k as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) >> 62 == 0 {
                    *x = T::zero();
                }
            }
            csr_eliminate_zeros(nr, nc, &mut a.p, &mut a.j, &mut a.x);
            csr_eliminate_zeros(nr, nc, &mut b.p, &mut b.j, &mut b.x);
        }
        _ => {}
    }
    let cut = |a: &Arr<I, T>| {
        let n = nnz(&a.p, nr);
        Arr { p: a.p[..nr + 1].to_vec(), j: a.j[..n].to_vec(), x: a.x[..n].to_vec() }
    };
    let (xa, xb) = (cut(&a), cut(&b));
    let n = xa.j.len();
    // entries as they are now
    ea.rows = nr;
    ea.t = read_compressed("source", nr, nc, n, &xa.p, &xa.j, &xa.x).expect("valid");
    let t = Arr { p: ea.t.iter().map(|t| I::of(t.0)).collect::<Vec<I>>(), j: xa.j.clone(), x: xa.x.clone() };
    // right operand: columns of `a` by rows of `a`, mirrored entries in part
    let mut em = Ent { rows: nc, cols: nr, layout: 0, t: ea.t.iter().enumerate().filter(|k| k.0 % 3 != 1).map(|(_, t)| (t.1, t.0, t.2)).collect::<Vec<_>>() };
    em.t.truncate(40);
    let m = arr(em.raw_csr::<I>());
    let mut eg = Ent { rows: nr, cols: nr, layout: 0, t: vec![] };
    for t in ea.t.iter().filter(|t| t.1 < nr).take(cap / 2) {
        eg.t.push(*t);
        eg.t.push((t.1, t.0, t.2));
    }
    let g = arr(eg.raw_csr::<I>());

    // with room
    let room = |a: &Arr<I, T>, keep: bool, major: usize, limit: usize| -> Arr<I, T> {
        let mut a = a.clone();
        if c.mode == 2 && keep {
            return a;
        }
        for k in 0..c.room[0] {
            a.p.push(if k as u16 % 2 == c.fill % 2 { I::zero() } else { I::of(c.fill as usize % (limit + 1)) });
        }
        let _ = major;
        for k in 0..c.room[1] as usize {
            // indices in range and out of it
            let i = if c.fill % 3 == 0 { cap } else { (c.fill as usize + k) % nc.max(1) };
            a.j.push(I::of(i.min(cap)));
        }
        for k in 0..c.room[2] {
            a.x.push(T::mk(c.fill as i16 % 100, k as i16, 0));
        }
        a
    };
    let wide = Var {
        nr,
        nc,
        a: room(&a, true, nr, n),
        b: room(&b, true, nr, n),
        t: room(&t, false, nr, n),
        m: room(&m, false, nc, m.j.len()),
        g: room(&g, false, nr, g.j.len()),
        spare: c.room[3] as usize,
    };
    let tight = Var { nr, nc, a: xa, b: xb, t, m, g, spare: 0 };
    (ea, tight, wide)
}
fn same(x: Got, y: Got) -> Result<(), String> {
    ensure(x.len() == y.len(), || "the two runs differ in their steps".into())?;
    for (a, b) in x.into_iter().zip(y) {
        ensure(a == b, || format!("{}: with room around the data {:?}, without {:?}", a.0, short(&b.1), short(&a.1)))?;
    }
    Ok(())
}
fn finish<T: Ts>(c: &Case, e: &Ent<T>, slack: bool) -> Check {
    op("");
    let cov = Cov::new(busy(e) && slack).class(["spare room", "left by merging", "leading rows", "left by dropping zeros"][c.mode as usize % 4]);
    Ok(mat_classes(cov, c.ty, e))
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let (e, tight, wide) = build::<I, T>(c);
    let run = |v: &Var<I, T>| -> Result<Got, String> {
        let mut out = single(c, v)?;
        bin!(out, v, bool, true, kb, csr_ne_csr, csr_eq_csr);
        bin!(out, v, T, T::one(), kt, csr_add_csr, csr_mul_csr);
        if T::SIGNED {
            bin!(out, v, T, T::one(), kt, csr_sub_csr);
        }
        Ok(out)
    };
    same(run(&tight)?, run(&wide)?)?;
    finish(c, &e, wide.a.j.len() > tight.a.j.len())
}
fn go_ord<I: Ix, T: Ts + PartialOrd>(c: &Case) -> Check {
    let (e, tight, wide) = build::<I, T>(c);
    let run = |v: &Var<I, T>| -> Result<Got, String> {
        let mut out = single(c, v)?;
        bin!(out, v, bool, true, kb, csr_lt_csr, csr_le_csr, csr_gt_csr, csr_ge_csr);
        bin!(out, v, T, T::one(), kt, csr_max_csr, csr_min_csr);
        Ok(out)
    };
    same(run(&tight)?, run(&wide)?)?;
    finish(c, &e, wide.a.j.len() > tight.a.j.len())
}
