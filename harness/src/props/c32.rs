//! Matrix algebra: laws between results, without a reference model.
use crate::prelude::*;
use crate::with_signed_types;
use sparsetools::get_csr_submatrix;
use std::ops::Neg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    a: MatSpec,
    b: EntSpec,
    b2: EntSpec,
    rel: u8,
    c_cols: u16,
    c: EntSpec,
    c2: EntSpec,
    d_cols: u16,
    d: EntSpec,
    s: (i16, i16),
    cut: (u16, u16),
    k: i16,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&[TINY, SMALL, Prof { w: 20, ..MEDIUM }, Prof { w: 4, ..LIMIT }, Prof { w: 2, ..LARGE }, HUGE, DICT], |p| {
        let e = || ent_spec(p.nmin, p.nmax, false);
        (
            (ty(), mat_spec(p, false), e(), e(), rel()),
            (dimension(p), e(), e(), dimension(p), e()),
            (val(false), any::<(u16, u16)>(), -5i16..6),
        )
            .prop_map(|((ty, a, b, b2, rel), (c_cols, c, c2, d_cols, d), (s, cut, k))| {
                let mut x = Case { ty, a, b, b2, rel, c_cols, c, c2, d_cols, d, s, cut, k };
                for e in [&mut x.a.e, &mut x.b, &mut x.b2, &mut x.c, &mut x.c2, &mut x.d] {
                    // chains of two products stay exact in every scalar type
                    e.ents.iter_mut().for_each(|v| {
                        v.2 %= 4;
                        v.3 %= 4;
                    });
                }
                x.s = (x.s.0 % 5, x.s.1 % 5);
                x
            })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C32",
        rule: "random matrices with small whole-number values in random storage order; both sides of every law are computed by the library and compared element by element (sums, differences, products, scaling, transposes, identity, vectors, splitting and reassembling, triangles); non-trivial: at least two of the matrices have 2 rows, 2 columns and 2 entries",
        assumptions: &["results and their intermediate entry counts fit the index type", "values are small enough that the scalar type holds every intermediate result"],
        quick: 32_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_signed_types!(c.ty, go, c)
}
trait Seen<T> {
    fn seen(&self) -> Result<Obs<T>, String>;
}
impl<I: Ix, T: Ts> Seen<T> for CSR<I, T> {
    fn seen(&self) -> Result<Obs<T>, String> {
        obs_csr(self, "result")
    }
}
impl<I: Ix, T: Ts> Seen<T> for CSC<I, T> {
    fn seen(&self) -> Result<Obs<T>, String> {
        obs_csc(self, "result")
    }
}
impl<I: Ix, T: Ts> Seen<T> for Coo<I, T> {
    fn seen(&self) -> Result<Obs<T>, String> {
        obs_coo(self, "result")
    }
}
fn eq<T: Ts>(law: &'static str, l: impl Seen<T>, r: impl Seen<T>) -> Result<(), String> {
    let (l, r) = (l.seen().map_err(|e| format!("{law}: left: {e}"))?, r.seen().map_err(|e| format!("{law}: right: {e}"))?);
    l.m.same(&r.m, law)
}
/// At most so many elementary products that everything stays exact and cheap.
fn bounded<T: Ts>(a: &mut Ent<T>, b: &mut Ent<T>) {
    loop {
        let mut n = vec![0usize; a.cols];
        b.t.iter().for_each(|t| n[t.0] += 1);
        if a.t.iter().map(|t| n[t.1]).sum::<usize>() <= 60_000 {
            return;
        }
        let x = if a.t.len() >= b.t.len() { &mut a.t } else { &mut b.t };
        x.truncate(x.len() / 2);
    }
}
fn go<I: Ix, T: Ts + Neg<Output = T>>(c: &Case) -> Check {
    let cap = I::max_us();
    let tight = cap < 1000;
    let (nr, nc) = (dim::<I>(c.a.rows), dim::<I>(c.a.cols));
    // entries of three summands together fit
    let share = cap / 3;
    let a: Ent<T> = realize(nr, nc, &c.a.e, 0, share);
    let b: Ent<T> = realize(nr, nc, &relate(&c.a.e, &c.b, c.rel), 0, share);
    let b2: Ent<T> = realize(nr, nc, &c.b2, 0, share);
    let s = T::mk(c.s.0, c.s.1, 0);
    let (x, y, z) = (a.csr::<I>(), b.csr::<I>(), b2.csr::<I>());
    let (xc, yc) = (a.csc::<I>(), b.csc::<I>());
    let (xo, yo, zo) = (a.coo::<I>(), b.coo::<I>(), b2.coo::<I>());
    // sums
    op("sums");
    eq("A + B = B + A", &x + &y, &y + &x)?;
    eq("A + B = B + A (columns)", &xc + &yc, &yc + &xc)?;
    eq("A + B = B + A (triplets)", &xo + &yo, &yo + &xo)?;
    eq("(A + B) + C = A + (B + C)", (&x + &y) + &z, &x + (&y + &z))?;
    eq("(A + B) + C = A + (B + C) (triplets)", (&xo + &yo).to_coo() + &zo, &xo + (&yo + &zo).to_coo())?;
    eq("A - B = A + (-B)", &x - &y, &x + (-y.clone()))?;
    eq("A - B = -(B - A)", &x - &y, -(&y - &x))?;
    eq("A - B = -(B - A) (columns)", &xc - &yc, -(&yc - &xc))?;
    eq("(A + B) - B = A", (&x + &y) - &y, a.csr::<I>())?;
    eq("(A - B) + B = A (columns)", (&xc - &yc) + &yc, a.csr::<I>())?;
    let nil = (&x - &x).seen()?;
    ensure(nil.t.is_empty() && nil.m.shape() == (nr, nc), || format!("A - A stores {} entries, shape {:?}", nil.t.len(), nil.m.shape()))?;
    eq("A + B = A + B (rows and columns)", &x + &y, &xc + &yc)?;
    eq("A + B = A + B (rows and triplets)", &x + &y, &xo + &yo)?;
    op("scaling");
    eq("s(A + B) = sA + sB", (&x + &y) * s, &x * s + &y * s)?;
    eq("s(A - B) = sA - sB (columns)", (&xc - &yc) * s, &xc * s - &yc * s)?;
    eq("A + A = 2A", &x + &x, &x * (T::one() + T::one()))?;
    op("transposes");
    eq("(A + B)' = A' + B'", (&x + &y).t().to_csr(), &x.t().to_csr() + &y.t().to_csr())?;
    eq("(A - B)' = A' - B' (columns)", (&xc - &yc).t().to_csc(), &xc.t().to_csc() - &yc.t().to_csc())?;
    // vectors
    op("vectors");
    let v = filler::<T>(nc, 9, 0);
    let w = filler::<T>(nc, 10, 0);
    let plus = |p: &[T], q: &[T]| p.iter().zip(q).map(|(&a, &b)| a + b).collect::<Vec<T>>();
    same_vec(&(&x * &plus(&v, &w)), &plus(&(&x * &v), &(&x * &w)), "A(v + w) = Av + Aw")?;
    same_vec(&((&x + &y) * &v), &plus(&(&x * &v), &(&y * &v)), "(A + B)v = Av + Bv")?;
    same_vec(&((&xc + &yc) * &v[..]), &plus(&(&xc * &v[..]), &(&yc * &v[..])), "(A + B)v = Av + Bv (columns)")?;
    same_vec(&(&x.t() * &filler::<T>(nr, 12, 0)[..]), &(&x.t().to_csr() * &filler::<T>(nr, 12, 0)), "A'u, columns and rows")?;
    // products
    op("products");
    let (kc, kd) = (dim::<I>(c.c_cols), dim::<I>(c.d_cols));
    let room = if tight { 12 } else { usize::MAX };
    let cut_to = |mut e: Ent<T>, n: usize| {
        e.t.truncate(n);
        e
    };
    let mut p = cut_to(a.clone(), room);
    let mut q: Ent<T> = cut_to(realize(nc, kc, &c.c, 0, cap), room);
    bounded(&mut p, &mut q);
    let mut q2: Ent<T> = cut_to(realize(nc, kc, &c.c2, 0, cap), room);
    bounded(&mut p, &mut q2);
    let mut r: Ent<T> = cut_to(realize(kc, kd, &c.d, 0, cap), room);
    bounded(&mut q, &mut r);
    let p2 = cut_to(b.clone(), room.min(p.t.len().max(20)));
    let (mp, mq, mq2, mp2) = (p.csr::<I>(), q.csr::<I>(), q2.csr::<I>(), p2.csr::<I>());
    let (cp, cq, cr) = (p.csc::<I>(), q.csc::<I>(), r.csc::<I>());
    let mr = r.csr::<I>();
    // chains multiply counts: keep them in range
    let chain = {
        let per = |e: &Ent<T>, n: usize| {
            let mut v = vec![0usize; n];
            e.t.iter().for_each(|t| v[t.0] += 1);
            v
        };
        let rr = per(&r, kc);
        let mut qr = vec![0usize; nc];
        q.t.iter().for_each(|t| qr[t.0] += rr[t.1]);
        p.t.iter().map(|t| qr[t.1]).sum::<usize>() <= 60_000
    };
    let small = |n: usize| n <= cap;
    let both = q.t.len() + q2.t.len();
    if small(reach(&p, &q)) && small(reach(&p, &q2)) && small(reach(&p, &q) + reach(&p, &q2)) && small(both) {
        eq("A(B + C) = AB + AC", &mp * (&mq + &mq2), &mp * &mq + &mp * &mq2)?;
        eq("A(B - C) = AB - AC", &mp * (&mq - &mq2), &mp * &mq - &mp * &mq2)?;
    }
    let light = {
        let mut n = vec![0usize; nc];
        q.t.iter().for_each(|t| n[t.0] += 1);
        p2.t.iter().map(|t| n[t.1]).sum::<usize>() <= 60_000
    };
    if light && small(reach(&p, &q) + reach(&p2, &q)) {
        eq("(A + B)C = AC + BC", (&mp + &mp2) * &mq, &mp * &mq + &mp2 * &mq)?;
    }
    if small(reach(&p, &q)) {
        let pq = &mp * &mq;
        eq("AB, rows and columns", mp.mat_mat(&mq).map_err(|e| e.to_string())?, &cp * &cq)?;
        eq("(sA)B = s(AB)", (&mp * s) * &mq, &mp * &mq * s)?;
        eq("(AB)' = B'A'", pq.t(), mq.t().mat_mat(&mp.t()).map_err(|e| e.to_string())?)?;
        let v = filler::<T>(kc, 13, 0);
        same_vec(&(&pq * &v), &(&mp * &(&mq * &v)), "(AB)v = A(Bv)")?;
        same_vec(&(&(&cp * &cq) * &v[..]), &(&cp * &(&cq * &v[..])[..]), "(AB)v = A(Bv) (columns)")?;
        if chain && small(reach(&q, &r)) {
            let pq_e = Ent { rows: nr, cols: kc, t: pq.seen()?.t, layout: 0 };
            if small(reach(&pq_e, &r)) {
                let qr = &mq * &mr;
                let qr_e = Ent { rows: nc, cols: kd, t: qr.seen()?.t, layout: 0 };
                if small(reach(&p, &qr_e)) {
                    eq("(AB)C = A(BC)", &pq * &mr, &mp * &qr)?;
                    eq("(AB)C = A(BC) (columns)", (&cp * &cq) * &cr, &cp * (&cq * &cr))?;
                }
            }
        }
    }
    let id = |n: usize| Coo::<I, T>::identity(n).to_csr();
    eq("A I = A", &x * &id(nc), a.coo::<I>())?;
    eq("I A = A", &id(nr) * &x, a.coo::<I>())?;
    let dg = filler::<T>(nr, 14, 0);
    eq("diag(d) A scales rows", &CSR::<I, T>::with_diagonal(dg.clone()) * &x, {
        let k = a.raw_csr::<I>();
        let mut v = k.x.clone();
        sparsetools::csr_scale_rows(nr, nc, &k.p, &k.j, &mut v, &dg);
        CSR::new(nr, nc, k.p, k.j, v).map_err(|e| e.to_string())?
    })?;
    // cut apart and put together again
    op("parts");
    let (i, j) = (spread(c.cut.0, nr + 1), spread(c.cut.1, nc + 1));
    let k = a.raw_csr::<I>();
    let part = |r0: usize, r1: usize, c0: usize, c1: usize| -> Result<CSR<I, T>, String> {
        let (mut bp, mut bj, mut bx) = (vec![], vec![], vec![]);
        get_csr_submatrix(nr, nc, &k.p, &k.j, &k.x, I::of(r0), I::of(r1), I::of(c0), I::of(c1), &mut bp, &mut bj, &mut bx);
        CSR::new(r1 - r0, c1 - c0, bp, bj, bx).map_err(|e| e.to_string())
    };
    let (p11, p12, p21, p22) = (part(0, i, 0, j)?, part(0, i, j, nc)?, part(i, nr, 0, j)?, part(i, nr, j, nc)?);
    let o = |m: &CSR<I, T>| m.to_coo();
    let (top, bottom) = (CSR::h_stack(&p11, &p12).map_err(|e| e.to_string())?, CSR::h_stack(&p21, &p22).map_err(|e| e.to_string())?);
    eq("the four parts of A composed are A", Coo::compose([[&o(&p11), &o(&p12)], [&o(&p21), &o(&p22)]]).map_err(|e| e.to_string())?, a.coo::<I>())?;
    eq("the four parts of A composed are A (columns)", CSC::compose(&p11.to_csc(), &p12.to_csc(), &p21.to_csc(), &p22.to_csc()).map_err(|e| e.to_string())?, a.coo::<I>())?;
    eq("the four parts of A stacked are A", Coo::v_stack(&o(&top), &o(&bottom)).map_err(|e| e.to_string())?, a.coo::<I>())?;
    op("triangles");
    let up = |k: usize| xo.upper(I::of(k));
    let kk = (c.k.unsigned_abs() as usize).min(cap - 1);
    let low = Coo::<I, T>::from_parts(&a, |r, q| q < r + kk)?;
    eq("upper triangle and the rest give A", up(kk) + low, a.coo::<I>())?;
    if kk == 0 {
        let diag = Coo::<I, T>::from_parts(&a, |r, q| q == r)?;
        eq("diagonal and strict upper triangle give the upper triangle", diag + up(1), up(0))?;
    }
    op("");
    let n = [&p, &q, &r, &b].iter().filter(|e| busy(e)).count();
    Ok(mat_classes(Cov::new(n >= 2), c.ty, &a)
        .class_if(chain && busy(&p) && busy(&q) && busy(&r), "a chain of two products")
        .class_if(i > 0 && i < nr && j > 0 && j < nc, "cut inside the matrix"))
}
trait Parts<I, T>: Sized {
    fn from_parts(e: &Ent<T>, keep: impl Fn(usize, usize) -> bool) -> Result<Self, String>;
}
impl<I: Ix, T: Ts> Parts<I, T> for Coo<I, T> {
    fn from_parts(e: &Ent<T>, keep: impl Fn(usize, usize) -> bool) -> Result<Self, String> {
        let t = e.t.iter().copied().filter(|x| keep(x.0, x.1)).collect();
        Ok(Ent { rows: e.rows, cols: e.cols, t, layout: 0 }.coo::<I>())
    }
}
