//! Scaling and negation act on every element and nothing else.
use crate::prelude::*;
use crate::{with_signed_types, with_types};
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    s: (i16, i16),
    sexp: i8,
    knob: u16,
    writes: Vec<(u16, i16)>,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (
            ty(), exp(), prop_oneof![2 => mat_spec(p, false), 1 => mat_spec(p, true)],
            prop_oneof![1 => Just((0, 0)), 1 => Just((1, 0)), 1 => Just((-1, 0)), 6 => (-9i16..=9, -9i16..=9), 2 => val(true)],
            prop_oneof![2 => Just(0i8), 1 => -20i8..20], any::<u16>(), prop::collection::vec((any::<u16>(), -50i16..=50), 0..5),
        )
            .prop_map(|(ty, exp, a, s, sexp, knob, writes)| Case { ty, exp, a, s, sexp, knob, writes })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C08",
        rule: "random matrix (special float values included) and scalar or per-row/column factors; scalar multiplication from right and left, negation, row and column scaling kernels, writes through the value view; non-trivial: at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["a product of one stored value and one factor is the scalar type's own product"],
        quick: 80_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, scale, c)?;
    with_signed_types!(c.ty, negate, c)?;
    match c.ty % 3 {
        0 => left::<usize>(c)?,
        1 => left::<i8>(c)?,
        _ => left::<u16>(c)?,
    }
    with_types!(c.ty, cover, c)
}
fn cover<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    Ok(mat_classes(Cov::new(busy(&e)), c.ty, &e))
}
type Tri<T> = Vec<(usize, usize, T)>;
fn map<T: Ts>(e: &Ent<T>, f: impl Fn(usize, usize, T) -> T) -> Tri<T> {
    e.t.iter().map(|&(r, c, v)| (r, c, f(r, c, v))).collect()
}
/// Shape, and every stored entry (duplicates included) mapped.
fn csr<I: Ix, T: Ts>(m: &CSR<I, T>, e: &Ent<T>, want: &Tri<T>, what: &str) -> Result<(), String> {
    let o = obs_csr(m, what)?;
    ensure(o.m.shape() == (e.rows, e.cols), || format!("{what}: shape {:?}", o.m.shape()))?;
    same_bag(&o.t, want, what)
}
fn csc<I: Ix, T: Ts>(m: &CSC<I, T>, e: &Ent<T>, want: &Tri<T>, what: &str) -> Result<(), String> {
    let o = obs_csc(m, what)?;
    ensure(o.m.shape() == (e.rows, e.cols), || format!("{what}: shape {:?}", o.m.shape()))?;
    same_bag(&o.t, want, what)
}
fn coo<I: Ix, T: Ts>(m: &Coo<I, T>, e: &Ent<T>, want: &Tri<T>, what: &str) -> Result<(), String> {
    let o = obs_coo(m, what)?;
    ensure(o.m.shape() == (e.rows, e.cols), || format!("{what}: shape {:?}", o.m.shape()))?;
    same_bag(&o.t, want, what)
}

fn scale<I: Ix, T: Ts>(c: &Case) -> Result<(), String> {
    let mut a = c.a.clone();
    if !T::FLOAT {
        tame(&mut a.e); // products must fit
    }
    let e: Ent<T> = realize_mat::<I, T>(&a, c.exp as i32);
    let s = if T::FLOAT { c.s } else { (c.s.0 % 10, c.s.1 % 10) };
    let s = T::mk(s.0, s.1, c.sexp as i32);
    let want = map(&e, |_, _, v| v * s);
    let a = e.csr::<I>();
    op("CSR * scalar");
    csr(&(&a * s), &e, &want, "&CSR * scalar")?;
    csr(&(a.clone() * s), &e, &want, "CSR * scalar")?;
    csr(&a, &e, &e.t, "operand after CSR * scalar")?;
    op("CSC * scalar");
    csc(&(&e.csc::<I>() * s), &e, &want, "&CSC * scalar")?;
    csc(&(e.csc::<I>() * s), &e, &want, "CSC * scalar")?;

    // in-place row and column scaling
    let mut r = e.raw_csr::<I>();
    // room behind the entries is not part of the matrix
    let spare: Vec<T> = filler_nz(c.knob as usize % 4, c.knob, 0);
    if e.cols > 0 {
        r.j.extend(spare.iter().map(|_| I::of(c.knob as usize % e.cols)));
        r.x.extend(spare.iter().copied());
    }
    let nnz = e.t.len();
    let mut fr: Vec<T> = filler(e.rows, c.knob, 0);
    let mut fc: Vec<T> = filler(e.cols, c.knob ^ 0x3333, 0);
    if T::FLOAT && c.knob % 3 == 0 {
        // infinite, not-a-number and extreme factors among the others
        for (k, f) in fr.iter_mut().chain(&mut fc).enumerate() {
            let v = [S_INF, S_NAN, S_HUGE, S_NINF, S_TINY, S_NEGZERO, 1];
            if (k + c.knob as usize) % 4 == 0 {
                *f = T::mk(v[(k / 4 + c.knob as usize) % 7], v[(k / 2) % 7], 0);
            }
        }
    }
    let line = |x: &[T]| -> Tri<T> { read_compressed("scaled", e.rows, e.cols, nnz, &r.p, &r.j[..nnz], &x[..nnz]).expect("unchanged structure") };
    let src = line(&r.x);
    let mut x = r.x.clone();
    op("csr_scale_rows");
    csr_scale_rows(e.rows, e.cols, &r.p, &r.j, &mut x, &fr);
    let want: Tri<T> = src.iter().map(|&(i, j, v)| (i, j, v * fr[i])).collect();
    same_seq(&line(&x), &want, "csr_scale_rows")?;
    same_vec(&x[nnz..], &r.x[nnz..], "behind the entries after csr_scale_rows")?;
    let mut x = r.x.clone();
    op("csr_scale_columns");
    csr_scale_columns(e.rows, e.cols, &r.p, &r.j, &mut x, &fc);
    let want: Tri<T> = src.iter().map(|&(i, j, v)| (i, j, v * fc[j])).collect();
    same_seq(&line(&x), &want, "csr_scale_columns")?;
    same_vec(&x[nnz..], &r.x[nnz..], "behind the entries after csr_scale_columns")?;

    // writes through the value view
    let n = e.t.len();
    if n > 0 {
        let (mut a, mut b, mut o) = (e.csr::<I>(), e.csc::<I>(), e.coo::<I>());
        let (mut wa, mut wb, mut wo) = (obs_csr(&a, "a")?.t, obs_csc(&b, "b")?.t, e.t.clone());
        op("values_mut");
        for &(k, v) in &c.writes {
            let (k, v) = (k as usize % n, T::mk(v, v, 0));
            a.values_mut()[k] = v;
            b.values_mut()[k] = v;
            o.values_mut()[k] = v;
            wa[k].2 = v;
            wb[k].2 = v;
            wo[k].2 = v;
        }
        same_seq(&obs_csr(&a, "CSR::values_mut")?.t, &wa, "CSR::values_mut")?;
        same_seq(&obs_csc(&b, "CSC::values_mut")?.t, &wb, "CSC::values_mut")?;
        same_seq(&obs_coo(&o, "Coo::values_mut")?.t, &wo, "Coo::values_mut")?;
    }
    op("");
    Ok(())
}

fn negate<I: Ix, T: Ts + std::ops::Neg<Output = T>>(c: &Case) -> Result<(), String> {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    let want = map(&e, |_, _, v| -v);
    op("negation");
    csr(&-e.csr::<I>(), &e, &want, "-CSR")?;
    csc(&-e.csc::<I>(), &e, &want, "-CSC")?;
    coo(&-e.coo::<I>(), &e, &want, "-Coo")?;
    op("");
    Ok(())
}

fn left<I: Ix>(c: &Case) -> Result<(), String> {
    type C = num_complex::Complex<f64>;
    let e: Ent<C> = realize_mat::<I, C>(&c.a, c.exp as i32);
    let s = C::mk(c.s.0, c.s.1, c.sexp as i32);
    let want = map(&e, |_, _, v| s * v);
    let a = e.csr::<I>();
    op("scalar * CSR");
    csr(&(s * &a), &e, &want, "scalar * &CSR")?;
    csr(&(s * a.clone()), &e, &want, "scalar * CSR")?;
    op("scalar * CSC");
    csc(&(s * &e.csc::<I>()), &e, &want, "scalar * &CSC")?;
    csc(&(s * e.csc::<I>()), &e, &want, "scalar * CSC")?;
    op("");
    Ok(())
}
