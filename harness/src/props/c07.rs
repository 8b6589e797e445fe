//! Matrix-vector products equal the mathematical product.
use crate::prelude::*;
use crate::with_types;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    x: u16,
    y: u16,
    n_vecs: u16,
    /// infinities and NaN (real scalars; no duplicates)
    #[serde(default)]
    special: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (ty(), exp(), mat_spec(p, true), any::<u16>(), any::<u16>(), or_dict(prop_oneof![12 => 0u16..5, 3 => 5u16..12, 1 => 12u16..=70].boxed(), 300), special())
            .prop_map(|(ty, exp, mut a, x, y, n_vecs, special)| {
                if special {
                    only_absorbing(&mut a.e);
                    a.e.layout |= 1;
                } else {
                    tame(&mut a.e);
                }
                Case { ty, exp, a, x, y, n_vecs, special }
            })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C07",
        rule: "random matrix in random storage order with duplicates and zeros, random vectors (infinities and NaN in matrix and vectors in part of the cases), 0 to 70 simultaneous vectors, stale outputs to accumulate onto; non-trivial: at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["element sums of products are generated to be exact in the scalar type"],
        quick: 160_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let special = c.special && T::FLOAT && !T::COMPLEX;
    let mut a = c.a.clone();
    if !special {
        tame(&mut a.e);
    }
    let e: Ent<T> = realize_mat::<I, T>(&a, c.exp as i32);
    // infinities and NaN within the vectors
    let season = |mut v: Vec<T>, knob: u16| {
        if special {
            for (i, x) in v.iter_mut().enumerate() {
                let h = (i as u64 + 3).wrapping_mul(0x9E3779B97F4A7C15 ^ ((knob as u64) << 24)) >> 40;
                match h % 31 {
                    0 => *x = T::mk(S_INF, 0, 0),
                    1 => *x = T::mk(S_NINF, 0, 0),
                    2 if knob % 2 == 0 => *x = T::mk(S_NAN, 0, 0),
                    3 => *x = T::mk(S_NEGZERO, 0, 0),
                    _ => {}
                }
            }
        }
        v
    };
    let (nr, nc) = (e.rows, e.cols);
    let m = Model::of(&e);
    let k = c.n_vecs as usize;
    let x: Vec<T> = season(filler(nc, c.x, 0), c.x);
    let y0: Vec<T> = season(filler(nr, c.y, c.exp as i32), c.y);
    let zero = vec![T::zero(); nr];
    let want = m.mul_vec(&x, &zero);
    let acc = m.mul_vec(&x, &y0);

    let (a, b) = (e.csr::<I>(), || e.csc::<I>());
    op("CSR::mat_vec");
    same_vec(&okay(a.mat_vec(&x), "CSR::mat_vec")?, &want, "CSR::mat_vec")?;
    op("CSC::mat_vec");
    same_vec(&okay(b().mat_vec(&x), "CSC::mat_vec")?, &want, "CSC::mat_vec")?;
    op("CSR * vector");
    same_vec(&(&a * &x[..]), &want, "&CSR * &[T]")?;
    same_vec(&(a.clone() * &x[..]), &want, "CSR * &[T]")?;
    same_vec(&(&a * &x), &want, "&CSR * &Vec")?;
    same_vec(&(a.clone() * &x), &want, "CSR * &Vec")?;
    op("CSC * vector");
    same_vec(&(&b() * &x[..]), &want, "&CSC * &[T]")?;
    same_vec(&(b() * &x[..]), &want, "CSC * &[T]")?;
    same_vec(&(&b() * &x), &want, "&CSC * &Vec")?;
    same_vec(&(b() * &x), &want, "CSC * &Vec")?;

    let (r, s) = (e.raw_csr::<I>(), e.raw_csc::<I>());
    let mut y = y0.clone();
    op("csr_matvec");
    csr_matvec(nr, nc, &r.p, &r.j, &r.x, &x, &mut y);
    same_vec(&y, &acc, "csr_matvec")?;
    let mut y = y0.clone();
    op("csc_matvec");
    csc_matvec(nr, nc, &s.p, &s.j, &s.x, &x, &mut y);
    same_vec(&y, &acc, "csc_matvec")?;
    let ri: Vec<I> = e.t.iter().map(|t| I::of(t.0)).collect();
    let ci: Vec<I> = e.t.iter().map(|t| I::of(t.1)).collect();
    let xs: Vec<T> = e.t.iter().map(|t| t.2).collect();
    let mut y = y0.clone();
    op("coo_matvec");
    coo_matvec(e.t.len(), &ri, &ci, &xs, &x, &mut y);
    same_vec(&y, &acc, "coo_matvec")?;

    // blocks of vectors, row-major
    let xb: Vec<T> = season(filler(nc * k, c.x ^ 0x55, 0), c.x);
    let yb: Vec<T> = season(filler(nr * k, c.y ^ 0x55, c.exp as i32), c.y);
    let mut want = yb.clone();
    for (&(i, j), &v) in &m.m {
        for q in 0..k {
            want[i * k + q] = want[i * k + q] + v * xb[j * k + q];
        }
    }
    let mut y = yb.clone();
    op("csr_matvecs");
    csr_matvecs(nr, nc, k, &r.p, &r.j, &r.x, &xb, &mut y);
    same_vec(&y, &want, "csr_matvecs")?;
    let mut y = yb.clone();
    op("csc_matvecs");
    csc_matvecs(nr, nc, k, &s.p, &s.j, &s.x, &xb, &mut y);
    same_vec(&y, &want, "csc_matvecs")?;
    op("");
    let cov = Cov::new(busy(&e)).class(format!("{k} vectors")).class_if(special, "special values");
    Ok(mat_classes(cov, c.ty, &e))
}
