//! Matrix product equals the mathematical product.
use crate::prelude::*;
use crate::with_types;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    b_cols: u16,
    b: EntSpec,
    /// Second operand: 0 independent, 1 the transpose of the first, 2 the first itself (square).
    rel: u8,
    /// infinities and NaN (real scalars; no duplicates)
    #[serde(default)]
    special: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (ty(), exp(), mat_spec(p, true), dimension(p), ent_spec(p.nmin, p.nmax, true), prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], special())
            .prop_map(|(ty, exp, mut a, b_cols, mut b, rel, special)| {
                if special {
                    only_absorbing(&mut a.e);
                    only_absorbing(&mut b);
                    a.e.layout |= 1;
                    b.layout |= 1;
                } else {
                    tame(&mut a.e);
                    tame(&mut b);
                }
                if rel == 2 {
                    a.cols = a.rows;
                }
                Case { ty, exp, a, b_cols, b, rel, special }
            })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C06",
        rule: "two random matrices with matching inner dimension in random storage orders with duplicates and zeros (a matrix with itself or its transpose, infinities and NaN in part of the cases); product through methods, operators (each ownership variant), mixed formats and kernels; non-trivial: at least one product term",
        assumptions: &["element sums of products are generated to be exact in the scalar type", "the number of reachable result positions fits the index type"],
        quick: 40_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let exp = c.exp as i32;
    let mut c = c.clone();
    if !T::FLOAT || T::COMPLEX {
        tame(&mut c.a.e);
        tame(&mut c.b);
    }
    let c = &c;
    let mut ea: Ent<T> = realize_mat::<I, T>(&c.a, exp);
    let mut eb: Ent<T> = if c.rel == 1 {
        Ent { layout: c.b.layout, ..ea.transposed() }
    } else if c.rel == 2 && ea.rows == ea.cols {
        ea.clone()
    } else {
        realize(ea.cols, dim::<I>(c.b_cols), &c.b, exp, I::max_us())
    };
    let mut maxnnz = fit_product::<I, T>(&mut ea, &mut eb);
    // one matrix on both sides, also where the sides were shortened differently
    let itself = c.rel == 2 && ea.rows == ea.cols;
    if itself {
        while ea.t.len() != eb.t.len() {
            let n = ea.t.len().min(eb.t.len());
            ea.t.truncate(n);
            eb.t.truncate(n);
            maxnnz = fit_product::<I, T>(&mut ea, &mut eb);
        }
    }
    let (ma, mb) = (Model::of(&ea), Model::of(&eb));
    let want = ma.mul(&mb);
    let (nr, nc) = (ea.rows, eb.cols);

    let csr = |m: CSR<I, T>, what: &str| -> Result<(), String> {
        let o = obs_csr(&m, what)?;
        o.m.same(&want, what)?;
        no_dups(&o.t, what)?;
        no_zeros(&o.t, what)?;
        ensure(m.nnz() <= maxnnz, || format!("{what}: more entries than reachable positions"))
    };
    let csc = |m: CSC<I, T>, what: &str| -> Result<(), String> {
        let o = obs_csc(&m, what)?;
        o.m.same(&want, what)?;
        no_dups(&o.t, what)?;
        no_zeros(&o.t, what)
    };
    let (a, b) = (ea.csr::<I>(), eb.csr::<I>());
    op("CSR::mat_mat");
    csr(okay(a.mat_mat(&b), "CSR::mat_mat")?, "CSR::mat_mat")?;
    op("CSR * CSR");
    csr(&a * &b, "&CSR * &CSR")?;
    csr(a.clone() * &b, "CSR * &CSR")?;
    csr(&a * b.clone(), "&CSR * CSR")?;
    csr(a.clone() * b.clone(), "CSR * CSR")?;
    if itself {
        op("CSR * itself");
        csr(okay(a.mat_mat(&a), "CSR::mat_mat itself")?, "CSR::mat_mat itself")?;
        csr(&a * &a, "&CSR * itself")?;
        let ca = ea.csc::<I>();
        csc(okay(ca.mat_mat(&ca), "CSC::mat_mat itself")?, "CSC::mat_mat itself")?;
        csc(&ca * &ca, "&CSC * itself")?;
        let r = ea.raw_csr::<I>();
        let (mut p, mut j, mut x) = (junk_i::<I>(nr + 1), junk_i::<I>(maxnnz), junk::<T>(maxnnz));
        csr_matmat(nr, nc, &r.p, &r.j, &r.x, &r.p, &r.j, &r.x, &mut p, &mut j, &mut x);
        csr(okay(CSR::new(nr, nc, p, j, x), "csr_matmat itself")?, "csr_matmat itself")?;
    }
    let ca = || ea.csc::<I>();
    let cb = || eb.csc::<I>();
    op("CSC::mat_mat");
    csc(okay(ca().mat_mat(&cb()), "CSC::mat_mat")?, "CSC::mat_mat")?;
    op("CSC * CSC");
    csc(&ca() * &cb(), "&CSC * &CSC")?;
    csc(ca() * &cb(), "CSC * &CSC")?;
    csc(&ca() * cb(), "&CSC * CSC")?;
    csc(ca() * cb(), "CSC * CSC")?;
    op("CSC * CSR");
    csc(&ca() * &b, "&CSC * &CSR")?;
    csc(ca() * &b, "CSC * &CSR")?;
    csc(&ca() * b.clone(), "&CSC * CSR")?;
    csc(ca() * b.clone(), "CSC * CSR")?;
    same_bag(&obs_csr(&a, "left operand")?.t, &ea.t, "left operand afterwards")?;
    same_bag(&obs_csr(&b, "right operand")?.t, &eb.t, "right operand afterwards")?;

    // kernels into stale arrays
    let (ra, rb) = (ea.raw_csr::<I>(), eb.raw_csr::<I>());
    op("csr_matmat_maxnnz");
    let n = csr_matmat_maxnnz(nr, nc, &ra.p, &ra.j, &rb.p, &rb.j);
    ensure(n == maxnnz, || format!("csr_matmat_maxnnz is {n}, {maxnnz} positions are reachable"))?;
    let (mut p, mut j, mut x) = (junk_i::<I>(nr + 1), junk_i::<I>(maxnnz), junk::<T>(maxnnz));
    op("csr_matmat");
    csr_matmat(nr, nc, &ra.p, &ra.j, &ra.x, &rb.p, &rb.j, &rb.x, &mut p, &mut j, &mut x);
    csr(okay(CSR::new(nr, nc, p, j, x), "csr_matmat result")?, "csr_matmat")?;
    let (ra, rb) = (ea.raw_csc::<I>(), eb.raw_csc::<I>());
    op("csc_matmat_maxnnz");
    let n = csc_matmat_maxnnz(nr, nc, &ra.p, &ra.j, &rb.p, &rb.j);
    ensure(n == maxnnz, || format!("csc_matmat_maxnnz is {n}, {maxnnz} positions are reachable"))?;
    let (mut p, mut j, mut x) = (junk_i::<I>(nc + 1), junk_i::<I>(maxnnz), junk::<T>(maxnnz));
    op("csc_matmat");
    csc_matmat(nr, nc, &ra.p, &ra.j, &ra.x, &rb.p, &rb.j, &rb.x, &mut p, &mut j, &mut x);
    csc(okay(CSC::new(nr, nc, j, p, x), "csc_matmat result")?, "csc_matmat")?;
    op("");
    let cancelled = want.m.values().any(|v| v.same(T::zero()));
    let cov = Cov::new(maxnnz > 0).class_if(cancelled, "some product element cancels to zero").class_if(maxnnz > 100, "over 100 reachable positions")
        .class_if(itself, "a matrix times itself")
        .class_if(c.special && T::FLOAT && !T::COMPLEX, "special values");
    Ok(mat_classes(cov, c.ty, &ea))
}
