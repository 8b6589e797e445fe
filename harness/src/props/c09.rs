//! Transposition mirrors every element and is an involution.
use crate::prelude::*;
use crate::with_types;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    b: EntSpec,
    rel: u8,
    c_cols: u16,
    c: EntSpec,
    special: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        let p = *p;
        any::<bool>()
            .prop_flat_map(move |special| {
                (
                    ty(), exp(), mat_spec(&p, special), ent_spec(p.nmin, p.nmax, false), rel(), dimension(&p),
                    ent_spec(p.nmin, p.nmax, false), Just(special),
                )
            })
            .prop_map(|(ty, exp, a, b, rel, c_cols, c, special)| Case { ty, exp, a, b, rel, c_cols, c, special })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C09",
        rule: "random matrices of every format and storage order; consuming and copying transposition, twice, and of sums and products; non-trivial: at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["element sums are generated to be exact in the scalar type", "entry counts of sums and products fit the index type"],
        quick: 40_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let exp = c.exp as i32;
    let e: Ent<T> = realize_mat::<I, T>(&c.a, exp);
    let et = e.transposed();
    let (m, mt) = (Model::of(&e), Model::of(&e).t());
    macro_rules! is {
        ($x:expr, $obs:ident, $t:expr, $m:expr, $what:expr) => {{
            let o = $obs(&$x, $what)?;
            o.m.same($m, $what)?;
            same_bag(&o.t, $t, $what)?;
        }};
    }
    op("CSR transpose");
    let a = e.csr::<I>();
    is!(a.t(), obs_csc, &et.t, &mt, "CSR::t");
    is!(a.clone().transpose(), obs_csc, &et.t, &mt, "CSR::transpose");
    is!(a.t().t(), obs_csr, &e.t, &m, "CSR::t twice");
    is!(a.clone().transpose().transpose(), obs_csr, &e.t, &m, "CSR::transpose twice");
    is!(a, obs_csr, &e.t, &m, "source after CSR::t");
    op("CSC transpose");
    let b = e.csc::<I>();
    is!(b.t(), obs_csr, &et.t, &mt, "CSC::t");
    is!(b.transpose(), obs_csr, &et.t, &mt, "CSC::transpose");
    is!(b.t().t(), obs_csc, &e.t, &m, "CSC::t twice");
    is!(b.transpose().transpose(), obs_csc, &e.t, &m, "CSC::transpose twice");
    is!(b, obs_csc, &e.t, &m, "source after CSC::t");
    op("Coo transpose");
    let o = e.coo::<I>();
    is!(o.t(), obs_coo, &et.t, &mt, "Coo::t");
    is!(o.clone().transpose(), obs_coo, &et.t, &mt, "Coo::transpose");
    is!(o.t().t(), obs_coo, &e.t, &m, "Coo::t twice");
    is!(o.clone().transpose().transpose(), obs_coo, &e.t, &m, "Coo::transpose twice");
    // interplay with format conversion
    is!(a.t().to_csr(), obs_csr, &et.t, &mt, "CSR::t then to_csr");
    is!(b.t().to_csc(), obs_csc, &et.t, &mt, "CSC::t then to_csc");

    if !c.special {
        let (ea, eb) = pair::<I, T>(&c.a, &c.b, c.rel, exp);
        let (a, b) = (ea.csr::<I>(), eb.csr::<I>());
        let sum = Model::of(&ea).add(&Model::of(&eb)).t();
        op("(A+B)^T");
        obs_csc(&(&a + &b).t(), "(A+B)^T")?.m.same(&sum, "(A+B)^T")?;
        obs_csc(&(a.t() + b.t()), "A^T + B^T")?.m.same(&sum, "A^T + B^T")?;
        let mut ea = ea;
        let mut ec: Ent<T> = realize(ea.cols, dim::<I>(c.c_cols), &c.c, exp, I::max_us());
        fit_product::<I, T>(&mut ea, &mut ec);
        let (a, x) = (ea.csr::<I>(), ec.csr::<I>());
        let prod = Model::of(&ea).mul(&Model::of(&ec)).t();
        op("(AC)^T");
        obs_csc(&(&a * &x).t(), "(AC)^T")?.m.same(&prod, "(AC)^T")?;
        obs_csc(&(x.t() * a.t()), "C^T A^T")?.m.same(&prod, "C^T A^T")?;
    }
    op("");
    Ok(mat_classes(Cov::new(busy(&e)), c.ty, &e))
}
