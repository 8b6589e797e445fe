//! Complex parts and conjugates are exact.
use crate::prelude::*;
use crate::with_ix;
use sparsetools::coo::CCoo;
use sparsetools::csc::CCSC;
use sparsetools::csr::CCSR;
use sparsetools::Float;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    narrow: bool,
    exp: i8,
    a: MatSpec,
    /// 1: all imaginary parts zero, 2: all real parts zero
    part: u8,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (0u8..12, any::<bool>(), exp(), prop_oneof![1 => mat_spec(p, false), 1 => mat_spec(p, true)], prop_oneof![4 => Just(0u8), 1 => 1u8..3])
            .prop_map(|(ty, narrow, exp, a, part)| Case { ty, narrow, exp, a, part })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C15",
        rule: "random complex matrix (single and double precision) with duplicates, zeros, purely real or imaginary parts and special float values; conjugate, parts, conjugate transpose and building from parts in every format that offers them; non-trivial: at least 2 rows, 2 columns and 2 stored entries, and some imaginary part not zero",
        assumptions: &["sums of duplicates are exact in the scalar type"],
        quick: 60_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_ix!(c.ty, pick, c)
}
fn pick<I: Ix>(c: &Case) -> Check {
    if c.narrow {
        go::<I, f32, num_complex::Complex<f32>>(c)
    } else {
        go::<I, f64, num_complex::Complex<f64>>(c)
    }
}
fn go<I: Ix, F: Ts + Float, C: Ts + sparsetools::Complex<F> + Join<F>>(c: &Case) -> Check
where
    F: std::ops::Neg<Output = F>,
{
    let mut spec = c.a.clone();
    for e in &mut spec.e.ents {
        match c.part {
            1 => e.3 = 0,
            2 => e.2 = 0,
            _ => {}
        }
    }
    let e: Ent<C> = realize_mat::<I, C>(&spec, c.exp as i32);
    let m = Model::of(&e);
    // independent of the library's own accessors: taken from the generated numbers
    let split = |im: bool| -> Ent<F> {
        let mut s = spec.clone();
        if im {
            s.e.ents.iter_mut().for_each(|x| x.2 = x.3);
        }
        realize_mat::<I, F>(&s, c.exp as i32)
    };
    let (er, ei) = (split(false), split(true));
    let (mr, mi) = (Model::of(&er), Model::of(&ei));
    let conj: Ent<C> = {
        let mut x = e.clone();
        for (k, t) in x.t.iter_mut().enumerate() {
            t.2 = build::<F, C>(er.t[k].2, -ei.t[k].2);
        }
        x
    };
    let mc = Model::of(&conj);
    let mh = mc.t();

    let a = e.csr::<I>();
    op("CSR complex");
    obs_csr(&<CSR<I, C> as CCSR<I, F, C>>::conj(&a), "CSR::conj")?.m.same(&mc, "CSR::conj")?;
    let (re, im) = (<CSR<I, C> as CCSR<I, F, C>>::real(&a), <CSR<I, C> as CCSR<I, F, C>>::imag(&a));
    obs_csr(&re, "CSR::real")?.m.same(&mr, "CSR::real")?;
    obs_csr(&im, "CSR::imag")?.m.same(&mi, "CSR::imag")?;
    obs_csc(&<CSR<I, C> as CCSR<I, F, C>>::h(&a), "CSR::h")?.m.same(&mh, "CSR::h")?;
    let wr = <CSR<I, C> as CCSR<I, F, C>>::with_real(&re);
    let wi = <CSR<I, C> as CCSR<I, F, C>>::with_imag(&im);
    obs_csr(&wr, "CSR::with_real")?.m.same(&complex(&mr, |v| build(v, F::zero())), "CSR::with_real")?;
    obs_csr(&wi, "CSR::with_imag")?.m.same(&complex(&mi, |v| build(F::zero(), v)), "CSR::with_imag")?;
    obs_csr(&a, "source")?.m.same(&m, "source after CSR complex operations")?;
    if wr.nnz() <= I::max_us() - wi.nnz() {
        op("CSR with_real + with_imag");
        obs_csr(&(&wr + &wi), "sum")?.m.same(&m, "with_real(real) + with_imag(imag)")?;
    }
    let b = e.csc::<I>();
    op("CSC complex");
    obs_csc(&<CSC<I, C> as CCSC<I, F, C>>::conj(&b), "CSC::conj")?.m.same(&mc, "CSC::conj")?;
    obs_csc(&<CSC<I, C> as CCSC<I, F, C>>::real(&b), "CSC::real")?.m.same(&mr, "CSC::real")?;
    obs_csc(&<CSC<I, C> as CCSC<I, F, C>>::imag(&b), "CSC::imag")?.m.same(&mi, "CSC::imag")?;
    obs_csr(&<CSC<I, C> as CCSC<I, F, C>>::h(&b), "CSC::h")?.m.same(&mh, "CSC::h")?;
    let o = e.coo::<I>();
    op("Coo complex");
    obs_coo(&<Coo<I, C> as CCoo<I, F>>::conj(&o), "Coo::conj")?.m.same(&mc, "Coo::conj")?;
    obs_coo(&<Coo<I, C> as CCoo<I, F>>::real(&o), "Coo::real")?.m.same(&mr, "Coo::real")?;
    obs_coo(&<Coo<I, C> as CCoo<I, F>>::imag(&o), "Coo::imag")?.m.same(&mi, "Coo::imag")?;
    obs_coo(&<Coo<I, C> as CCoo<I, F>>::h(&o), "Coo::h")?.m.same(&mh, "Coo::h")?;
    op("");
    let cov = Cov::new(busy(&e) && mi.nonzeros() > 0)
        .class(C::NAME)
        .class_if(mi.nonzeros() == 0, "purely real")
        .class_if(mr.nonzeros() == 0, "purely imaginary");
    let mut cov = mat_classes(cov, c.ty, &e);
    cov.classes.retain(|x| !x.starts_with("type "));
    Ok(cov.class(format!("index type {}", I::NAME)))
}
/// Builds a complex number without the library.
trait Join<F>: Sized {
    fn join(re: F, im: F) -> Self;
}
impl Join<f64> for num_complex::Complex<f64> {
    fn join(re: f64, im: f64) -> Self {
        num_complex::Complex { re, im }
    }
}
impl Join<f32> for num_complex::Complex<f32> {
    fn join(re: f32, im: f32) -> Self {
        num_complex::Complex { re, im }
    }
}
fn build<F, C: Join<F>>(re: F, im: F) -> C {
    C::join(re, im)
}
fn complex<F: Ts, C: Ts>(m: &Model<F>, f: impl Fn(F) -> C) -> Model<C> {
    Model { rows: m.rows, cols: m.cols, m: m.m.iter().map(|(&k, &v)| (k, f(v))).collect() }
}
