//! Every constructor, conversion, query and operation of the library on one set of operands,
//! each with the result expected of it. Shared by C02, C25 and C27.
use crate::prelude::*;
use sparsetools::csr::CCSR;
use sparsetools::csc::CCSC;
use sparsetools::coo::CCoo;
use sparsetools::graph::{connected_components, cs_graph_components, depth_first_order, Connection};
use std::ops::Neg;

#[derive(Clone, Debug)]
pub enum Out<T> {
    Mat(Model<T>),
    Cplx(Model<Complex<f64>>),
    Real(Model<f64>),
    Vec(Vec<T>),
    Num(Vec<i128>),
    Text(Vec<String>),
    /// Error or panic.
    Failed(String),
    /// A returned matrix whose fields are inconsistent.
    Malformed(String),
}
pub struct Item<T> {
    pub name: &'static str,
    pub got: Out<T>,
    pub want: Option<Out<T>>,
    /// positions stored, in storage order; empty where the result is no sparse matrix
    pub form: Vec<(usize, usize)>,
}
thread_local! {
    /// `form` of the result seen last
    static FORM: std::cell::RefCell<Vec<(usize, usize)>> = Default::default();
}
#[derive(Clone, Debug)]
pub struct Operands<T> {
    /// `b`: shape of `a`; `c`: rows = columns of `a`; `r`: rows of `a`; `d`: columns of `a`
    pub a: Ent<T>,
    pub b: Ent<T>,
    pub c: Ent<T>,
    pub r: Ent<T>,
    pub d: Ent<T>,
    pub s: T,
    /// helper values are real numbers
    pub real: bool,
    /// and -1, 0 or 1
    pub small: bool,
    pub k: i64,
    pub rows: Vec<usize>,
    pub cols: Vec<usize>,
}

/// How a result is observed.
pub trait See<T> {
    fn see(self) -> Out<T>;
}
fn mat<T: Ts>(r: Result<Obs<T>, String>) -> Out<T> {
    match r {
        Ok(o) => {
            FORM.with(|f| *f.borrow_mut() = o.t.iter().map(|x| (x.0, x.1)).collect());
            Out::Mat(o.m)
        }
        Err(e) => Out::Malformed(e),
    }
}
impl<I: Ix, T: Ts> See<T> for CSR<I, T> {
    fn see(self) -> Out<T> {
        mat(obs_csr(&self, ""))
    }
}
impl<I: Ix, T: Ts> See<T> for CSC<I, T> {
    fn see(self) -> Out<T> {
        mat(obs_csc(&self, ""))
    }
}
impl<I: Ix, T: Ts> See<T> for Coo<I, T> {
    fn see(self) -> Out<T> {
        mat(obs_coo(&self, ""))
    }
}
impl<I: Ix, T: Ts> See<T> for DoK<I, T> {
    fn see(self) -> Out<T> {
        mat(obs_dok(&self, ""))
    }
}
impl<T: Ts> See<T> for Vec<T> {
    fn see(self) -> Out<T> {
        Out::Vec(self)
    }
}
impl<T> See<T> for Out<T> {
    fn see(self) -> Out<T> {
        self
    }
}
impl<T, R: See<T>, E: std::fmt::Display> See<T> for Result<R, E> {
    fn see(self) -> Out<T> {
        match self {
            Ok(r) => r.see(),
            Err(e) => Out::Failed(format!("error: {e}")),
        }
    }
}
struct B<T> {
    v: Vec<Item<T>>,
    at: usize,
    /// the items to run; all others are left out
    only: std::ops::Range<usize>,
}
impl<T: Ts> B<T> {
    fn run<R: See<T>>(&mut self, name: &'static str, want: Option<Out<T>>, f: impl FnOnce() -> R) {
        self.at += 1;
        if !self.only.contains(&(self.at - 1)) {
            return;
        }
        let got = match catch(|| crate::trap::fused(f)) {
            Ok(r) => r.see(),
            Err(p) => {
                crate::trap::unfuse();
                Out::Failed(p)
            }
        };
        let form = FORM.with(|f| std::mem::take(&mut *f.borrow_mut()));
        self.v.push(Item { name, got, want, form });
    }
    fn mat<R: See<T>>(&mut self, name: &'static str, want: &Model<T>, f: impl FnOnce() -> R) {
        self.run(name, Some(Out::Mat(want.clone())), f)
    }
}
fn dense_out<T: Ts>(rows: usize, cols: usize, d: Vec<Vec<T>>) -> Out<T> {
    if d.len() != rows || d.iter().any(|r| r.len() != cols) {
        return Out::Malformed(format!("dense result is not {rows}x{cols}"));
    }
    let mut m = Model::from_dense(&d);
    m.rows = rows;
    m.cols = cols;
    Out::Mat(m)
}
pub fn lines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.lines().map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).filter(|l| !l.is_empty()).collect();
    v.sort();
    v
}
fn num(v: impl IntoIterator<Item = usize>) -> Out<f64> {
    Out::Num(v.into_iter().map(|x| x as i128).collect())
}
fn cast<T>(o: Out<f64>) -> Out<T> {
    match o {
        Out::Num(v) => Out::Num(v),
        _ => unreachable!(),
    }
}
fn nums<T>(v: impl IntoIterator<Item = usize>) -> Out<T> {
    cast(num(v))
}

/// Entry counts must not exceed `cap` (the largest value of the narrowest index type in play),
/// counting entries before any are merged or dropped; operations beyond that are left out.
pub fn battery<I: Ix, T: Ts + Neg<Output = T>>(o: &Operands<T>, cap: usize) -> Vec<Item<T>> {
    battery_part::<I, T>(o, cap, 0..usize::MAX)
}
/// Some consecutive items of the battery only.
pub fn battery_part<I: Ix, T: Ts + Neg<Output = T>>(o: &Operands<T>, cap: usize, only: std::ops::Range<usize>) -> Vec<Item<T>> {
    let mut z = B { v: vec![], at: 0, only };
    let real = o.real;
    let filler = |n: usize, knob: u16, exp: i32| -> Vec<T> {
        let v = crate::prelude::filler::<T>(n, knob, exp);
        if o.small {
            return v.into_iter().map(|x| T::mk(x.parts().0 as i16 % 2, 0, exp)).collect();
        }
        if real && T::COMPLEX { v.into_iter().map(|x| T::from_f64(x.parts().0, 0.0)).collect() } else { v }
    };
    let (nr, nc) = (o.a.rows, o.a.cols);
    let (ma, mb, mc, mr, md) = (Model::of(&o.a), Model::of(&o.b), Model::of(&o.c), Model::of(&o.r), Model::of(&o.d));
    let fits = |v: &[usize]| v.iter().all(|&x| x <= cap);
    let n = |e: &Ent<T>| e.t.len();
    let csr = o.a.csr::<I>();
    let csc = o.a.csc::<I>();
    let coo = o.a.coo::<I>();
    let dok = o.a.dok::<I>();
    let mut canon = csr.clone();

    // constructors
    z.mat("CSR::with_size", &Model::empty(nr, nc), || CSR::<I, T>::with_size(nr, nc));
    z.mat("Coo::with_size", &Model::empty(nr, nc), || Coo::<I, T>::with_size(nr, nc));
    z.mat("Coo::with_capacity", &Model::empty(nr, nc), || Coo::<I, T>::with_capacity(nr, nc, 5));
    z.mat("DoK::new", &Model::empty(nr, nc), || DoK::<I, T>::new(nr, nc));
    z.mat("DoK::with_capacity", &Model::empty(nr, nc), || DoK::<I, T>::with_capacity(nr, nc, 5));
    z.mat("CSR::new", &ma, || o.a.csr::<I>());
    z.mat("CSC::new", &ma, || o.a.csc::<I>());
    z.mat("Coo::new", &ma, || o.a.coo::<I>());
    z.mat("Coo::push", &ma, || {
        let mut x = Coo::<I, T>::with_size(nr, nc);
        o.a.t.iter().for_each(|e| x.push(I::of(e.0), I::of(e.1), e.2));
        x
    });
    let dg: Vec<T> = filler(nr, 3, 0);
    let mut mdg = Model::empty(nr, nr);
    dg.iter().enumerate().for_each(|(i, &v)| {
        mdg.m.insert((i, i), v);
    });
    z.mat("CSR::with_diagonal", &mdg, || CSR::<I, T>::with_diagonal(dg.clone()));
    z.mat("CSC::with_diagonal", &mdg, || CSC::<I, T>::with_diagonal(dg.clone()));
    z.mat("Coo::with_diagonal", &mdg, || Coo::<I, T>::with_diagonal(&dg));
    let mid = mdg.map(|_, _, _| T::one());
    z.mat("Coo::identity", &mid, || Coo::<I, T>::identity(nr));
    // a dense array has no column count without rows
    if nr * nc <= 4096 {
        let d = ma.dense();
        let want = if nr == 0 { Model::empty(0, 0) } else { ma.clone() };
        z.mat("CSR::from_dense", &want, || CSR::<I, T>::from_dense(&d));
        z.mat("CSC::from_dense", &want, || CSC::<I, T>::from_dense(&d));
        z.mat("Coo::from_dense", &want, || Coo::<I, T>::from_dense(&d));
        z.mat("DoK::from_dense", &want, || DoK::<I, T>::from_dense(&d.iter().map(|r| r.as_slice()).collect::<Vec<_>>()));
        z.mat("Coo::to_dense", &ma, || dense_out(nr, nc, coo.to_dense()));
        z.mat("CSC::to_dense", &ma, || dense_out(nr, nc, csc.to_dense()));
        z.mat("DoK::to_dense", &ma, || dense_out(nr, nc, dok.to_dense()));
        z.mat("csr_todense", &ma, || {
            let mut y = vec![vec![T::zero(); nc]; nr];
            sparsetools::csr_todense(nr, nc, csr.rowptr(), csr.colidx(), csr.values(), &mut y);
            dense_out(nr, nc, y)
        });
        z.mat("coo_todense", &ma, || {
            let mut y = vec![T::zero(); nr * nc];
            sparsetools::coo_todense(nr, nc, coo.nnz(), coo.rowidx(), coo.colidx(), coo.values(), &mut y, false);
            dense_out(nr, nc, (0..nr).map(|i| y[i * nc..(i + 1) * nc].to_vec()).collect())
        });
        z.mat("coo_todense, column-major", &ma, || {
            let mut y = vec![T::zero(); nr * nc];
            sparsetools::coo_todense(nr, nc, coo.nnz(), coo.rowidx(), coo.colidx(), coo.values(), &mut y, true);
            dense_out(nr, nc, (0..nr).map(|i| (0..nc).map(|j| y[j * nr + i]).collect()).collect())
        });
        // cells of stored values are C21's matter
        let want = o.a.t.is_empty().then(|| {
            let row = vec!["-"; nc].join(" ");
            Out::Text(if nc == 0 { vec![] } else { vec![row; nr] })
        });
        let c = canonical(&o.a).csr::<I>();
        z.run("CSR::to_table", want, || Out::<T>::Text(lines(&c.to_table())));
    }
    // conversions
    z.mat("CSR::to_csc", &ma, || csr.to_csc());
    z.mat("CSR::to_coo", &ma, || csr.to_coo());
    z.mat("CSC::to_csr", &ma, || csc.to_csr());
    z.mat("CSC::to_coo", &ma, || csc.to_coo());
    z.mat("Coo::to_csr", &ma, || coo.to_csr());
    z.mat("Coo::to_csc", &ma, || coo.to_csc());
    z.mat("DoK::to_coo", &ma, || dok.to_coo());
    z.mat("DoK::to_csr", &ma, || dok.to_csr());
    z.mat("DoK::to_csc", &ma, || dok.to_csc());
    z.run("counts", Some(nums([nr, nc, n(&o.a), nr, nc, n(&o.a), nr, nc, n(&o.a), nr, nc])), || {
        nums::<T>([
            csr.rows(), csr.cols(), csr.nnz(), csc.rows(), csc.cols(), csc.nnz(), coo.rows(), coo.cols(), coo.nnz(), dok.rows(), dok.cols(),
        ])
    });
    // transposes
    let mt = ma.t();
    z.mat("CSR::transpose", &mt, || csr.clone().transpose());
    z.mat("CSR::t", &mt, || csr.t());
    z.mat("CSC::transpose", &mt, || csc.transpose());
    z.mat("CSC::t", &mt, || csc.t());
    z.mat("Coo::transpose", &mt, || coo.clone().transpose());
    z.mat("Coo::t", &mt, || coo.t());
    // canonical form
    let (by_row, by_col) = (o.a.raw_csr::<i64>(), o.a.raw_csc::<i64>());
    let pred = |r: &Raw<i64, T>, strict: bool| {
        (0..r.n_major).all(|i| r.j[r.p[i] as usize..r.p[i + 1] as usize].windows(2).all(|w| w[0] < w[1] || (!strict && w[0] == w[1]))) as usize
    };
    z.run("CSR predicates", Some(nums([pred(&by_row, false), pred(&by_row, true)])), || {
        nums::<T>([csr.has_sorted_indexes() as usize, csr.has_canonical_format() as usize])
    });
    z.run("CSC predicates", Some(nums([pred(&by_col, false), pred(&by_col, true)])), || {
        nums::<T>([csc.has_sorted_indexes() as usize, csc.has_canonical_format() as usize])
    });
    z.mat("CSR::sort_indexes", &ma, || {
        let mut x = csr.clone();
        x.sort_indexes();
        x
    });
    z.mat("CSC::sort_indexes", &ma, || {
        let mut x = o.a.csc::<I>();
        x.sort_indexes();
        x
    });
    z.mat("CSR::sum_duplicates", &ma, || canon.sum_duplicates().map(|_| canon.clone()));
    z.mat("CSC::sum_duplicates", &ma, || {
        let mut x = o.a.csc::<I>();
        x.sum_duplicates();
        x
    });
    z.mat("CSC::prune", &ma, || {
        let mut x = o.a.csc::<I>();
        x.prune().map(|_| x)
    });
    // arithmetic
    let (b_csr, b_csc, b_coo) = (o.b.csr::<I>(), o.b.csc::<I>(), o.b.coo::<I>());
    let (sum, dif) = (ma.add(&mb), ma.sub(&mb));
    if fits(&[n(&o.a) + n(&o.b)]) {
        z.mat("Coo + Coo", &sum, || &coo + &b_coo);
    }
    // the result of compressed operands holds every position once
    if fits(&[sum.m.len()]) {
        z.mat("CSR + CSR", &sum, || &csr + &b_csr);
        z.mat("CSR - CSR", &dif, || &csr - &b_csr);
        z.mat("CSC + CSC", &sum, || &csc + &b_csc);
        z.mat("CSC - CSC", &dif, || &csc - &b_csc);
        z.mat("CSC::add", &sum, || csc.add(&b_csc));
        z.mat("CSC::subtract", &dif, || csc.subtract(&b_csc));
        // canonical operands take another path
        let (ka, kb) = (canonical(&o.a), canonical(&o.b));
        z.mat("CSR + CSR, canonical", &sum, || ka.csr::<I>() + kb.csr::<I>());
        z.mat("CSR - CSR, canonical", &dif, || ka.csr::<I>() - kb.csr::<I>());
        z.mat("CSC + CSC, canonical", &sum, || ka.csc::<I>() + kb.csc::<I>());
        z.mat("CSC - CSC, canonical", &dif, || ka.csc::<I>() - kb.csc::<I>());
    }
    let reachable = reach(&o.a, &o.c);
    let (c_csr, c_csc) = (o.c.csr::<I>(), o.c.csc::<I>());
    z.run("csr_matmat_maxnnz", Some(nums([reachable])), || {
        nums::<T>([sparsetools::csr_matmat_maxnnz(nr, o.c.cols, csr.rowptr(), csr.colidx(), c_csr.rowptr(), c_csr.colidx())])
    });
    if fits(&[reachable]) {
        let prod = ma.mul(&mc);
        z.mat("CSR::mat_mat", &prod, || csr.mat_mat(&c_csr));
        z.mat("CSR * CSR", &prod, || &csr * &c_csr);
        z.mat("CSC::mat_mat", &prod, || csc.mat_mat(&c_csc));
        z.mat("CSC * CSC", &prod, || &csc * &c_csc);
        z.mat("CSC * CSR", &prod, || &csc * &c_csr);
    }
    let x = filler(nc, 11, 0);
    let y = ma.mul_vec(&x, &vec![T::zero(); nr]);
    z.run("CSR::mat_vec", Some(Out::Vec(y.clone())), || csr.mat_vec(&x));
    z.run("CSC::mat_vec", Some(Out::Vec(y.clone())), || csc.mat_vec(&x));
    z.run("CSR * vector", Some(Out::Vec(y.clone())), || &csr * &x);
    z.run("CSC * vector", Some(Out::Vec(y.clone())), || &csc * x.as_slice());
    z.run("coo_matvec", Some(Out::Vec(y.clone())), || {
        let mut y = vec![T::zero(); nr];
        sparsetools::coo_matvec(coo.nnz(), coo.rowidx(), coo.colidx(), coo.values(), &x, &mut y);
        y
    });
    let ms = ma.map(|_, _, v| v * o.s);
    z.mat("CSR * scalar", &ms, || &csr * o.s);
    z.mat("CSC * scalar", &ms, || &csc * o.s);
    let mn = ma.map(|_, _, v| -v);
    z.mat("-CSR", &mn, || -csr.clone());
    z.mat("-CSC", &mn, || -o.a.csc::<I>());
    z.mat("-Coo", &mn, || -coo.clone());
    let (fr, fc) = (filler(nr, 5, 0), filler(nc, 6, 0));
    z.mat("csr_scale_rows", &ma.map(|r, _, v| v * fr[r]), || {
        let mut v = csr.values().to_vec();
        sparsetools::csr_scale_rows(nr, nc, csr.rowptr(), csr.colidx(), &mut v, &fr);
        CSR::new(nr, nc, csr.rowptr().to_vec(), csr.colidx().to_vec(), v)
    });
    z.mat("csr_scale_columns", &ma.map(|_, c, v| v * fc[c]), || {
        let mut v = csr.values().to_vec();
        sparsetools::csr_scale_columns(nr, nc, csr.rowptr(), csr.colidx(), &mut v, &fc);
        CSR::new(nr, nc, csr.rowptr().to_vec(), csr.colidx().to_vec(), v)
    });
    // selection
    let ka = canonical(&o.a);
    let (k_csr, k_csc) = (ka.csr::<I>(), ka.csc::<I>());
    let (li, lj): (Vec<I>, Vec<I>) = (o.rows.iter().map(|&r| I::of(r)).collect(), o.cols.iter().map(|&c| I::of(c)).collect());
    let all_r: Vec<usize> = (0..nr).collect();
    let all_c: Vec<usize> = (0..nc).collect();
    let picked = |r: &[usize], c: &[usize]| {
        let times = |v: &[usize], n: usize| {
            let mut t = vec![0usize; n];
            v.iter().for_each(|&i| t[i] += 1);
            t
        };
        let (tr, tc) = (times(r, nr), times(c, nc));
        ka.t.iter().map(|e| tr[e.0] * tc[e.1]).sum::<usize>()
    };
    if fits(&[picked(&o.rows, &o.cols), o.rows.len(), o.cols.len()]) {
        let want = ma.select(&o.rows, &o.cols);
        z.mat("CSR::select", &want, || k_csr.select(Some(&li), Some(&lj)));
        z.mat("CSC::select", &want, || k_csc.select(Some(&li), Some(&lj)));
    }
    if nc * o.rows.len() <= 600_000 && fits(&[picked(&o.rows, &all_c), o.rows.len()]) {
        let want = ma.select(&o.rows, &all_c);
        z.mat("CSR::select rows", &want, || k_csr.select(Some(&li), None));
        z.mat("CSC::select rows", &want, || k_csc.select(Some(&li), None));
    }
    if nr * o.cols.len() <= 600_000 && fits(&[picked(&all_r, &o.cols), o.cols.len()]) {
        let want = ma.select(&all_r, &o.cols);
        z.mat("CSR::select columns", &want, || k_csr.select(None, Some(&lj)));
        z.mat("CSC::select columns", &want, || k_csc.select(None, Some(&lj)));
    }
    // selection looks at every requested position
    if nr * nc <= 600_000 {
        z.mat("CSR::select all", &ma, || k_csr.select(None, None));
        z.mat("CSC::select all", &ma, || k_csc.select(None, None));
    }
    // diagonals
    let dgl = ma.diag();
    z.run("CSR::diagonal", Some(Out::Vec(dgl.clone())), || csr.diagonal());
    z.run("CSC::diagonal", Some(Out::Vec(dgl.clone())), || csc.diagonal());
    z.run("Coo::diagonal", Some(Out::Vec(dgl.clone())), || coo.diagonal());
    let offsets: std::collections::BTreeSet<i64> = o.a.t.iter().map(|e| e.1 as i64 - e.0 as i64).collect();
    z.run("csr_count_diagonals", Some(nums([offsets.len()])), || {
        nums::<T>([sparsetools::csr_count_diagonals(nr, csr.rowptr(), csr.colidx())])
    });
    // stacking
    let (r_coo, d_coo) = (o.r.coo::<I>(), o.d.coo::<I>());
    let (rc, dr) = (o.r.cols, o.d.rows);
    if fits(&[nc + rc, n(&o.a) + n(&o.r)]) {
        let h = ma.hstack(&mr);
        z.mat("Coo::h_stack", &h, || Coo::h_stack(&coo, &r_coo));
        z.mat("CSR::h_stack", &h, || CSR::h_stack(&csr, &o.r.csr::<I>()));
        if fits(&[nc + 2 * rc, n(&o.a) + 2 * n(&o.r)]) {
            z.mat("Coo::h_stack3", &mr.hstack(&h), || Coo::h_stack3(&r_coo, &coo, &r_coo));
        }
    }
    if fits(&[nr + dr, n(&o.a) + n(&o.d)]) {
        let v = ma.vstack(&md);
        z.mat("Coo::v_stack", &v, || Coo::v_stack(&coo, &d_coo));
        if fits(&[nr + 2 * dr, n(&o.a) + 2 * n(&o.d)]) {
            z.mat("Coo::v_stack3", &md.vstack(&v), || Coo::v_stack3(&d_coo, &coo, &d_coo));
        }
    }
    if fits(&[nc + rc, nr + dr, n(&o.a) + n(&o.d) + n(&o.r)]) {
        let e = Ent::<T> { rows: dr, cols: rc, t: vec![], layout: 3 };
        let mut want = Model::empty(nr + dr, nc + rc);
        want.place(&ma, 0, 0);
        want.place(&mr, 0, nc);
        want.place(&md, nr, 0);
        z.mat("Coo::compose", &want, || Coo::compose([[&coo, &r_coo], [&d_coo, &e.coo::<I>()]]));
        z.mat("CSC::compose", &want, || CSC::compose(&csc, &o.r.csc::<I>(), &o.d.csc::<I>(), &e.csc::<I>()));
        let s = |rows: usize, cols: usize| Coo::<I, T>::with_size(rows, cols);
        if fits(&[nc + 2 * rc, nr + 2 * dr]) {
            let mut w = Model::empty(nr + 2 * dr, nc + 2 * rc);
            w.place(&want, 0, 0);
            z.mat("Coo::compose3", &w, || {
                Coo::compose3([
                    [&coo, &r_coo, &s(nr, rc)],
                    [&d_coo, &s(dr, rc), &s(dr, rc)],
                    [&s(dr, nc), &s(dr, rc), &s(dr, rc)],
                ])
            });
        }
    }
    // kernels on raw arrays, into arrays with stale content
    let (ra, rb) = (o.a.raw_csr::<I>(), o.b.raw_csr::<I>());
    let both = ra.j.len() + rb.j.len();
    if fits(&[sum.m.len()]) {
        let stored = |f: &dyn Fn(T, T) -> T| {
            let mut m = ma.zip(&mb, f);
            m.m.retain(|_, v| !v.same(T::zero()));
            m
        };
        type Kernel<I, T> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [T]);
        let kernels: [(&'static str, Kernel<I, T>, Model<T>); 3] = [
            ("csr_mul_csr", sparsetools::csr_mul_csr, stored(&|a, b| a * b)),
            ("csr_add_csr", sparsetools::csr_add_csr, stored(&|a, b| a + b)),
            ("csr_sub_csr", sparsetools::csr_sub_csr, stored(&|a, b| a - b)),
        ];
        for (name, f, want) in kernels {
            z.mat(name, &want, || {
                let (mut p, mut j, mut x) = (junk_i::<I>(nr + 1), junk_i::<I>(both), junk::<T>(both));
                f(nr, nc, &ra.p, &ra.j, &ra.x, &rb.p, &rb.j, &rb.x, &mut p, &mut j, &mut x);
                cut::<I, T>(nr, nc, p, j, x)
            });
        }
        let ne = ma.zip(&mb, |a, b| if a == b { T::zero() } else { T::one() });
        z.mat("csr_ne_csr", &ne, || {
            let (mut p, mut j, mut x) = (junk_i::<I>(nr + 1), junk_i::<I>(both), vec![true; both]);
            sparsetools::csr_ne_csr(nr, nc, &ra.p, &ra.j, &ra.x, &rb.p, &rb.j, &rb.x, &mut p, &mut j, &mut x);
            cut::<I, T>(nr, nc, p, j, x.into_iter().map(|b| if b { T::one() } else { T::zero() }).collect())
        });
        let uses = |a: T, b: T| if a == b { T::one() } else { a * b };
        z.mat("csr_binop_csr", &stored(&uses), || {
            let (mut p, mut j, mut x) = (junk_i::<I>(nr + 1), junk_i::<I>(both), junk::<T>(both));
            sparsetools::csr_binop_csr(nr, nc, &ra.p, &ra.j, &ra.x, &rb.p, &rb.j, &rb.x, &mut p, &mut j, &mut x, uses);
            cut::<I, T>(nr, nc, p, j, x)
        });
    }
    let nv = 3;
    if nc * nv <= 600_000 {
        let xs = filler(nc * nv, 21, 0);
        let y0 = vec![T::zero(); nr * nv];
        let want: Vec<T> = {
            let mut y = y0.clone();
            for (&(r, c), &v) in &ma.m {
                (0..nv).for_each(|k| y[r * nv + k] = y[r * nv + k] + v * xs[c * nv + k]);
            }
            y
        };
        z.run("csr_matvecs", Some(Out::Vec(want.clone())), || {
            let mut y = y0.clone();
            sparsetools::csr_matvecs(nr, nc, nv, &ra.p, &ra.j, &ra.x, &xs, &mut y);
            y
        });
        let rc = o.a.raw_csc::<I>();
        z.run("csc_matvecs", Some(Out::Vec(want)), || {
            let mut y = y0.clone();
            sparsetools::csc_matvecs(nr, nc, nv, &rc.p, &rc.j, &rc.x, &xs, &mut y);
            y
        });
    }
    {
        let k = o.k.unsigned_abs() as usize;
        let (r0, r1) = (k % (nr + 1), nr - k % (nr + 1) / 2);
        let (c0, c1) = (k / 3 % (nc + 1), nc);
        let (r0, r1) = (r0.min(r1), r0.max(r1));
        let mut want = Model::empty(r1 - r0, c1 - c0);
        ma.m.iter().filter(|(p, _)| p.0 >= r0 && p.0 < r1 && p.1 >= c0).for_each(|(p, &v)| {
            want.m.insert((p.0 - r0, p.1 - c0), v);
        });
        z.mat("get_csr_submatrix", &want, || {
            let (mut p, mut j, mut x) = (vec![], vec![], vec![]);
            sparsetools::get_csr_submatrix(nr, nc, &ra.p, &ra.j, &ra.x, I::of(r0), I::of(r1), I::of(c0), I::of(c1), &mut p, &mut j, &mut x);
            cut::<I, T>(r1 - r0, c1 - c0, p, j, x)
        });
        let line = |i: usize| (ra.p[i].us().unwrap(), ra.p[i + 1].us().unwrap());
        let gathered = |rows: &[usize]| -> Out<T> {
            let of = |i: &usize| (line(*i).0..line(*i).1).map(|q| Complex::new(ra.j[q].us().unwrap(), q));
            let v: Vec<Complex<usize>> = rows.iter().flat_map(of).collect();
            Out::Mat(Model { rows: v.len(), cols: nc, m: v.iter().enumerate().map(|(q, e)| ((q, e.re), ra.x[e.im])).collect() })
        };
        let listed = |j: &[I], x: &[T]| -> Out<T> {
            if j.len() != x.len() {
                return Out::Malformed(format!("{} indices and {} values", j.len(), x.len()));
            }
            let at = |q: usize| j[q].us().filter(|&c| c < nc);
            match (0..j.len()).map(at).collect::<Option<Vec<usize>>>() {
                Some(c) => Out::Mat(Model { rows: j.len(), cols: nc, m: c.into_iter().enumerate().map(|(q, c)| ((q, c), x[q])).collect() }),
                None => Out::Malformed("index outside the shape".into()),
            }
        };
        z.run("csr_row_index", Some(gathered(&o.rows)), || {
            let (mut j, mut x) = (vec![], vec![]);
            sparsetools::csr_row_index(o.rows.len(), &o.rows, &ra.p, &ra.j, &ra.x, &mut j, &mut x);
            listed(&j, &x)
        });
        let step = 1 + k % 4;
        z.run("csr_row_slice", Some(gathered(&(r0..r1).step_by(step).collect::<Vec<_>>())), || {
            let (mut j, mut x) = (vec![], vec![]);
            sparsetools::csr_row_slice(r0, r1, step, &ra.p, &ra.j, &ra.x, &mut j, &mut x);
            listed(&j, &x)
        });
        let mut per = vec![0usize; nc];
        o.a.t.iter().for_each(|e| per[e.1] += 1);
        let total: usize = o.cols.iter().map(|&c| per[c]).sum();
        if fits(&[o.cols.len(), total]) {
            z.mat("csr_column_index", &ma.select(&all_r, &o.cols), || {
                let mut order: Vec<usize> = (0..o.cols.len()).collect();
                order.sort_by_key(|&q| o.cols[q]);
                let order: Vec<I> = order.into_iter().map(I::of).collect();
                let (mut offs, mut p) = (vec![I::zero(); nc], junk_i::<I>(nr + 1));
                sparsetools::csr_column_index1(o.cols.len(), &o.cols, nr, nc, &ra.p, &ra.j, &mut offs, &mut p);
                let (mut j, mut x) = (junk_i::<I>(total), junk::<T>(total));
                sparsetools::csr_column_index2(&order, &offs, ra.j.len(), &ra.j, &ra.x, &mut j, &mut x);
                cut::<I, T>(nr, o.cols.len(), p, j, x)
            });
        }
        z.mat("csr_eliminate_zeros", &ma, || {
            let (mut p, mut j, mut x) = (ra.p.clone(), ra.j.clone(), ra.x.clone());
            sparsetools::csr_eliminate_zeros(nr, nc, &mut p, &mut j, &mut x);
            cut::<I, T>(nr, nc, p, j, x)
        });
    }
    // queries
    if o.k >= 0 && o.k as usize <= cap {
        let k = o.k as usize;
        let mut up = ma.clone();
        up.m.retain(|p, _| p.0 + k <= p.1);
        z.mat("Coo::upper", &up, || coo.upper(I::of(k)));
    }
    z.run("CSR::get", Some(Out::Vec(o.a.t.iter().map(|e| ma.get(e.0, e.1)).chain((0..nr.min(nc)).map(|i| ma.get(i, nc - 1 - i))).collect())), || {
        o.a.t.iter().map(|e| csr.get(I::of(e.0), I::of(e.1))).chain((0..nr.min(nc)).map(|i| csr.get(I::of(i), I::of(nc - 1 - i)))).collect::<Vec<T>>()
    });
    z.run("DoK::get", Some(Out::Vec(o.a.t.iter().map(|e| ma.get(e.0, e.1)).collect())), || {
        o.a.t.iter().map(|e| dok.get(I::of(e.0), I::of(e.1))).collect::<Vec<T>>()
    });
    z.mat("DoK::add", &ma.add(&mb), || {
        let mut x = o.a.dok::<I>();
        for e in &o.b.t {
            if let Err(e) = x.add(I::of(e.0), I::of(e.1), e.2) {
                return Err(e);
            }
        }
        Ok(x)
    });
    // text
    let listing = |e: &[(usize, usize, T)]| {
        let mut v: Vec<String> = e.iter().map(|e| format!("({}, {}) {}", e.0, e.1, e.2)).collect();
        v.sort();
        Out::Text(v)
    };
    z.run("CSR::to_string", Some(listing(&o.a.t)), || Out::<T>::Text(lines(&csr.to_string())));
    z.run("CSC::to_string", Some(listing(&o.a.t)), || Out::<T>::Text(lines(&csc.to_string())));
    z.run("Coo::to_string", Some(listing(&o.a.t)), || Out::<T>::Text(lines(&coo.to_string())));
    // graphs
    if nr == nc {
        let g = crate::graphs::Graph { n: nr, cols: nc, e: o.a.t.iter().map(|e| (e.0, e.1, 1)).collect() };
        // labels renumbered by first appearance
        let norm = |l: &[usize]| {
            let mut seen = std::collections::HashMap::new();
            l.iter().map(|x| { let k = seen.len(); *seen.entry(*x).or_insert(k) }).collect::<Vec<_>>()
        };
        let want = |l: Vec<usize>| {
            let l = norm(&l);
            let count = l.iter().max().map_or(0, |m| m + 1);
            Some(nums(std::iter::once(count).chain(l)))
        };
        let comp = |directed: bool, c: Connection| {
            connected_components(&csr, directed, c).map(|(k, l)| nums::<T>(std::iter::once(k).chain(norm(&l))))
        };
        z.run("connected_components weak", want(crate::graphs::weak(&g)), || comp(true, Connection::Weak));
        z.run("connected_components undirected", want(crate::graphs::weak(&g)), || comp(false, Connection::Strong));
        // the reference for strong components is quadratic
        let strong = if nr <= 600 { want(crate::graphs::strong(&g)) } else { None };
        z.run("connected_components strong", strong, || comp(true, Connection::Strong));
        if nr > 0 {
            let set = |adj: &[Vec<usize>], s: usize| {
                Some(nums(crate::graphs::reached(adj, s).iter().enumerate().filter(|x| *x.1).map(|x| x.0)))
            };
            let s = (o.k.unsigned_abs() as usize) % nr;
            let dfs = |directed: bool| {
                depth_first_order(&csr, s, directed).map(|(mut l, _)| {
                    l.sort();
                    nums::<T>(l)
                })
            };
            z.run("depth_first_order directed", set(&g.out(), s), || dfs(true));
            z.run("depth_first_order undirected", set(&g.undirected(), s), || dfs(false));
        }
        // symmetric pattern, and room for its entries
        let mut sym: Vec<(usize, usize, T)> = vec![];
        let mut seen = std::collections::HashSet::new();
        for e in &o.a.t {
            for (i, j) in [(e.0, e.1), (e.1, e.0)] {
                if seen.insert((i, j)) {
                    sym.push((i, j, T::one()));
                }
            }
        }
        if fits(&[sym.len()]) {
            let sg = Ent { rows: nr, cols: nc, t: sym, layout: 3 };
            let mut has = vec![false; nr];
            sg.t.iter().for_each(|e| has[e.0] = true);
            let w = crate::graphs::weak(&g);
            let mut seen = std::collections::HashMap::new();
            let l: Vec<i128> = (0..nr)
                .map(|i| {
                    if !has[i] {
                        return -2;
                    }
                    let k = seen.len();
                    *seen.entry(w[i]).or_insert(k) as i128
                })
                .collect();
            let want = Out::Num(std::iter::once(seen.len() as i128).chain(l).collect());
            let s = sg.csr::<I>();
            z.run("CSR::connected_components", Some(want.clone()), || {
                s.connected_components::<i64>().map(|(k, l)| {
                    Out::<T>::Num(std::iter::once(k.us().map_or(-1, |x| x as i128)).chain(l.into_iter().map(|x| x as i128)).collect())
                })
            });
            z.run("cs_graph_components", Some(want), || {
                let mut f = vec![0i64; nr];
                cs_graph_components::<I, T, i64>(nr, s.rowptr(), s.colidx(), &mut f).map(|k| {
                    Out::<T>::Num(std::iter::once(k.us().map_or(-1, |x| x as i128)).chain(f.iter().map(|&x| x as i128)).collect())
                })
            });
        }
    }
    z.v
}

/// A matrix from the used part of output arrays.
fn cut<I: Ix, T: Ts>(nr: usize, nc: usize, p: Vec<I>, mut j: Vec<I>, mut x: Vec<T>) -> Out<T> {
    let n = match p.last().and_then(|n| n.us()) {
        Some(n) if n <= j.len() && n <= x.len() => n,
        n => return Out::Malformed(format!("last pointer {n:?}, room for {} indices and {} values", j.len(), x.len())),
    };
    j.truncate(n);
    x.truncate(n);
    match read_compressed("result", nr, nc, n, &p, &j, &x) {
        Ok(t) => Out::Mat(Model::of(&Ent { rows: nr, cols: nc, t, layout: 0 })),
        Err(e) => Out::Malformed(e),
    }
}

/// The same matrix in canonical storage.
pub fn canonical<T: Ts>(e: &Ent<T>) -> Ent<T> {
    Ent { rows: e.rows, cols: e.cols, t: Model::of(e).m.iter().map(|(&(r, c), &v)| (r, c, v)).collect(), layout: 3 }
}

impl<I: Ix> See<Complex<f64>> for (CSR<I, f64>, ()) {
    fn see(self) -> Out<Complex<f64>> {
        match obs_csr(&self.0, "") {
            Ok(o) => Out::Real(o.m),
            Err(e) => Out::Malformed(e),
        }
    }
}
impl<I: Ix> See<Complex<f64>> for (CSC<I, f64>, ()) {
    fn see(self) -> Out<Complex<f64>> {
        match obs_csc(&self.0, "") {
            Ok(o) => Out::Real(o.m),
            Err(e) => Out::Malformed(e),
        }
    }
}
impl<I: Ix> See<Complex<f64>> for (Coo<I, f64>, ()) {
    fn see(self) -> Out<Complex<f64>> {
        match obs_coo(&self.0, "") {
            Ok(o) => Out::Real(o.m),
            Err(e) => Out::Malformed(e),
        }
    }
}
/// The operations only complex matrices have.
pub fn complex_battery<I: Ix>(a: &Ent<Complex<f64>>) -> Vec<Item<Complex<f64>>> {
    type C = Complex<f64>;
    let mut z = B { v: vec![], at: 0, only: 0..usize::MAX };
    let m = Model::of(a);
    let part = |f: fn(C) -> f64| {
        Some(Out::Real(Model { rows: m.rows, cols: m.cols, m: m.m.iter().map(|(&k, &v)| (k, f(v))).collect() }))
    };
    let cj = m.map(|_, _, v| v.conj());
    let (csr, csc, coo) = (a.csr::<I>(), a.csc::<I>(), a.coo::<I>());
    z.mat("CSR::conj", &cj, || csr.conj());
    z.mat("CSC::conj", &cj, || csc.conj());
    z.mat("Coo::conj", &cj, || coo.conj());
    z.mat("CSR::h", &cj.t(), || csr.h());
    z.mat("CSC::h", &cj.t(), || csc.h());
    z.mat("Coo::h", &cj.t(), || coo.h());
    z.run("CSR::real", part(|v| v.re), || (csr.real(), ()));
    z.run("CSR::imag", part(|v| v.im), || (csr.imag(), ()));
    z.run("CSC::real", part(|v| v.re), || (csc.real(), ()));
    z.run("CSC::imag", part(|v| v.im), || (csc.imag(), ()));
    z.run("Coo::real", part(|v| v.re), || (coo.real(), ()));
    z.run("Coo::imag", part(|v| v.im), || (coo.imag(), ()));
    let re = csr.real();
    z.mat("CSR::with_real", &m.map(|_, _, v| C::new(v.re, 0.0)), || <CSR<I, C> as CCSR<I, f64, C>>::with_real(&re));
    z.mat("CSR::with_imag", &m.map(|_, _, v| C::new(0.0, v.re)), || <CSR<I, C> as CCSR<I, f64, C>>::with_imag(&re));
    let s = C::new(3.0, -2.0);
    z.mat("scalar * CSR", &m.map(|_, _, v| s * v), || s * &csr);
    z.mat("scalar * CSC", &m.map(|_, _, v| s * v), || s * &csc);
    z.v
}

/// Whether two results agree.
/// Results whose storage order is determined: sorted, or each column or row in the order of the source.
const ORDERED: [&str; 16] = [
    "CSR::to_csc", "CSC::to_csr", "Coo::to_csr", "Coo::to_csc", "DoK::to_csr", "DoK::to_csc", "CSR::sort_indexes", "CSC::sort_indexes",
    "CSR::sum_duplicates", "CSC::sum_duplicates", "CSR + CSR, canonical", "CSR - CSR, canonical", "CSC + CSC, canonical",
    "CSC - CSC, canonical", "CSR::from_dense", "CSC::from_dense",
];
/// Equal stored patterns.
pub fn same_form(name: &str, a: &[(usize, usize)], b: &[(usize, usize)]) -> Result<(), String> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    if !ORDERED.contains(&name) {
        a.sort();
        b.sort();
    }
    ensure(a == b, || format!("stores {} and {}", short(&a), short(&b)))
}
pub fn agree<T: Ts>(a: &Out<T>, b: &Out<T>, what: &str) -> Result<(), String> {
    match (a, b) {
        (Out::Mat(x), Out::Mat(y)) => x.same(y, what),
        (Out::Cplx(x), Out::Cplx(y)) => x.same(y, what),
        (Out::Real(x), Out::Real(y)) => x.same(y, what),
        (Out::Vec(x), Out::Vec(y)) => same_vec(x, y, what),
        (Out::Num(x), Out::Num(y)) if x == y => Ok(()),
        (Out::Text(x), Out::Text(y)) if x == y => Ok(()),
        (Out::Failed(_), Out::Failed(_)) => Ok(()),
        (a, b) => Err(format!("{what}: {}, expected {}", show(a), show(b))),
    }
}
pub fn show<T: Ts>(o: &Out<T>) -> String {
    let s = match o {
        Out::Mat(m) => format!("{}x{} {:?}", m.rows, m.cols, m.m),
        Out::Cplx(m) => format!("{}x{} {:?}", m.rows, m.cols, m.m),
        Out::Real(m) => format!("{}x{} {:?}", m.rows, m.cols, m.m),
        Out::Vec(v) => format!("{v:?}"),
        Out::Num(v) => format!("{v:?}"),
        Out::Text(v) => format!("{v:?}"),
        Out::Failed(e) => format!("failure ({e})"),
        Out::Malformed(e) => format!("malformed ({e})"),
    };
    if s.len() > 300 {
        s.chars().take(300).collect::<String>() + ".."
    } else {
        s
    }
}

/// Description of a set of operands.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OpSpec {
    pub a: MatSpec,
    pub b: EntSpec,
    pub rel: u8,
    pub c_cols: u16,
    pub c: EntSpec,
    pub r_cols: u16,
    pub r: EntSpec,
    pub d_rows: u16,
    pub d: EntSpec,
    pub s: (i16, i16),
    pub k: i16,
    pub rows: Vec<u16>,
    pub cols: Vec<u16>,
}
pub fn op_spec(p: &Prof, square: bool) -> BoxedStrategy<OpSpec> {
    let e = |p: &Prof| ent_spec(p.nmin, p.nmax, false);
    let list = || prop::collection::vec(any::<u16>(), 0..8);
    (
        (mat_spec(p, false), any::<bool>()),
        (e(p), rel()),
        (dimension(p), e(p)),
        (dimension(p), e(p)),
        (dimension(p), e(p)),
        val(false),
        prop_oneof![3 => -3i16..=6, 1 => 0i16..300],
        (list(), list()),
    )
        .prop_map(move |((mut a, sq), (b, rel), (c_cols, c), (r_cols, r), (d_rows, d), s, k, (rows, cols))| {
            if square && sq {
                a.cols = a.rows;
            }
            OpSpec { a, b, rel, c_cols, c, r_cols, r, d_rows, d, s, k, rows, cols }
        })
        .boxed()
}
/// Realises operands whose dimensions and entry counts are at most `cap`.
pub fn operands<T: Ts>(s: &OpSpec, exp: i32, cap: usize) -> Operands<T> {
    let dm = |x: u16| (x as usize).min(cap);
    let (nr, nc) = (dm(s.a.rows), dm(s.a.cols));
    let a: Ent<T> = realize(nr, nc, &s.a.e, exp, cap);
    let b = realize(nr, nc, &relate(&s.a.e, &s.b, s.rel), exp, cap);
    let c = realize(nc, dm(s.c_cols), &s.c, exp, cap);
    let r = realize(nr, dm(s.r_cols), &s.r, exp, cap);
    let d = realize(dm(s.d_rows), nc, &s.d, exp, cap);
    let list = |v: &[u16], n: usize| if n == 0 { vec![] } else { v.iter().map(|&x| x as usize % n).collect() };
    Operands { a, b, c, r, d, s: T::mk(s.s.0, s.s.1, 0), real: false, small: false, k: s.k as i64, rows: list(&s.rows, nr), cols: list(&s.cols, nc) }
}
