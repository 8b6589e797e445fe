//! Conversion between formats preserves the matrix.
use crate::prelude::*;
use crate::with_types;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    start: u8,
    chain: Vec<u8>,
    knob: u16,
}

fn strategy() -> BoxedStrategy<Case> {
    let mut profs = profiles();
    profs.push(Prof { w: 2, ..HUGE });
    over_profiles(&profs, |p| {
        (ty(), exp(), prop_oneof![mat_spec(p, false), mat_spec(p, true)], 0u8..4, prop::collection::vec(0u8..12, 1..7), any::<u16>())
            .prop_map(|(ty, exp, a, start, chain, knob)| Case { ty, exp, a, start, chain, knob })
            .boxed()
    })
}

pub fn prop() -> Prop<Case> {
    Prop {
        id: "C01",
        rule: "random matrix (shape, position pattern, storage order, duplicates, explicit zeros, special values) of a random index/scalar type pair, converted along a random chain of formats and through every conversion kernel; non-trivial: at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["sums of duplicates are generated to be exact in the scalar type"],
        quick: 60_000,
        thorough_factor: 20,
        strategy,
        check,
    }
}

enum M<I, T> {
    Coo(Coo<I, T>),
    Csr(CSR<I, T>),
    Csc(CSC<I, T>),
    Dok(DoK<I, T>),
    Dense(Vec<Vec<T>>),
}

const DENSE_MAX: usize = 2_000_000;
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}

/// Observed entries; dense has no stored entries.
fn look<I: Ix, T: Ts>(m: &M<I, T>, what: &str) -> Result<(Option<Vec<(usize, usize, T)>>, Model<T>), String> {
    Ok(match m {
        M::Coo(a) => obs_coo(a, what).map(|o| (Some(o.t), o.m))?,
        M::Csr(a) => obs_csr(a, what).map(|o| (Some(o.t), o.m))?,
        M::Csc(a) => obs_csc(a, what).map(|o| (Some(o.t), o.m))?,
        M::Dok(a) => obs_dok(a, what).map(|o| (Some(o.t), o.m))?,
        M::Dense(d) => (None, Model::from_dense(d)),
    })
}

fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    kernels::<I, T>(&e, c.knob, c.exp as i32)?;
    let mut want = Model::of(&e);
    let mut m: M<I, T> = match c.start % 4 {
        0 => M::Coo(e.coo()),
        1 => M::Csr(e.csr()),
        2 => M::Csc(e.csc()),
        _ => {
            // NaN counts as different from zero, so only finite matrices survive `set` unchanged
            M::Dok(e.dok())
        }
    };
    let (_, first) = look(&m, "source")?;
    first.same(&want, "source")?;
    for (i, &s) in c.chain.iter().enumerate() {
        let (stored, _) = look(&m, "source of the step")?;
        // too large to be dense
        let s = match (&m, s % 4) {
            (M::Coo(_) | M::Csr(_) | M::Csc(_), 2) | (M::Dok(_), 3) if e.rows * e.cols > DENSE_MAX => 0,
            (_, s) => s,
        };
        let (name, next, rule): (&'static str, M<I, T>, u8) = match (&m, s) {
            // rule: 1 one entry per distinct stored position, 2 every stored entry carried over, 0 elements only
            (M::Coo(a), 0) | (M::Coo(a), 3) => ("Coo::to_csr", { op("Coo::to_csr"); M::Csr(a.to_csr()) }, 1),
            (M::Coo(a), 1) => ("Coo::to_csc", { op("Coo::to_csc"); M::Csc(a.to_csc()) }, 1),
            (M::Coo(a), _) => ("Coo::to_dense", { op("Coo::to_dense"); M::Dense(a.to_dense()) }, 0),
            (M::Csr(a), 0) => ("CSR::to_coo", { op("CSR::to_coo"); M::Coo(a.to_coo()) }, 2),
            (M::Csr(a), 1) | (M::Csr(a), 3) => ("CSR::to_csc", { op("CSR::to_csc"); M::Csc(a.to_csc()) }, 2),
            (M::Csr(a), _) => {
                op("csr_todense");
                let mut d = vec![vec![T::zero(); a.cols()]; a.rows()];
                csr_todense(a.rows(), a.cols(), a.rowptr(), a.colidx(), a.values(), &mut d);
                ("csr_todense", M::Dense(d), 0)
            }
            (M::Csc(a), 0) => ("CSC::to_coo", { op("CSC::to_coo"); M::Coo(a.to_coo()) }, 2),
            (M::Csc(a), 1) | (M::Csc(a), 3) => ("CSC::to_csr", { op("CSC::to_csr"); M::Csr(a.to_csr()) }, 2),
            (M::Csc(a), _) => ("CSC::to_dense", { op("CSC::to_dense"); M::Dense(a.to_dense()) }, 0),
            (M::Dok(a), 0) => ("DoK::to_coo", { op("DoK::to_coo"); M::Coo(a.to_coo()) }, 2),
            (M::Dok(a), 1) => ("DoK::to_csr", { op("DoK::to_csr"); M::Csr(a.to_csr()) }, 2),
            (M::Dok(a), 2) => ("DoK::to_csc", { op("DoK::to_csc"); M::Csc(a.to_csc()) }, 2),
            (M::Dok(a), _) => ("DoK::to_dense", { op("DoK::to_dense"); M::Dense(a.to_dense()) }, 0),
            (M::Dense(d), k) => {
                if d.is_empty() {
                    want = Model::empty(0, 0);
                }
                match k {
                    0 => ("Coo::from_dense", { op("Coo::from_dense"); M::Coo(Coo::from_dense(d)) }, 0),
                    1 => ("CSR::from_dense", { op("CSR::from_dense"); M::Csr(CSR::from_dense(d)) }, 0),
                    2 => ("CSC::from_dense", { op("CSC::from_dense"); M::Csc(CSC::from_dense(d)) }, 0),
                    _ => {
                        op("DoK::from_dense");
                        let rows: Vec<&[T]> = d.iter().map(|r| r.as_slice()).collect();
                        ("DoK::from_dense", M::Dok(DoK::from_dense(&rows)), 0)
                    }
                }
            }
        };
        let what = format!("step {i} {name}");
        if let M::Dense(d) = &next {
            // from_dense of nothing cannot know the number of columns
            ensure(d.len() == want.rows && d.iter().all(|r| r.len() == want.cols), || format!("{what}: dense array has a wrong shape"))?;
            let mut got = Model::from_dense(d);
            got.cols = want.cols;
            got.same(&want, &what)?;
        } else {
            let (got, gm) = look(&next, &what)?;
            gm.same(&want, &what)?;
            if let (Some(src), Some(got)) = (&stored, &got) {
                match rule {
                    2 => same_bag(got, src, &what)?,
                    1 => {
                        no_dups(got, &what)?;
                        let a: std::collections::BTreeSet<_> = got.iter().map(|x| (x.0, x.1)).collect();
                        let b: std::collections::BTreeSet<_> = src.iter().map(|x| (x.0, x.1)).collect();
                        ensure(a == b, || format!("{what}: {} distinct positions stored, expected {}", a.len(), b.len()))?;
                    }
                    _ => {}
                }
            }
        }
        m = next;
    }
    let cov = Cov::new(busy(&e)).class_if(c.chain.len() >= 3, "chain of 3 or more");
    Ok(mat_classes(cov, c.ty, &e))
}

fn kernels<I: Ix, T: Ts>(e: &Ent<T>, knob: u16, exp: i32) -> Result<(), String> {
    let (nr, nc) = (e.rows, e.cols);
    let n = e.t.len();
    let want = &e.t;
    let csr = e.raw_csr::<I>();
    let csc = e.raw_csc::<I>();

    op("csr_tocsc");
    let (mut p, mut j, mut x) = (junk_i::<I>(nc + 1), junk_i::<I>(n), junk::<T>(n));
    csr_tocsc(nr, nc, &csr.p, &csr.j, &csr.x, &mut p, &mut j, &mut x);
    let t = read_compressed("csr_tocsc", nc, nr, n, &p, &j, &x)?;
    same_bag(&t.into_iter().map(|(c, r, v)| (r, c, v)).collect::<Vec<_>>(), want, "csr_tocsc")?;

    op("csc_tocsr");
    let (mut p, mut j, mut x) = (junk_i::<I>(nr + 1), junk_i::<I>(n), junk::<T>(n));
    csc_tocsr(nr, nc, &csc.p, &csc.j, &csc.x, &mut p, &mut j, &mut x);
    same_bag(&read_compressed("csc_tocsr", nr, nc, n, &p, &j, &x)?, want, "csc_tocsr")?;

    op("coo_tocsr");
    let ri: Vec<I> = e.t.iter().map(|t| I::of(t.0)).collect();
    let ci: Vec<I> = e.t.iter().map(|t| I::of(t.1)).collect();
    let xs: Vec<T> = e.t.iter().map(|t| t.2).collect();
    let (mut p, mut j, mut x) = (junk_i::<I>(nr + 1), junk_i::<I>(n), junk::<T>(n));
    coo_tocsr(nr, nc, n, &ri, &ci, &xs, &mut p, &mut j, &mut x);
    same_bag(&read_compressed("coo_tocsr", nr, nc, n, &p, &j, &x)?, want, "coo_tocsr")?;

    op("csr_tocoo");
    let (mut i, mut j, mut x) = (junk_i::<I>(n), junk_i::<I>(n), junk::<T>(n));
    csr_tocoo(nr, nc, &csr.p, &csr.j, &csr.x, &mut i, &mut j, &mut x);
    let o = obs_coo(&Coo::new(nr, nc, i, j, x).map_err(|e| e.to_string())?, "csr_tocoo")?;
    same_bag(&o.t, want, "csr_tocoo")?;

    op("expandptr");
    let mut i = junk_i::<I>(n);
    expandptr(nr, &csr.p, &mut i);
    let o = obs_coo(&Coo::new(nr, nc, i, csr.j.clone(), csr.x.clone()).map_err(|e| e.to_string())?, "expandptr")?;
    same_bag(&o.t, want, "expandptr")?;

    op("");
    if nr * nc > DENSE_MAX {
        return Ok(());
    }
    // dense output accumulates
    let m = Model::of(e);
    let pre: Vec<T> = filler(nr * nc, knob, exp);
    for fortran in [false, true] {
        op("coo_todense");
        let mut d = pre.clone();
        coo_todense(nr, nc, n, &ri, &ci, &xs, &mut d, fortran);
        let mut want = pre.clone();
        for (&(r, c), &v) in &m.m {
            let k = if fortran { c * nr + r } else { r * nc + c };
            want[k] = want[k] + v;
        }
        same_vec(&d, &want, if fortran { "coo_todense column-major" } else { "coo_todense" })?;
    }
    op("csr_todense");
    let mut d: Vec<Vec<T>> = (0..nr).map(|r| pre[r * nc..(r + 1) * nc].to_vec()).collect();
    let mut want = d.clone();
    csr_todense(nr, nc, &csr.p, &csr.j, &csr.x, &mut d);
    for (&(r, c), &v) in &m.m {
        want[r][c] = want[r][c] + v;
    }
    for r in 0..nr {
        same_vec(&d[r], &want[r], "csr_todense")?;
    }
    op("");
    Ok(())
}
