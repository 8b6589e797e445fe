//! Importing dense data and eliminating zeros drop exactly the zeros.
use crate::prelude::*;
use crate::with_types;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    rows: u16,
    cols: u16,
    /// share of zeros: a cell is zero when its draw falls below
    zeros: u8,
    vals: Vec<(i16, i16)>,
    slack: u8,
}
fn strategy() -> BoxedStrategy<Case> {
    let vals = || prop::collection::vec(prop_oneof![1 => Just((0i16, 0i16)), 4 => val(true), 2 => val(false)], 1..40);
    over_profiles(&[TINY, SMALL, Prof { w: 20, ..MEDIUM }, Prof { w: 3, ..LIMIT }, Prof { w: 2, ..LARGE }, HUGE, DICT], move |p| {
        (ty(), exp(), mat_spec(p, true), dimension(p), dimension(p), 0u8..10, vals(), 0u8..3)
            .prop_map(|(ty, exp, a, rows, cols, zeros, vals, slack)| Case { ty, exp, a, rows, cols, zeros, vals, slack })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C26",
        rule: "random dense arrays (no rows, no columns, all zero, all non-zero included) imported into the four formats; random compressed data in random storage order with duplicates and many stored zeros; values include both zeros of a float, the smallest subnormal, infinities and NaN; non-trivial: a zero is dropped and a non-zero kept, in the import and in the elimination",
        assumptions: &["both zeros of a float count as zero, NaN does not"],
        quick: 120_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    // import
    let (nr, mut nc) = (dim::<I>(c.rows), dim::<I>(c.cols));
    if nr == 0 {
        nc = 0; // an array without rows has no width
    }
    let mut dense = vec![vec![T::zero(); nc]; nr];
    let mut want = vec![];
    let mut dropped = false;
    for i in 0..nr {
        for j in 0..nc {
            let k = i * nc + j;
            let h = (k as u64 + 7).wrapping_mul(0x9E3779B97F4A7C15) >> 40;
            let (re, im) = c.vals[k % c.vals.len()];
            let v = T::mk(re, im, c.exp as i32);
            if h % 10 >= c.zeros as u64 && want.len() < I::max_us() {
                dense[i][j] = v;
            }
            let v = dense[i][j];
            if v.same(T::zero()) {
                dropped = true;
            } else {
                want.push((i, j, v));
            }
        }
    }
    let imported = |o: Obs<T>, what: &str| -> Result<(), String> {
        ensure(o.m.shape() == (nr, nc), || format!("{what}: shape {:?}, expected {nr}x{nc}", o.m.shape()))?;
        same_bag(&o.t, &want, what)
    };
    op("CSR::from_dense");
    let o = obs_csr(&CSR::<I, T>::from_dense(&dense), "CSR::from_dense")?;
    strictly_sorted(&o.t, true, "CSR::from_dense")?;
    imported(o, "CSR::from_dense")?;
    op("CSC::from_dense");
    let o = obs_csc(&CSC::<I, T>::from_dense(&dense), "CSC::from_dense")?;
    strictly_sorted(&o.t, false, "CSC::from_dense")?;
    imported(o, "CSC::from_dense")?;
    op("Coo::from_dense");
    imported(obs_coo(&Coo::<I, T>::from_dense(&dense), "Coo::from_dense")?, "Coo::from_dense")?;
    op("DoK::from_dense");
    let rows: Vec<&[T]> = dense.iter().map(|r| &r[..]).collect();
    imported(obs_dok(&DoK::<I, T>::from_dense(&rows), "DoK::from_dense")?, "DoK::from_dense")?;

    // elimination
    let mut e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    for (k, t) in e.t.iter_mut().enumerate() {
        if ((k as u64 + 3).wrapping_mul(0x9E3779B97F4A7C15) >> 40) % 10 < c.zeros as u64 {
            t.2 = T::mk(if k % 2 == 0 { 0 } else { S_NEGZERO }, 0, 0);
        }
    }
    let mut eliminated = (false, false);
    for by_row in [true, false] {
        let r = if by_row { e.raw_csr::<I>() } else { e.raw_csc::<I>() };
        let src = read_compressed("source", r.n_major, r.n_minor, r.j.len(), &r.p, &r.j, &r.x)?;
        let kept: Vec<(usize, usize, T)> = src.iter().copied().filter(|t| !t.2.same(T::zero())).collect();
        eliminated.0 |= kept.len() < src.len();
        eliminated.1 |= !kept.is_empty();
        let (mut p, mut j, mut x) = (r.p.clone(), r.j.clone(), r.x.clone());
        // space behind the last entry is not an entry
        j.extend(junk_i::<I>(c.slack as usize));
        x.extend(junk::<T>(c.slack as usize));
        op("csr_eliminate_zeros");
        csr_eliminate_zeros(r.n_major, r.n_minor, &mut p, &mut j, &mut x);
        let n = kept.len();
        ensure(p.last().and_then(|l| l.us()) == Some(n), || format!("csr_eliminate_zeros: last pointer {:?}, expected {n}", p.last()))?;
        let got = read_compressed("csr_eliminate_zeros", r.n_major, r.n_minor, n, &p, &j[..n], &x[..n])?;
        same_seq(&got, &kept, "csr_eliminate_zeros")?;
    }
    op("");
    let cov = Cov::new(dropped && !want.is_empty() && eliminated == (true, true))
        .class_if(nr == 0, "no rows")
        .class_if(nr > 0 && nc == 0, "no columns")
        .class_if(want.is_empty() && nr * nc > 0, "all zero")
        .class_if(!dropped && nr * nc > 0, "no zero")
        .class_if(want.iter().any(|t| t.2.mag() > 0.0 && t.2.mag() < 1e-40), "subnormal value")
        .class_if(want.iter().any(|t| t.2.mag().is_nan()), "NaN");
    Ok(mat_classes(cov, c.ty, &e))
}
