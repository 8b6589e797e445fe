pub use crate::model::*;
pub use crate::runner::{catch, op, Check, Cov, Prop};
pub use crate::spec::*;
pub use crate::types::*;
pub use num_complex::Complex;
pub use proptest::prelude::*;
pub use serde::{Deserialize, Serialize};
pub use sparsetools::coo::Coo;
pub use sparsetools::csc::CSC;
pub use sparsetools::csr::CSR;
pub use sparsetools::dok::DoK;
pub use sparsetools::{Integer, Nonzero, Scalar};

/// Stale content of an output array.
pub fn junk_i<I: Ix>(n: usize) -> Vec<I> {
    vec![I::max_value(); n]
}
pub fn junk<T: Ts>(n: usize) -> Vec<T> {
    vec![T::mk(77, 5, 0); n]
}
/// Deterministic small values.
pub fn filler<T: Ts>(n: usize, knob: u16, exp: i32) -> Vec<T> {
    (0..n)
        .map(|i| {
            let h = (i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15 ^ ((knob as u64) << 20)) >> 33;
            T::mk((h % 9) as i16 - 4, (h / 16 % 9) as i16 - 4, exp)
        })
        .collect()
}
/// `filler` without zeros.
pub fn filler_nz<T: Ts>(n: usize, knob: u16, exp: i32) -> Vec<T> {
    filler::<T>(n, knob, exp).into_iter().map(|v| if v.same(T::zero()) { T::mk(5, 1, exp) } else { v }).collect()
}
pub fn ensure(b: bool, what: impl FnOnce() -> String) -> Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(what())
    }
}
/// Expects `Ok`.
pub fn okay<R, E: std::fmt::Display>(r: Result<R, E>, what: &str) -> Result<R, String> {
    r.map_err(|e| format!("{what}: returned an error: {e}"))
}
/// Classes every matrix check records.
pub fn mat_classes<T: Ts>(mut cov: Cov, ty: u8, e: &Ent<T>) -> Cov {
    cov.classes.push(format!("type {}", TYPE_NAMES[(ty % N_TYPES) as usize]));
    cov.classes.push(
        match e.layout {
            0 => "layout arbitrary",
            1 => "layout unique unsorted",
            2 => "layout sorted",
            _ => "layout canonical",
        }
        .into(),
    );
    let c = |b: bool, s: &str, cov: &mut Cov| {
        if b {
            cov.classes.push(s.into())
        }
    };
    c(e.has_dups(), "has duplicates", &mut cov);
    c(e.t.iter().any(|x| x.2.same(T::zero())), "stores a zero", &mut cov);
    c(e.rows == 0 || e.cols == 0, "zero dimension", &mut cov);
    c(e.t.is_empty(), "no entries", &mut cov);
    c(e.rows.max(e.cols) > 65535, "a dimension beyond 65535", &mut cov);
    c(e.t.len() > 65535, "more than 65535 entries", &mut cov);
    c(e.t.len() >= 64, "64 or more entries", &mut cov);
    if e.rows > 0 {
        let mut seen = vec![false; e.rows];
        e.t.iter().for_each(|x| seen[x.0] = true);
        c(!seen[0], "leading row empty", &mut cov);
        c(!seen[e.rows - 1], "trailing row empty", &mut cov);
    }
    cov
}
/// Non-trivial in the sense most checks use.
pub fn busy<T: Ts>(e: &Ent<T>) -> bool {
    e.rows >= 2 && e.cols >= 2 && e.t.len() >= 2
}
pub const BUSY: &str = "at least 2 rows, 2 columns and 2 stored entries";

/// Two operands of one shape whose entries together fit the index type.
pub fn pair<I: Ix, T: Ts>(a: &MatSpec, b: &EntSpec, rel: u8, exp: i32) -> (Ent<T>, Ent<T>) {
    let (r, c) = (dim::<I>(a.rows), dim::<I>(a.cols));
    let cap = I::max_us();
    let ea: Ent<T> = realize(r, c, &a.e, exp, if cap < 1000 && rel != 4 { cap / 2 } else { cap });
    let eb: Ent<T> = realize(r, c, &relate(&a.e, b, rel), exp, cap - ea.t.len());
    (ea, eb)
}
/// Positions of A*B reachable through stored entries.
pub fn reach<T: Ts>(a: &Ent<T>, b: &Ent<T>) -> usize {
    let mut rows: std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>> = Default::default();
    for t in &b.t {
        rows.entry(t.0).or_default().insert(t.1);
    }
    let mut s = std::collections::HashSet::new();
    for t in &a.t {
        if let Some(cs) = rows.get(&t.1) {
            s.extend(cs.iter().map(|&c| (t.0, c)));
        }
    }
    s.len()
}
/// Shortens the operands until the product fits the index type.
/// Also bounds the work: an outer product of two huge vectors is out of reach.
pub fn fit_product<I: Ix, T: Ts>(a: &mut Ent<T>, b: &mut Ent<T>) -> usize {
    let terms = |a: &Ent<T>, b: &Ent<T>| -> usize {
        let mut n = vec![0usize; a.cols];
        b.t.iter().for_each(|t| n[t.0] += 1);
        a.t.iter().map(|t| n[t.1]).sum()
    };
    while terms(a, b) > 1_000_000 {
        let x = if a.t.len() >= b.t.len() { &mut a.t } else { &mut b.t };
        x.truncate(x.len() / 2);
    }
    loop {
        let r = reach(a, b);
        if r <= I::max_us() {
            return r;
        }
        if a.t.len() >= b.t.len() {
            a.t.truncate(a.t.len() * 4 / 5);
        } else {
            b.t.truncate(b.t.len() * 4 / 5);
        }
    }
}
