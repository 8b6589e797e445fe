//! Element lookup returns the element.
use crate::prelude::*;
use crate::with_types;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    at: Vec<(u16, u16)>,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (ty(), exp(), prop_oneof![3 => mat_spec(p, false), 1 => mat_spec(p, true)], prop::collection::vec((any::<u16>(), any::<u16>()), 1..20))
            .prop_map(|(ty, exp, a, at)| Case { ty, exp, a, at })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C22",
        rule: "random matrix in random storage order with duplicates, zeros and special values; every stored position and random further positions (every position of small matrices) looked up in the compressed-row matrix, in results of conversions and in the dictionary matrix; non-trivial: at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["sums of duplicates are exact in the scalar type"],
        quick: 160_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    let m = Model::of(&e);
    let mut at: Vec<(usize, usize)> = m.m.keys().copied().collect();
    if e.rows * e.cols <= 150 {
        at = (0..e.rows).flat_map(|r| (0..e.cols).map(move |k| (r, k))).collect();
    } else {
        at.extend(c.at.iter().map(|x| (spread(x.0, e.rows), spread(x.1, e.cols))));
    }
    // long rows are searched from their start
    if at.len() > 3000 && e.cols >= HUGE_FROM {
        let n = at.len();
        at = at.into_iter().enumerate().filter(|x| x.0 % (n / 1000) == 0 || x.0 + 300 > n || x.1 .1.abs_diff(65536) < 50).map(|x| x.1).collect();
    }
    op("conversions");
    let a = e.csr::<I>();
    let b = e.csc::<I>().to_csr();
    let s = e.coo::<I>().to_csr();
    let d = e.dok::<I>();
    op("get");
    let mut holes = 0;
    for &(r, k) in &at {
        let w = m.get(r, k);
        holes += !m.m.contains_key(&(r, k)) as usize;
        for (v, what) in [
            (a.get(I::of(r), I::of(k)), "CSR::get"),
            (b.get(I::of(r), I::of(k)), "CSC::to_csr().get"),
            (s.get(I::of(r), I::of(k)), "Coo::to_csr().get"),
            (d.get(I::of(r), I::of(k)), "DoK::get"),
        ] {
            ensure(v.same(w), || format!("{what}({r}, {k}) is {v:?}, expected {w:?}"))?;
        }
    }
    op("");
    let cov = Cov::new(busy(&e)).class_if(holes > 0, "positions without entries looked up");
    Ok(mat_classes(cov, c.ty, &e))
}
