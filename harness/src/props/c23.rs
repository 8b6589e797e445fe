//! Upper-triangle extraction keeps exactly the entries on or above k.
use crate::prelude::*;
use crate::with_types;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    ks: Vec<(u8, i16)>,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (ty(), exp(), prop_oneof![3 => mat_spec(p, false), 1 => mat_spec(p, true)], prop::collection::vec(offset_or_dict(1, (0u8..7, -20i16..=20).boxed()), 1..6))
            .prop_map(|(ty, exp, a, ks)| Case { ty, exp, a, ks })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C23",
        rule: "random matrix in random storage order with duplicates and zeros; offsets zero, small, near the shape's edges and at both ends of the index type; non-trivial: at least 2 rows, 2 columns and 2 stored entries, and some offset keeps a part of the entries",
        assumptions: &[],
        quick: 240_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    let a = e.coo::<I>();
    let mut part = false;
    let mut neg = false;
    for &(kind, d) in &c.ks {
        // as a wide number, brought into the index type's range
        let k: i128 = match kind {
            0 => 0,
            1 => d as i128,
            2 => e.cols as i128 + (d % 3) as i128,
            3 => -(e.rows as i128) + (d % 3) as i128,
            4 => i128::MAX,
            5 => i128::MIN,
            _ => (d % 4) as i128,
        };
        let lo = I::min_value().to_i128().unwrap_or(i128::MIN);
        let hi = I::max_value().to_i128().unwrap_or(i128::MAX);
        let k = k.clamp(lo, hi);
        let ki = if kind == 4 { I::max_value() } else if kind == 5 { I::min_value() } else { <I as num_traits::NumCast>::from(k).unwrap() };
        op("Coo::upper");
        let u = a.upper(ki);
        let o = obs_coo(&u, "Coo::upper")?;
        // row + k <= col, without overflow: k <= col - row
        let want: Vec<(usize, usize, T)> = e.t.iter().copied().filter(|t| k <= t.1 as i128 - t.0 as i128).collect();
        ensure(o.m.shape() == (e.rows, e.cols), || format!("Coo::upper({k}): shape {:?}", o.m.shape()))?;
        same_seq(&o.t, &want, &format!("Coo::upper({k})"))?;
        part |= !want.is_empty() && want.len() < e.t.len();
        neg |= k < 0;
    }
    op("");
    let cov = Cov::new(busy(&e) && part).class_if(neg, "negative offset");
    Ok(mat_classes(cov, c.ty, &e))
}
