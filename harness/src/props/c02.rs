//! Every matrix an operation returns is well-formed.
use crate::battery::*;
use crate::prelude::*;
use crate::with_signed_types;
use std::ops::Neg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    o: OpSpec,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&[TINY, SMALL, Prof { w: 20, ..MEDIUM }, Prof { w: 4, ..LIMIT }, Prof { w: 1, ..LARGE }, HUGE, Prof { w: 4, ..DICT }], |p| {
        (ty(), exp(), op_spec(p, true)).prop_map(|(ty, exp, o)| Case { ty, exp, o }).boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C02",
        rule: "random operand matrices (any storage order, duplicates, zeros, empty rows, zero dimensions, up to the index type's limit) on which every constructor, conversion and operation is run; each returned matrix is inspected field by field; non-trivial: the first operand has at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["dimensions and entry counts, including those of a result before entries are merged or dropped, fit the index type"],
        quick: 12_000,
        thorough_factor: 30,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_signed_types!(c.ty, go, c)
}
fn scan<T: Ts>(items: Vec<Item<T>>) -> Result<usize, String> {
    let mut n = 0;
    for i in items {
        match i.got {
            Out::Malformed(e) => return Err(format!("{}: {e}", i.name)),
            Out::Mat(_) | Out::Real(_) => n += 1,
            _ => {}
        }
    }
    Ok(n)
}
fn go<I: Ix, T: Ts + Neg<Output = T>>(c: &Case) -> Check {
    let cap = I::max_us();
    let o: Operands<T> = operands(&c.o, c.exp as i32, cap);
    op("battery");
    let n = scan(battery::<I, T>(&o, cap))?;
    op("complex battery");
    if T::COMPLEX {
        let a: Ent<Complex<f64>> = realize(o.a.rows, o.a.cols, &c.o.a.e, c.exp as i32, cap);
        scan(complex_battery::<I>(&a))?;
    }
    op("");
    Ok(mat_classes(Cov::new(busy(&o.a)), c.ty, &o.a).class(format!("matrices inspected: {}0..", n / 10)))
}
