//! Degenerate shapes are handled by every operation.
use crate::battery::*;
use crate::prelude::*;
use crate::with_signed_types;
use std::ops::Neg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    /// bit k: drop the entries of operand k
    hollow: u8,
    o: OpSpec,
}
fn strategy() -> BoxedStrategy<Case> {
    let small: &[(u16, u16)] = &[(0, 0), (0, 2), (1, 1), (1, 6)];
    let profs = [
        Prof { w: 10, dims: small, nmin: 0, nmax: 10 },
        Prof { w: 2, dims: &[(0, 0), (1, 60), (0, 1)], nmin: 0, nmax: 60 },
        Prof { w: 1, dims: &[(0, 0), (127, 127), (255, 255), (0, 400)], nmin: 0, nmax: 60 },
        Prof { w: 1, ..DICT },
    ];
    let side = prop_oneof![2 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 4 => Just(3u8)];
    (side, over_profiles(&profs, |p| {
        let hollow = prop_oneof![4 => Just(0u8), 3 => Just(1u8), 2 => Just(31u8), 4 => 0u8..32];
        (ty(), exp(), hollow, op_spec(p, true)).prop_map(|(ty, exp, hollow, o)| Case { ty, exp, hollow, o }).boxed()
    }))
        .prop_map(|(side, mut c)| {
            // make sure something is degenerate most of the time
            match side {
                0 => c.o.a.rows = 0,
                1 => c.o.a.cols = 0,
                2 => {
                    c.o.a.rows = 0;
                    c.o.a.cols = 0;
                }
                _ => {}
            }
            c
        })
        .boxed()
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C27",
        rule: "random operands with zero rows, zero columns or no stored entries in any combination, next to ordinary operands; every constructor, conversion, query and operation must succeed with the model's result; non-trivial: some operand is degenerate",
        assumptions: &["a dense array without rows has no columns", "the depth-first start node is a node of the graph"],
        quick: 200_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_signed_types!(c.ty, go, c)
}
fn compare<T: Ts>(items: Vec<Item<T>>) -> Result<(), String> {
    for i in items {
        match (&i.got, &i.want) {
            (g, Some(w)) => agree(g, w, i.name)?,
            (Out::Failed(e), None) => return Err(format!("{}: {e}", i.name)),
            (Out::Malformed(e), None) => return Err(format!("{}: {e}", i.name)),
            _ => {}
        }
    }
    Ok(())
}
fn go<I: Ix, T: Ts + Neg<Output = T>>(c: &Case) -> Check {
    let cap = I::max_us();
    let mut s = c.o.clone();
    for (k, e) in [&mut s.a.e, &mut s.b, &mut s.c, &mut s.r, &mut s.d].into_iter().enumerate() {
        if c.hollow >> k & 1 == 1 {
            e.ents.clear();
        }
    }
    let o: Operands<T> = operands(&s, c.exp as i32, cap);
    op("battery");
    compare(battery::<I, T>(&o, cap))?;
    op("complex battery");
    if T::COMPLEX {
        let a: Ent<Complex<f64>> = realize(o.a.rows, o.a.cols, &s.a.e, c.exp as i32, cap);
        compare(complex_battery::<I>(&a))?;
    }
    op("");
    let es = [&o.a, &o.b, &o.c, &o.r, &o.d];
    let degenerate = es.iter().any(|e| e.t.is_empty());
    Ok(mat_classes(Cov::new(degenerate), c.ty, &o.a)
        .class_if(es.iter().any(|e| e.rows == 0), "an operand without rows")
        .class_if(es.iter().any(|e| e.cols == 0), "an operand without columns")
        .class_if(es.iter().any(|e| e.t.is_empty() && e.rows > 0 && e.cols > 0), "an operand without entries only"))
}
