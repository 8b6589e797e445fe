//! Results do not depend on the index type.
use crate::battery::*;
use crate::prelude::*;
use std::ops::Neg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    narrow: u8,
    wide: u8,
    scalar: u8,
    exp: i8,
    /// fill operands a, b, c, r, d with that many entries by rule (0: as described)
    fill: [u32; 5],
    o: OpSpec,
}
fn strategy() -> BoxedStrategy<Case> {
    let none = || Just([0u32; 5]);
    let case = |narrow: BoxedStrategy<u8>, fill: BoxedStrategy<[u32; 5]>, p: &Prof| {
        (narrow, 0u8..12, 0u8..3, exp(), fill, op_spec(p, true))
            .prop_map(|(narrow, wide, scalar, exp, fill, o)| Case { narrow, wide, scalar, exp, fill, o })
            .boxed()
    };
    let byte = || prop_oneof![Just(2u8), Just(3u8)].boxed();
    let any_t = || (0u8..12).boxed();
    let count = |m: u32| prop_oneof![3 => Just(0u32), 2 => Just(m), 1 => Just(m - 1), 1 => Just(m / 2), 1 => Just(m - m / 2), 1 => 1..m].boxed();
    let fills = move |m: u32| (count(m), count(m), count(m), count(m), count(m)).prop_map(|(a, b, c, d, e)| [a, b, c, d, e]).boxed();
    let lim = |m: u16| -> Prof {
        match m {
            127 => Prof { w: 1, dims: &[(127, 127), (126, 127), (1, 20), (63, 64), (1, 127)], nmin: 0, nmax: 60 },
            255 => Prof { w: 1, dims: &[(255, 255), (254, 255), (1, 20), (127, 128), (1, 255)], nmin: 0, nmax: 60 },
            32767 => Prof { w: 1, dims: &[(32767, 32767), (1, 20), (16383, 16384)], nmin: 0, nmax: 60 },
            _ => Prof { w: 1, dims: &[(65535, 65535), (1, 20), (32767, 32768)], nmin: 0, nmax: 60 },
        }
    };
    prop::strategy::Union::new_weighted(vec![
        (100, over_profiles(&[TINY, SMALL, MEDIUM], |p| case(prop_oneof![1 => byte(), 1 => any_t()].boxed(), none().boxed(), p))),
        (100, case(Just(3u8).boxed(), fills(127), &lim(127))),
        (100, case(Just(2u8).boxed(), fills(255), &lim(255))),
        (10, case(byte(), none().boxed(), &LIMIT)),
        (1, case(Just(8u8).boxed(), fills(32767), &lim(32767))),
        (1, case(Just(5u8).boxed(), fills(65535), &lim(65535))),
    ])
    .boxed()
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C25",
        rule: "the same random operands and operations (every constructor, conversion, query and operation) run with two of the 12 index types and compared; dimensions and entry counts reach exactly the narrower type's largest value (127, 255, 32767, 65535) and stop there; non-trivial: the first operand has at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["dimensions and entry counts, including those of a result before entries are merged or dropped, fit both index types"],
        quick: 12_000,
        thorough_factor: 12,
        strategy,
        check,
    }
}
/// Exactly `n` entries by rule (all distinct as far as there are positions).
fn filled<T: Ts>(e: &mut Ent<T>, n: usize, cap: usize, knob: u16, unique: bool) {
    let (r, c) = (e.rows, e.cols);
    if r == 0 || c == 0 || n == 0 {
        return;
    }
    let n = if unique { n.min(r * c) } else { n }.min(cap);
    let vals = filler_nz::<T>(17, knob, 0);
    // a step coprime to the number of positions visits all of them
    let total = r * c;
    let mut step = 1 + (knob as usize * 7919) % total;
    while gcd(step, total) != 1 {
        step = step % total + 1;
    }
    e.t = (0..n).map(|i| { let p = (i * step + knob as usize) % total; (p / c, p % c, vals[i % 17]) }).collect();
    e.layout = if unique { 1 } else { 0 };
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}
fn run<I: Ix, T: Ts + Neg<Output = T>>(o: &Operands<T>, cap: usize) -> Vec<Item<T>> {
    battery::<I, T>(o, cap)
}
fn dispatch<T: Ts + Neg<Output = T>>(ty: u8, o: &Operands<T>, cap: usize) -> Vec<Item<T>> {
    match ty % 12 {
        0 => run::<usize, T>(o, cap),
        1 => run::<i32, T>(o, cap),
        2 => run::<u8, T>(o, cap),
        3 => run::<i8, T>(o, cap),
        4 => run::<u32, T>(o, cap),
        5 => run::<u16, T>(o, cap),
        6 => run::<i64, T>(o, cap),
        7 => run::<u64, T>(o, cap),
        8 => run::<i16, T>(o, cap),
        9 => run::<u128, T>(o, cap),
        10 => run::<isize, T>(o, cap),
        _ => run::<i128, T>(o, cap),
    }
}
fn complex(ty: u8, a: &Ent<Complex<f64>>) -> Vec<Item<Complex<f64>>> {
    crate::with_ix!(ty, complex_battery, a)
}
fn max(ty: u8) -> usize {
    [usize::max_us(), i32::max_us(), u8::max_us(), i8::max_us(), u32::max_us(), u16::max_us(), i64::max_us(), u64::max_us(), i16::max_us(), u128::max_us(), isize::max_us(), i128::max_us()][(ty % 12) as usize]
}
const IX: [&str; 12] = ["usize", "i32", "u8", "i8", "u32", "u16", "i64", "u64", "i16", "u128", "isize", "i128"];

fn check(c: &Case) -> Check {
    match c.scalar % 3 {
        0 => go::<f64>(c),
        1 => go::<i64>(c),
        _ => go::<Complex<f64>>(c),
    }
}
fn go<T: Ts + Neg<Output = T>>(c: &Case) -> Check {
    let cap = max(c.narrow).min(max(c.wide));
    let mut o: Operands<T> = operands(&c.o, c.exp as i32, cap);
    let specs = [&c.o.a.e, &c.o.b, &c.o.c, &c.o.r, &c.o.d];
    for (k, e) in [&mut o.a, &mut o.b, &mut o.c, &mut o.r, &mut o.d].into_iter().enumerate() {
        filled(e, c.fill[k] as usize, cap, specs[k].knob, specs[k].layout % 2 == 1);
    }
    // keep the product's work bounded
    if o.a.t.len().max(o.c.t.len()) > 2000 {
        o.c.t.truncate(200);
    }
    op("battery");
    let (x, y) = (dispatch(c.narrow, &o, cap), dispatch(c.wide, &o, cap));
    let (n, w) = (IX[(c.narrow % 12) as usize], IX[(c.wide % 12) as usize]);
    for (p, q) in x.iter().zip(&y) {
        ensure(p.name == q.name, || "harness: batteries differ".into())?;
        agree(&p.got, &q.got, &format!("{} with {n} and {w}", p.name))?;
        if let Out::Malformed(e) = &p.got {
            return Err(format!("{} with {n}: {e}", p.name));
        }
        same_form(p.name, &p.form, &q.form).map_err(|e| format!("{} with {n} and {w}: {e}", p.name))?;
        // both failing alike is a failure inside the range all the same
        if let Out::Failed(e) = &p.got {
            return Err(format!("{} with {n}: {e}", p.name));
        }
    }
    if c.scalar % 3 == 2 {
        op("complex battery");
        let a: Ent<Complex<f64>> = realize(o.a.rows, o.a.cols, &c.o.a.e, c.exp as i32, cap);
        for (p, q) in complex(c.narrow, &a).iter().zip(&complex(c.wide, &a)) {
            agree(&p.got, &q.got, &format!("{} with {n} and {w}", p.name))?;
            if let Out::Malformed(e) | Out::Failed(e) = &p.got {
                return Err(format!("{} with {n}: {e}", p.name));
            }
        }
    }
    op("");
    let at = |b: bool, s: &'static str| b.then_some(s);
    let mut cov = mat_classes(Cov::new(busy(&o.a)), 0, &o.a);
    cov.classes.retain(|s| !s.starts_with("type"));
    cov.classes.push(format!("{n} and {w}"));
    for s in [
        at(o.a.rows == cap || o.a.cols == cap, "a dimension is the limit"),
        at(o.a.t.len() == cap, "entry count is the limit"),
        at(o.a.t.len() + o.b.t.len() == cap, "sum's entries reach the limit"),
        at(o.a.rows + o.d.rows == cap || o.a.cols + o.r.cols == cap, "a stack's dimension reaches the limit"),
    ]
    .into_iter()
    .flatten()
    {
        cov.classes.push(s.into());
    }
    Ok(cov)
}
