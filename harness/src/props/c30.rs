//! Results do not depend on the scalar type.
use crate::battery::*;
use crate::prelude::*;
use std::collections::BTreeMap;
use std::ops::Neg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    one: u8,
    two: u8,
    narrow: bool,
    /// multiply the stored values (as far as both types hold the results)
    big: bool,
    /// or by 2 to this power, up to half the width of the narrower type
    #[serde(default)]
    shift: u8,
    o: OpSpec,
}
impl Case {
    /// The 8-bit type has room for sums of small numbers only.
    fn small(&self) -> bool {
        self.one % 10 == 7 || self.two % 10 == 7
    }
}
fn strategy() -> BoxedStrategy<Case> {
    let t = || prop_oneof![2 => 0u8..10, 1 => Just(0u8)];
    over_profiles(&[TINY, SMALL, Prof { w: 20, ..MEDIUM }, Prof { w: 4, ..LIMIT }, Prof { w: 1, ..LARGE }, Prof { w: 3, ..DICT }], move |p| {
        let shift = prop_oneof![2 => Just(0u8), 1 => 1u8..64, 2 => prop::sample::select(vec![4u8, 8, 12, 16, 24, 31, 32, 48, 52])];
        (t(), t(), prop::bool::weighted(0.3), prop::bool::weighted(0.4), shift, op_spec(p, true))
            .prop_map(|(one, two, narrow, big, shift, o)| Case { one, two: if one == two { (two + 1) % 10 } else { two }, narrow, big, shift, o })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C30",
        rule: "the same random operands with whole-number values run through every constructor, conversion, query, operation and kernel with two of the scalar types f64, f32, i8, i16, i32, i64, i128, isize, Complex64, Complex32 (complex ones with imaginary part 0), values up to what both types hold exactly with all results (beyond 2^53 between i64 and i128); shapes, stored positions, values and all other results compared; non-trivial: the first operand has at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["every intermediate result is a whole number both types hold exactly"],
        quick: 40_000,
        thorough_factor: 20,
        strategy,
        check,
    }
}
const NAMES: [&str; 10] = ["f64", "f32", "i64", "i32", "i128", "Complex64", "Complex32", "i8", "i16", "isize"];

#[derive(PartialEq)]
enum Plain {
    Mat(usize, usize, BTreeMap<(usize, usize), (i128, i128)>),
    Vec(Vec<(i128, i128)>),
    Num(Vec<i128>),
    Text,
    Bad(String),
}
fn plain<T: Ts>(o: &Out<T>) -> Plain {
    let whole = |v: &T| v.whole().ok_or_else(|| format!("{v:?} is not a whole number"));
    let r = match o {
        Out::Mat(m) => m.m.iter().map(|(&k, v)| Ok((k, whole(v)?))).collect::<Result<_, String>>().map(|x| Plain::Mat(m.rows, m.cols, x)),
        Out::Vec(v) => v.iter().map(whole).collect::<Result<_, String>>().map(Plain::Vec),
        Out::Num(v) => Ok(Plain::Num(v.clone())),
        Out::Text(_) => Ok(Plain::Text),
        Out::Failed(e) | Out::Malformed(e) => Err(e.clone()),
        Out::Cplx(_) | Out::Real(_) => Err("harness: unexpected kind of result".into()),
    };
    r.unwrap_or_else(Plain::Bad)
}
fn run<I: Ix, T: Ts + Neg<Output = T>>(c: &Case, factor: f64, cap: usize) -> Vec<(&'static str, Plain, Vec<(usize, usize)>)> {
    let mut o: Operands<T> = operands(&c.o, 0, cap);
    let f = T::from_f64(factor, 0.0);
    for e in [&mut o.a, &mut o.b, &mut o.c, &mut o.r, &mut o.d] {
        e.t.iter_mut().for_each(|x| x.2 = x.2 * f);
    }
    o.real = true;
    o.small = c.small();
    battery::<I, T>(&o, cap).into_iter().map(|i| (i.name, plain(&i.got), i.form)).collect()
}
fn dispatch(ty: u8, c: &Case, factor: f64) -> Vec<(&'static str, Plain, Vec<(usize, usize)>)> {
    macro_rules! with {
        ($t:ty) => {
            if c.narrow { run::<u8, $t>(c, factor, 255) } else { run::<usize, $t>(c, factor, isize::MAX as usize) }
        };
    }
    match ty % 10 {
        0 => with!(f64),
        1 => with!(f32),
        2 => with!(i64),
        3 => with!(i32),
        4 => with!(i128),
        5 => with!(Complex<f64>),
        6 => with!(Complex<f32>),
        7 => with!(i8),
        8 => with!(i16),
        _ => with!(isize),
    }
}
/// Whole numbers below 10 (or 2), no imaginary parts.
fn simplify(o: &mut OpSpec, small: bool) {
    let base = if small { 2 } else { 10 };
    for e in [&mut o.a.e, &mut o.b, &mut o.c, &mut o.r, &mut o.d] {
        for x in &mut e.ents {
            x.2 %= base;
            x.3 = 0;
        }
    }
    o.s = (o.s.0 % base, 0);
}
fn check(c: &Case) -> Check {
    let mut c = c.clone();
    let small = c.small();
    simplify(&mut c.o, small);
    let o: Operands<f64> = operands(&c.o, 0, isize::MAX as usize);
    let n = [&o.a, &o.b, &o.c, &o.r, &o.d].iter().map(|e| e.t.len()).max().unwrap_or(0);
    // a product of sums of up to n entries, n terms: |value| <= (9 f)^2 n^3 in the worst case
    let holds = |ty: u8| -> f64 { [2f64.powi(53), 2f64.powi(24), 2f64.powi(62), 2f64.powi(30), 2f64.powi(62), 2f64.powi(53), 2f64.powi(24), 2f64.powi(6), 2f64.powi(14), 2f64.powi(62)][(ty % 10) as usize] };
    let room = holds(c.one).min(holds(c.two));
    let dup = |e: &Ent<f64>| -> f64 {
        let mut m: BTreeMap<(usize, usize), f64> = BTreeMap::new();
        e.t.iter().for_each(|x| *m.entry((x.0, x.1)).or_default() += x.2.abs());
        m.values().fold(1.0, |a: f64, &v| a.max(v))
    };
    let worst = (dup(&o.a).max(dup(&o.b)).max(dup(&o.c)).max(if small { 1.0 } else { 10.0 })).powi(2) * (n.max(1).min(o.a.cols.max(1)) as f64) * 4.0;
    if worst > room {
        return Ok(Cov::new(false).class("beyond the narrower scalar type"));
    }
    // scaled by a power of two, floating-point results keep their digits
    let top = |ty: u8| -> f64 { 2f64.powi([126, 120, 62, 30, 126, 126, 120, 6, 14, 62][(ty % 10) as usize]) };
    let room2 = top(c.one).min(top(c.two));
    let shift = (((room2 / worst).log2() / 2.0).floor().max(0.0) as i32).min(c.shift as i32);
    let factor = match shift {
        0 if c.big => (((room / worst).sqrt() as i64).max(1) - 1 | 1) as f64,
        s => 2f64.powi(s),
    };
    op("battery");
    let (x, y) = (dispatch(c.one, &c, factor), dispatch(c.two, &c, factor));
    let (p, q) = (NAMES[(c.one % 10) as usize], NAMES[(c.two % 10) as usize]);
    ensure(x.len() == y.len(), || "harness: batteries differ".into())?;
    let mut largest = 0;
    for ((name, a, form), (_, b, form2)) in x.iter().zip(&y) {
        let fail = |s: String| Err(format!("{name} with {p} and {q}: {s}"));
        if let Err(e) = same_form(name, form, form2) {
            return fail(e);
        }
        match (a, b) {
            (Plain::Bad(e), _) => return fail(format!("{p}: {e}")),
            (_, Plain::Bad(e)) => return fail(format!("{q}: {e}")),
            (Plain::Mat(r, k, m), Plain::Mat(s, l, n)) => {
                if (r, k) != (s, l) {
                    return fail(format!("shapes {r}x{k} and {s}x{l}"));
                }
                largest = m.values().fold(largest, |a, v| a.max(v.0.unsigned_abs()));
                if m != n {
                    let at = m.keys().chain(n.keys()).find(|k| m.get(k) != n.get(k)).unwrap();
                    return fail(format!("stored at {at:?}: {:?} and {:?}", m.get(at), n.get(at)));
                }
            }
            (Plain::Vec(v), Plain::Vec(w)) if v != w => return fail(format!("{} and {}", short(v), short(w))),
            (Plain::Num(v), Plain::Num(w)) if v != w => return fail(format!("{} and {}", short(v), short(w))),
            _ => {}
        }
    }
    op("");
    let cov = mat_classes(Cov::new(busy(&o.a)), 0, &o.a);
    let mut cov = cov
        .class(format!("{} and {}", p.min(q), p.max(q)))
        .class_if(shift == 0 && factor > 1.0, "values near the narrower type's range")
        .class_if(shift > 0, "values scaled by a power of two")
        .class_if(largest > 1 << 64, "results beyond 2^64")
        .class_if(largest > 1 << 24, "results beyond 2^24")
        .class_if(largest > 1 << 53, "results beyond 2^53");
    cov.classes.retain(|s| !s.starts_with("type"));
    Ok(cov)
}
