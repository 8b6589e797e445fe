//! Element-wise kernels agree with the scalar operator.
use crate::prelude::*;
use crate::with_int_scalars;
use crate::with_ord_types;
use crate::with_types;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    b: EntSpec,
    rel: u8,
    ordered: bool,
    /// an integer scalar type, values of its whole range
    #[serde(default)]
    ints: bool,
    /// infinities, NaN, extreme numbers; no duplicates
    #[serde(default)]
    special: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (ty(), exp(), mat_spec(p, true), ent_spec(p.nmin, p.nmax, true), rel(), any::<bool>(), prop::bool::weighted(0.15), special())
            .prop_map(|(ty, exp, mut a, mut b, rel, ordered, ints, special)| {
                if special && !ints {
                    a.e.layout |= 1;
                    b.layout |= 1;
                    // the sign of a zero is not promised, and shows in a quotient
                    for x in a.e.ents.iter_mut().chain(b.ents.iter_mut()) {
                        for v in [&mut x.2, &mut x.3] {
                            if *v == S_NEGZERO {
                                *v = 0;
                            }
                        }
                    }
                } else {
                    tame(&mut a.e);
                    tame(&mut b);
                }
                Case { ty, exp, a, b, rel, ordered, ints, special }
            })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C05",
        rule: "two random compressed matrices of one shape with related or independent patterns (the very same arrays in part of the cases; infinities, NaN and extreme numbers in others) through every element-wise kernel and caller-supplied operators, via the dispatching, general and (canonical operands) merge routine, into stale output arrays; non-trivial: both operands store at least 2 entries",
        assumptions: &[
            "element values are generated so that sums are exact",
            "integer division is only checked where every divisor at a stored position is non-zero",
            "the entries of both operands together do not exceed the index type",
        ],
        quick: 40_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    if c.ints {
        with_int_scalars!(c.ty, go_int, c)
    } else if c.ordered {
        with_ord_types!(c.ty, go_ord, c)
    } else {
        with_types!(c.ty, go, c)
    }
}

struct Pair<I, T> {
    a: Raw<I, T>,
    b: Raw<I, T>,
    ma: Model<T>,
    mb: Model<T>,
    canonical: bool,
    cap: usize,
    /// both operands are the same arrays
    alias: bool,
}
/// Result value kinds: comparisons give bool.
trait Res: Nonzero + Copy {
    fn key2(self) -> [u128; 2];
}
struct Key<T>(T);
impl<T: Ts> Key<T> {
    fn k(self) -> [u128; 2] {
        self.0.key()
    }
}
impl Res for bool {
    fn key2(self) -> [u128; 2] {
        [self as u128, 0]
    }
}

fn verify<I: Ix, T: Ts, R: Nonzero + Copy + std::fmt::Debug>(
    p: &Pair<I, T>,
    what: &str,
    c_p: &[I],
    c_j: &[I],
    c_x: &[R],
    key: impl Fn(R) -> [u128; 2],
    f: impl Fn(T, T) -> R,
) -> Result<(), String> {
    let (n, m) = (p.ma.rows, p.ma.cols);
    let bad = |s: String| Err(format!("{what}: {s}"));
    let mut want = std::collections::BTreeMap::new();
    for &(r, c) in p.ma.m.keys().chain(p.mb.m.keys()) {
        let v = f(p.ma.get(r, c), p.mb.get(r, c));
        if v != R::default() {
            want.insert((r, c), v);
        }
    }
    let ptr: Vec<usize> = match c_p.iter().map(|v| v.us()).collect::<Option<Vec<_>>>() {
        Some(v) => v,
        None => return bad("negative pointer".into()),
    };
    if ptr[0] != 0 || ptr.windows(2).any(|w| w[0] > w[1]) || ptr[n] > c_j.len() {
        return bad(format!("pointers {} are malformed", short(&ptr)));
    }
    let mut got = std::collections::BTreeMap::new();
    for i in 0..n {
        let mut prev = None;
        for k in ptr[i]..ptr[i + 1] {
            let j = match c_j[k].us() {
                Some(j) if j < m => j,
                _ => return bad(format!("index {} in row {i} outside {m} columns", c_j[k])),
            };
            if p.canonical && prev.map_or(false, |q| q >= j) {
                return bad(format!("row {i} not in increasing order for canonical operands"));
            }
            prev = Some(j);
            if got.insert((i, j), c_x[k]).is_some() {
                return bad(format!("position ({i}, {j}) stored twice"));
            }
        }
    }
    for (k, v) in &want {
        match got.get(k) {
            None => return bad(format!("nothing stored at {k:?}, expected {v:?}")),
            Some(g) if key(*g) != key(*v) => return bad(format!("{g:?} stored at {k:?}, expected {v:?}")),
            _ => {}
        }
    }
    for (k, g) in &got {
        if !want.contains_key(k) {
            return bad(format!("{g:?} stored at {k:?}, expected nothing"));
        }
    }
    Ok(())
}

macro_rules! run {
    ($p:expr, $R:ty, $stale:expr, $key:expr, $f:expr, $name:expr, |$nr:ident, $nc:ident, $ap:ident, $aj:ident, $ax:ident, $bp:ident, $bj:ident, $bx:ident, $cp:ident, $cj:ident, $cx:ident| $call:expr) => {{
        let p = $p;
        let ($nr, $nc) = (p.ma.rows, p.ma.cols);
        let ($ap, $aj, $ax) = (&p.a.p[..], &p.a.j[..], &p.a.x[..]);
        let b = if p.alias { &p.a } else { &p.b };
        let ($bp, $bj, $bx) = (&b.p[..], &b.j[..], &b.x[..]);
        let mut cp = junk_i::<I>($nr + 1);
        let mut cj = junk_i::<I>(p.cap);
        let mut cx: Vec<$R> = vec![$stale; p.cap];
        {
            let ($cp, $cj, $cx) = (&mut cp[..], &mut cj[..], &mut cx[..]);
            op($name);
            $call;
        }
        verify(p, $name, &cp, &cj, &cx, $key, $f)?;
    }};
}
/// A library kernel of the usual signature.
macro_rules! kernel {
    ($p:expr, $R:ty, $stale:expr, $key:expr, $f:expr, $k:ident) => {
        run!($p, $R, $stale, $key, $f, stringify!($k), |nr, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx| {
            $k(nr, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx)
        })
    };
}
/// A caller-supplied operator through each of the three routines.
macro_rules! custom {
    ($p:expr, $R:ty, $stale:expr, $key:expr, $f:expr, $name:expr) => {{
        let f: fn(T, T) -> $R = $f;
        run!($p, $R, $stale, $key, f, concat!("csr_binop_csr ", $name), |nr, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx| {
            csr_binop_csr(nr, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx, f)
        });
        let canonical = $p.canonical;
        // the general routine promises no order
        let q = Pair { canonical: false, a: $p.a.clone(), b: $p.b.clone(), ma: $p.ma.clone(), mb: $p.mb.clone(), cap: $p.cap, alias: $p.alias };
        run!(&q, $R, $stale, $key, f, concat!("csr_binop_csr_general ", $name), |nr, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx| {
            csr_binop_csr_general(nr, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx, f)
        });
        if canonical {
            run!($p, $R, $stale, $key, f, concat!("csr_binop_csr_canonical ", $name), |nr, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx| {
                csr_binop_csr_canonical(nr, nc, ap, aj, ax, bp, bj, bx, cp, cj, cx, f)
            });
        }
    }};
}

fn setup<I: Ix, T: Ts>(c: &Case) -> (Ent<T>, Ent<T>, Pair<I, T>) {
    let mut c = c.clone();
    if !T::FLOAT {
        tame(&mut c.a.e);
        tame(&mut c.b);
    }
    let (ea, eb) = pair::<I, T>(&c.a, &c.b, c.rel, c.exp as i32);
    let mut p = compressed(&ea, &eb);
    let same = p.a.p == p.b.p && p.a.j == p.b.j && p.a.x.iter().zip(&p.b.x).all(|(x, y)| x.same(*y));
    p.alias = same && c.b.knob % 3 != 0;
    (ea, eb, p)
}
fn compressed<I: Ix, T: Ts>(ea: &Ent<T>, eb: &Ent<T>) -> Pair<I, T> {
    let cap = ea.t.len() + eb.t.len();
    let canon = |e: &Ent<T>| e.raw_csr::<I>().p.windows(2).zip(std::iter::repeat(e.raw_csr::<I>().j)).all(|(w, j)| {
        let (s, t) = (w[0].us().unwrap(), w[1].us().unwrap());
        j[s..t].windows(2).all(|q| q[0] < q[1])
    });
    let canonical = ea.layout == 3 && eb.layout == 3 && canon(ea) && canon(eb);
    Pair {
        a: ea.raw_csr(),
        b: eb.raw_csr(),
        ma: Model::of(ea),
        mb: Model::of(eb),
        canonical,
        cap,
        alias: false,
    }
}
fn finish<I: Ix, T: Ts>(c: &Case, ea: &Ent<T>, eb: &Ent<T>, p: &Pair<I, T>) -> Check {
    let cov = Cov::new(ea.t.len() >= 2 && eb.t.len() >= 2)
        .class_if(p.canonical, "both canonical")
        .class_if(!p.canonical, "general algorithm")
        .class_if(p.alias, "both operands are the same arrays")
        .class_if(c.special && T::FLOAT, "special values");
    op("");
    Ok(mat_classes(cov, c.ty, ea))
}

fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let (ea, eb, p) = setup::<I, T>(c);
    let p = &p;
    let kt = |v: T| Key(v).k();
    let kb = |v: bool| v.key2();
    let z: T = junk::<T>(1)[0];
    kernel!(p, bool, true, kb, |a: T, b: T| a != b, csr_ne_csr);
    kernel!(p, bool, true, kb, |a: T, b: T| a == b, csr_eq_csr);
    kernel!(p, T, z, kt, |a: T, b: T| a * b, csr_mul_csr);
    kernel!(p, T, z, kt, |a: T, b: T| a + b, csr_add_csr);
    if T::SIGNED {
        kernel!(p, T, z, kt, |a: T, b: T| a - b, csr_sub_csr);
        custom!(p, T, z, kt, |a: T, b: T| a + a - b, "2a-b");
    }
    let divisors_ok = p.ma.m.keys().chain(p.mb.m.keys()).all(|k| !p.mb.get(k.0, k.1).same(T::zero()));
    if divisors_ok || T::FLOAT {
        kernel!(p, T, z, kt, |a: T, b: T| a / b, csr_div_csr);
    }
    custom!(p, T, z, kt, |a: T, b: T| if a == b { T::one() } else { a * b }, "a==b?1:ab");
    custom!(p, T, z, kt, |a: T, _: T| a, "a");
    custom!(p, T, z, kt, |_: T, b: T| b, "b");
    custom!(p, bool, true, kb, |a: T, b: T| a == T::zero() && b != T::zero(), "a==0&&b!=0");
    // duplicates summed to zero are still positions held: 0 op 0 may be non-zero
    custom!(p, T, z, kt, |a: T, b: T| a + b + T::one(), "a+b+1");
    finish(c, &ea, &eb, p)
}

fn go_ord<I: Ix, T: Ts + PartialOrd>(c: &Case) -> Check {
    let (ea, eb, p) = setup::<I, T>(c);
    ordered(&p)?;
    finish(c, &ea, &eb, &p)
}
/// Values of the whole range; nothing is computed with them, there are no duplicates to sum.
fn go_int<I: Ix, T: Ts + PartialOrd>(c: &Case) -> Check {
    let mut c = c.clone();
    c.a.e.layout |= 1;
    c.b.layout |= 1;
    let (mut ea, mut eb) = pair::<I, T>(&c.a, &c.b, c.rel, 0);
    for e in ea.t.iter_mut().chain(eb.t.iter_mut()) {
        let v = e.2.key()[0];
        let h = (v.wrapping_add(1)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835 ^ (c.exp as u8 as u128) << 9);
        e.2 = match (h >> 100) % 5 {
            0 => T::of_bits(1 << ((h >> 90) % 128)),
            1 => T::of_bits(!(1 << ((h >> 90) % 128))),
            2 => e.2,
            3 => T::of_bits(h << 40 | h >> 50),
            _ => T::of_bits(h >> 64 << ((h >> 70) % 96)),
        };
    }
    let p = compressed::<I, T>(&ea, &eb);
    {
        let p = &p;
        let kt = |v: T| Key(v).k();
        let kb = |v: bool| v.key2();
        let z: T = junk::<T>(1)[0];
        kernel!(p, bool, true, kb, |a: T, b: T| a != b, csr_ne_csr);
        kernel!(p, bool, true, kb, |a: T, b: T| a == b, csr_eq_csr);
        custom!(p, T, z, kt, |a: T, _: T| a, "a");
        custom!(p, T, z, kt, |a: T, b: T| if a == T::zero() { b } else { a }, "a==0?b:a");
    }
    ordered(&p)?;
    let mut r = finish(&c, &ea, &eb, &p)?;
    r.classes.retain(|x| !x.starts_with("type"));
    Ok(r.class(format!("whole range of {}", T::NAME)))
}
fn ordered<I: Ix, T: Ts + PartialOrd>(p: &Pair<I, T>) -> Result<(), String> {
    let kt = |v: T| Key(v).k();
    let kb = |v: bool| v.key2();
    let z: T = junk::<T>(1)[0];
    kernel!(p, bool, true, kb, |a: T, b: T| a < b, csr_lt_csr);
    kernel!(p, bool, true, kb, |a: T, b: T| a <= b, csr_le_csr);
    kernel!(p, bool, true, kb, |a: T, b: T| a > b, csr_gt_csr);
    kernel!(p, bool, true, kb, |a: T, b: T| a >= b, csr_ge_csr);
    // the greater of a number and NaN is not specified
    if p.a.x.iter().chain(&p.b.x).all(|v| v.same(*v) && v.partial_cmp(v).is_some()) {
        kernel!(p, T, z, kt, |a: T, b: T| if a > b { a } else { b }, csr_max_csr);
        kernel!(p, T, z, kt, |a: T, b: T| if a < b { a } else { b }, csr_min_csr);
    }
    custom!(p, bool, true, kb, |a: T, b: T| a < b || a == T::zero(), "a<b||a==0");
    Ok(())
}
