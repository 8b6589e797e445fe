//! Text output shows every stored entry faithfully.
use crate::prelude::*;
use crate::{with_int_scalars, with_types};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    a: MatSpec,
    /// values as bit patterns
    x: Vec<(u64, u64)>,
}
fn number() -> BoxedStrategy<u64> {
    let f = |x: f64| x.to_bits();
    prop_oneof![
        4 => (-999i32..1000).prop_map(move |v| f(v as f64)),
        4 => any::<i32>().prop_map(move |v| f(v as f64)),
        4 => (any::<i64>(), 0i32..16).prop_map(move |(v, e)| f((v % 1_000_000_000_000) as f64 / 10f64.powi(e))),
        3 => (-1.0f64..1.0, -20i32..20).prop_map(move |(v, e)| f(v * 10f64.powi(e))),
        2 => (1i64..10_000_000, -12i32..12).prop_map(move |(v, e)| f((v as f64 - 0.5) * 10f64.powi(e))),
        1 => any::<u64>().prop_map(|b| if f64::from_bits(b).is_nan() { f64::NAN.to_bits() } else { b }),
        1 => prop::sample::select(vec![f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, 0.0, f64::MIN_POSITIVE, 5e-324, f64::MAX, 999999.5, 9.999995, 0.1, 1e6, 1e7, 123456.5, 0.001]).prop_map(f),
    ]
    .boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    let wider = Prof { w: 2, dims: &[(100, 300), (1, 5)], nmin: 50, nmax: 1600 };
    over_profiles(&[Prof { w: 240, ..TINY }, Prof { w: 320, ..SMALL }, Prof { w: 80, dims: &[(1, 40)], nmin: 0, nmax: 100 }, wider, HUGE, DICT], |p| {
        (prop_oneof![2 => ty(), 1 => 12u8..24], mat_spec(p, false), prop::collection::vec((number(), number()), 1..10))
            .prop_map(|(ty, a, x)| Case { ty, a, x })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C21",
        rule: "random matrix with integers, long decimals, rounding boundaries, tiny and huge magnitudes, infinities and NaN; listings of all four formats parsed as sets of lines, tables of canonical matrices parsed back cell by cell; non-trivial: at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["a table cell of a float is within 1e-5 of the value, relative to it", "lines of a table without columns are not counted"],
        quick: 160_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    if c.ty < 12 {
        with_types!(c.ty, go, c)
    } else {
        with_int_scalars!(c.ty, go, c)
    }
}
fn listing<I: Ix, T: Ts>(s: &str, t: &[(usize, usize, T)], what: &str) -> Result<(), String> {
    let _ = std::marker::PhantomData::<I>;
    let mut want: Vec<String> = t.iter().map(|e| format!("({}, {}) {}", e.0, e.1, e.2)).collect();
    let mut got: Vec<&str> = s.lines().collect();
    want.sort();
    got.sort();
    ensure(got.len() == want.len(), || format!("{what}: {} lines for {} stored entries: {s:?}", got.len(), want.len()))?;
    for (g, w) in got.iter().zip(&want) {
        ensure(g == w, || format!("{what}: line {g:?}, expected {w:?}"))?;
    }
    Ok(())
}
/// A float's cell: parses back to the value, at most six significant digits.
fn cell_float(s: &str, v: f64) -> Result<(), String> {
    let x: f64 = s.parse().map_err(|_| format!("cell {s:?} is not a number"))?;
    if v.is_nan() {
        return ensure(x.is_nan(), || format!("cell {s:?} for {v:e}"));
    }
    if v.is_infinite() || v == 0.0 {
        return ensure(x == v, || format!("cell {s:?} for {v:e}"));
    }
    // dividing avoids losing the tolerance among subnormal numbers
    ensure(x.is_sign_negative() == v.is_sign_negative() && (x / v - 1.0).abs() <= 1e-5, || format!("cell {s:?} for {v:e}"))?;
    let mantissa = s.split(['e', 'E']).next().unwrap();
    let digits: String = mantissa.chars().filter(|c| c.is_ascii_digit()).collect();
    let d = digits.trim_start_matches('0').trim_end_matches('0');
    ensure(d.len() <= 6, || format!("cell {s:?} has more than six significant digits"))
}
fn cell<T: Ts>(s: &str, v: T) -> Result<(), String> {
    if !T::FLOAT {
        return ensure(s == format!("{v}"), || format!("cell {s:?} for {v}"));
    }
    let (re, im) = v.parts();
    if !T::COMPLEX {
        return cell_float(s, re);
    }
    let (l, r) = s.split_once('j').ok_or_else(|| format!("cell {s:?} for {v}: no imaginary part"))?;
    let sign = l.chars().last();
    let (re_s, sign) = match sign {
        Some('+') => (&l[..l.len() - 1], 1.0),
        Some('-') => (&l[..l.len() - 1], -1.0),
        _ => return Err(format!("cell {s:?} for {v}: no sign before the imaginary part")),
    };
    ensure(!r.starts_with(['-', '+']), || format!("cell {s:?} for {v}: two signs on the imaginary part"))?;
    cell_float(re_s, re).map_err(|e| format!("{e} (real part of {s:?} for {v})"))?;
    let im = if sign < 0.0 { -im } else { im };
    ensure(im.is_nan() || !(im < 0.0), || format!("cell {s:?} for {v}: wrong sign on the imaginary part"))?;
    cell_float(r, im.abs()).map_err(|e| format!("{e} (imaginary part of {s:?} for {v})"))
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let mut e: Ent<T> = realize_mat::<I, T>(&c.a, 0);
    for (k, t) in e.t.iter_mut().enumerate() {
        let x = c.x[k % c.x.len()];
        t.2 = T::from_f64(f64::from_bits(x.0), f64::from_bits(x.1));
    }
    op("to_string");
    listing::<I, T>(&e.csr::<I>().to_string(), &e.t, "CSR::to_string")?;
    listing::<I, T>(&e.csc::<I>().to_string(), &e.t, "CSC::to_string")?;
    listing::<I, T>(&e.coo::<I>().to_string(), &e.t, "Coo::to_string")?;
    // unique positions for the dictionary and the table
    let mut seen = std::collections::HashSet::new();
    e.t.retain(|t| seen.insert((t.0, t.1)));
    e.layout = 3;
    e.t.sort_by_key(|t| (t.0, t.1));
    let held: Vec<(usize, usize, T)> = e.t.iter().copied().filter(|t| !t.2.same(T::zero())).collect();
    let mut d = DoK::<I, T>::new(e.rows, e.cols);
    for t in &e.t {
        okay(d.set(I::of(t.0), I::of(t.1), t.2), "DoK::set")?;
    }
    op("DoK::to_string");
    listing::<I, T>(&d.to_string(), &held, "DoK::to_string")?;

    if e.rows * e.cols > 100_000 {
        op("");
        return Ok(mat_classes(Cov::new(busy(&e)), c.ty, &e));
    }
    op("CSR::to_table");
    let s = e.csr::<I>().to_table();
    let lines: Vec<&str> = if s.is_empty() { vec![] } else { s.split('\n').collect() };
    if e.cols > 0 {
        ensure(lines.len() == e.rows, || format!("to_table: {} lines for {} rows: {s:?}", lines.len(), e.rows))?;
    }
    let m: std::collections::BTreeMap<(usize, usize), T> = e.t.iter().map(|t| ((t.0, t.1), t.2)).collect();
    for (r, l) in lines.iter().enumerate() {
        let cells: Vec<&str> = l.split_whitespace().collect();
        ensure(cells.len() == e.cols, || format!("to_table: {} cells in row {r}, {} columns: {l:?}", cells.len(), e.cols))?;
        for (k, x) in cells.iter().enumerate() {
            match m.get(&(r, k)) {
                None => ensure(*x == "-", || format!("to_table: cell ({r}, {k}) is {x:?}, nothing is stored there"))?,
                Some(&v) => {
                    ensure(*x != "-", || format!("to_table: cell ({r}, {k}) is a dash, {v} is stored there"))?;
                    cell(x, v).map_err(|e| format!("to_table: ({r}, {k}): {e}"))?;
                }
            }
        }
    }
    op("");
    let cov = Cov::new(busy(&e)).class_if(e.t.iter().any(|t| t.2.mag() >= 1e6), "magnitude of a million or more").class_if(e.t.iter().any(|t| t.2.mag() > 0.0 && t.2.mag() < 1e-4), "magnitude below 1e-4");
    let mut cov = mat_classes(cov, c.ty, &e);
    cov.classes.retain(|x| !x.starts_with("type"));
    Ok(cov.class(format!("type {}/{}", I::NAME, T::NAME)))
}
