//! Dictionary matrix behaves as a map under any history.
use crate::prelude::*;
use crate::with_types;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    /// 0,1 set  2,3 add  4,5 subtract  6 negate-out (add the negative)  7 compare conversions
    kind: u8,
    i: u16,
    j: u16,
    v: (i16, i16),
    /// outside the shape: 1.. which way
    out: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    /// initial contents when `dense`
    a: MatSpec,
    start: u8,
    /// positions are drawn from this many rows/columns
    focus: u16,
    steps: Vec<Step>,
}
fn step(specials: bool) -> BoxedStrategy<Step> {
    (
        prop_oneof![3 => Just(0u8), 4 => Just(2u8), 4 => Just(4u8), 2 => Just(6u8), 1 => Just(7u8)],
        any::<u16>(), any::<u16>(),
        prop_oneof![1 => Just((0i16, 0i16)), 8 => val(specials)],
        prop_oneof![12 => Just(0u8), 1 => 1u8..9],
    )
        .prop_map(|(kind, i, j, v, out)| Step { kind, i, j, v, out })
        .boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    let profs = [TINY, SMALL, Prof { w: 10, dims: &[(1, 40), (127, 127), (255, 255), (250, 260), (100, 300)], nmin: 0, nmax: 40 }, Prof { w: 2, ..LARGE }, HUGE, DICT];
    over_profiles(&profs, |p| {
        (
            ty(), exp(), mat_spec(p, false), 0u8..4, or_dict(prop_oneof![6 => 1u16..6, 1 => 6u16..60].boxed(), 400),
            any::<bool>().prop_flat_map(|s| prop_oneof![60 => prop::collection::vec(step(s), 0..12), 60 => prop::collection::vec(step(s), 10..60), 20 => prop::collection::vec(step(s), 60..250), 1 => prop::collection::vec(step(s), 250..2500)]),
        )
            .prop_map(|(ty, exp, a, start, focus, steps)| Case { ty, exp, a, start, focus, steps })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C14",
        rule: "random histories of up to 2500 set / add-to / subtract-from operations concentrated on few positions, values including 0, infinities, NaN and the smallest subnormal, positions outside the shape included; state, entry count and conversions compared with a map after every step; non-trivial: at least 8 operations, a position written at least twice, and a position that returned to zero",
        assumptions: &["integer arithmetic inside the history stays in range of the scalar type"],
        quick: 40_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
const DENSE_MAX: usize = 2_000_000;
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn outside<I: Ix>(way: u8, n: usize, other: usize, raw: u16) -> Option<(I, I)> {
    let inside = I::of(if other == 0 { 0 } else { raw as usize % other });
    let x = match way {
        1 | 2 => I::of(n),
        3 | 4 => I::max_value(),
        5 | 6 if I::is_signed() => I::min_value(),
        7 | 8 if I::is_signed() => I::zero() - I::one(),
        _ => return None,
    };
    Some((x, inside))
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    let mut m: Model<T> = Model::empty(e.rows, e.cols);
    op("DoK construction");
    let mut d: DoK<I, T> = match c.start {
        0 => DoK::new(e.rows, e.cols),
        1 => DoK::with_capacity(e.rows, e.cols, e.t.len()),
        _ => {
            if e.rows > 0 && e.rows * e.cols <= DENSE_MAX {
                m = Model::of(&e);
                m.m.retain(|_, v| !v.same(T::zero()));
                let dense = m.dense();
                let rows: Vec<&[T]> = dense.iter().map(|r| &r[..]).collect();
                DoK::from_dense(&rows)
            } else {
                DoK::new(e.rows, e.cols)
            }
        }
    };
    same(&d, &m, "start")?;
    let (fr, fc) = (e.rows.min(c.focus as usize), e.cols.min(c.focus as usize));
    // the focus window touches the far corner of the shape
    let (or, oc) = (e.rows - fr, e.cols - fc);
    let mut written: std::collections::BTreeMap<(usize, usize), u32> = Default::default();
    let (mut vanished, mut rejected) = (false, false);
    for (n, s) in c.steps.iter().enumerate() {
        if s.kind == 7 {
            conversions(&d, &m, n)?;
            continue;
        }
        // sums of integers must fit
        let small = !T::FLOAT && s.kind != 0;
        let num = |x: i16| if small && x.unsigned_abs() > 1000 { x % 50 } else { x };
        let mut v = T::mk(num(s.v.0), num(s.v.1), c.exp as i32);
        let oob: Option<(I, I)> = if s.out == 0 {
            None
        } else if s.out % 2 == 1 {
            outside::<I>(s.out, e.rows, e.cols, s.j)
        } else {
            outside::<I>(s.out, e.cols, e.rows, s.i).map(|p| (p.1, p.0))
        };
        let inside = if fr == 0 || fc == 0 || oob.is_some() {
            None
        } else {
            Some((or + s.i as usize % fr, oc + s.j as usize % fc))
        };
        let Some((r, k)) = inside else {
            let (i, j) = oob.unwrap_or((I::of(s.i as usize % (e.rows + 1)), I::of(s.j as usize % (e.cols + 1))));
            op("DoK operation outside the shape");
            let r = match s.kind {
                0 => d.set(i, j, v),
                2 => d.add(i, j, v),
                _ => d.sub(i, j, v),
            };
            if (i.us().map_or(true, |x| x >= e.rows)) || (j.us().map_or(true, |x| x >= e.cols)) {
                ensure(r.is_err(), || format!("step {n}: operation at ({i}, {j}) accepted, shape {}x{}", e.rows, e.cols))?;
                rejected = true;
            }
            same(&d, &m, &format!("step {n}: after an operation outside the shape"))?;
            continue;
        };
        let (i, j) = (I::of(r), I::of(k));
        let old = m.get(r, k);
        let mut kind = s.kind;
        if kind == 6 {
            // brings the element back to zero
            v = old;
            kind = 4;
        }
        if kind == 4 && !T::SIGNED && v.mag() > old.mag() {
            v = old;
        }
        let (res, new) = match kind {
            0 => {
                op("DoK::set");
                (d.set(i, j, v), v)
            }
            2 => {
                op("DoK::add");
                (d.add(i, j, v), old + v)
            }
            _ => {
                op("DoK::sub");
                (d.sub(i, j, v), old - v)
            }
        };
        okay(res, &format!("step {n}: operation {kind} at ({i}, {j}), shape {}x{}", e.rows, e.cols))?;
        if new.same(T::zero()) {
            vanished |= m.m.remove(&(r, k)).is_some();
        } else {
            m.m.insert((r, k), new);
        }
        *written.entry((r, k)).or_default() += 1;
        let got = d.get(i, j);
        ensure(got.same(new), || format!("step {n}: get({i}, {j}) is {got:?}, expected {new:?}"))?;
        ensure(d.nnz() == m.m.len(), || format!("step {n}: entry count {}, expected {}", d.nnz(), m.m.len()))?;
        if n % (8 + m.m.len() / 8) == 0 || e.rows * e.cols <= 64 {
            same(&d, &m, &format!("step {n}"))?;
        }
    }
    same(&d, &m, "end")?;
    conversions(&d, &m, c.steps.len())?;
    op("");
    let cov = Cov::new(c.steps.len() >= 8 && vanished && written.values().any(|&x| x >= 2))
        .class_if(vanished, "an element returned to zero")
        .class_if(rejected, "operation outside the shape")
        .class_if(c.steps.len() >= 60, "60 or more operations");
    Ok(mat_classes(cov, c.ty, &e))
}
fn same<I: Ix, T: Ts>(d: &DoK<I, T>, m: &Model<T>, what: &str) -> Result<(), String> {
    let o = obs_dok(d, what)?;
    o.m.same(m, what)?;
    ensure(d.nnz() == m.m.len(), || format!("{what}: entry count {}, expected {}", d.nnz(), m.m.len()))?;
    if m.rows * m.cols <= 100 {
        for r in 0..m.rows {
            for c in 0..m.cols {
                let v = d.get(I::of(r), I::of(c));
                ensure(v.same(m.get(r, c)), || format!("{what}: get({r}, {c}) is {v:?}, expected {:?}", m.get(r, c)))?;
            }
        }
    }
    Ok(())
}
fn conversions<I: Ix, T: Ts>(d: &DoK<I, T>, m: &Model<T>, n: usize) -> Result<(), String> {
    let want: Vec<(usize, usize, T)> = m.m.iter().map(|(&(r, c), &v)| (r, c, v)).collect();
    op("DoK::to_coo");
    let o = obs_coo(&d.to_coo(), "DoK::to_coo")?;
    o.m.same(m, &format!("step {n}: to_coo"))?;
    same_bag(&o.t, &want, &format!("step {n}: to_coo"))?;
    if m.m.len() <= I::max_us() {
        op("DoK::to_csr");
        obs_csr(&d.to_csr(), "DoK::to_csr")?.m.same(m, &format!("step {n}: to_csr"))?;
        op("DoK::to_csc");
        obs_csc(&d.to_csc(), "DoK::to_csc")?.m.same(m, &format!("step {n}: to_csc"))?;
    }
    if m.rows * m.cols > DENSE_MAX {
        return Ok(());
    }
    op("DoK::to_dense");
    let dense = d.to_dense();
    ensure(dense.len() == m.rows && dense.iter().all(|r| r.len() == m.cols), || format!("step {n}: to_dense has another shape"))?;
    for r in 0..m.rows {
        same_vec(&dense[r], &m.dense_row(r), &format!("step {n}: to_dense row {r}"))?;
    }
    Ok(())
}
