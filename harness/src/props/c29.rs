//! A triplet matrix behaves as a list of entries under any history of building steps.
use crate::prelude::*;
use crate::with_signed_types;
use std::ops::Neg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    /// 0 push  1 extend  2 overwrite a value  3 transpose  4 go on with a copy  5 negate
    /// 6 observe  7 take the transposed copy
    kind: u8,
    i: u16,
    v: (i16, i16),
    list: Vec<RawEnt>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    /// 0 new  1 with_size  2 with_capacity  3 from_dense  4 from compressed rows  5 from columns  6 identity  7 diagonal
    start: u8,
    room: u16,
    steps: Vec<Step>,
}
fn step() -> BoxedStrategy<Step> {
    let kind = prop_oneof![5 => Just(0u8), 6 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 2 => Just(4u8), 1 => Just(5u8), 3 => Just(6u8), 1 => Just(7u8)];
    (kind, any::<u16>(), val(false), prop_oneof![2 => ents(0, 3, false), 2 => ents(0, 12, false), 1 => ents(8, 80, false)])
        .prop_map(|(kind, i, v, list)| Step { kind, i, v, list })
        .boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    let profs = [TINY, SMALL, Prof { w: 10, dims: &[(1, 40), (127, 127), (255, 255), (100, 300)], nmin: 0, nmax: 140 }, Prof { w: 2, ..LARGE }, HUGE, DICT];
    over_profiles(&profs, |p| {
        let steps = prop_oneof![3 => prop::collection::vec(step(), 0..6), 4 => prop::collection::vec(step(), 3..30), 1 => prop::collection::vec(step(), 30..90)];
        (ty(), exp(), mat_spec(p, false), 0u8..8, prop_oneof![Just(0u16), 0u16..40, 0u16..2000], steps)
            .prop_map(|(ty, exp, a, start, room, steps)| Case { ty, exp, a, start, room, steps })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C29",
        rule: "random histories of up to 90 push / extend / overwrite / transpose / copy / negate steps from every kind of starting matrix, compared with a list of entries after every step and with the element model through every conversion at generated points; copies left behind are compared at the end; non-trivial: at least 3 entries added by at least 2 steps",
        assumptions: &["pushed positions lie inside the shape", "the three lists given to extend have one length", "the entry count fits the index type"],
        quick: 120_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_signed_types!(c.ty, go, c)
}
#[derive(Clone)]
struct List<T> {
    rows: usize,
    cols: usize,
    t: Vec<(usize, usize, T)>,
}
fn compare<I: Ix, T: Ts>(a: &Coo<I, T>, l: &List<T>, what: &str) -> Result<(), String> {
    ensure((a.rows(), a.cols()) == (l.rows, l.cols), || format!("{what}: shape {}x{}, expected {}x{}", a.rows(), a.cols(), l.rows, l.cols))?;
    ensure(a.nnz() == l.t.len(), || format!("{what}: entry count {}, expected {}", a.nnz(), l.t.len()))?;
    ensure([a.rowidx().len(), a.colidx().len(), a.values().len()] == [l.t.len(); 3], || {
        format!("{what}: arrays of {}, {} and {} elements, expected {}", a.rowidx().len(), a.colidx().len(), a.values().len(), l.t.len())
    })?;
    for (k, e) in l.t.iter().enumerate() {
        let (i, j, v) = (a.rowidx()[k], a.colidx()[k], a.values()[k]);
        ensure(i.us() == Some(e.0) && j.us() == Some(e.1) && v.same(e.2), || format!("{what}: entry {k} is ({i}, {j}) {v:?}, expected {e:?}"))?;
    }
    Ok(())
}
fn observe<I: Ix, T: Ts>(a: &Coo<I, T>, l: &List<T>, n: usize) -> Result<(), String> {
    let m = Model::of(&Ent { rows: l.rows, cols: l.cols, t: l.t.clone(), layout: 0 });
    op("to_csr");
    let r = obs_csr(&a.to_csr(), "to_csr")?;
    r.m.same(&m, &format!("step {n}: to_csr"))?;
    no_dups(&r.t, &format!("step {n}: to_csr"))?;
    ensure(r.t.len() == m.m.len(), || format!("step {n}: to_csr: {} positions stored, expected {}", r.t.len(), m.m.len()))?;
    op("to_csc");
    let r = obs_csc(&a.to_csc(), "to_csc")?;
    r.m.same(&m, &format!("step {n}: to_csc"))?;
    no_dups(&r.t, &format!("step {n}: to_csc"))?;
    ensure(r.t.len() == m.m.len(), || format!("step {n}: to_csc: {} positions stored, expected {}", r.t.len(), m.m.len()))?;
    if l.rows * l.cols <= 5000 {
        op("to_dense");
        let d = a.to_dense();
        ensure(d.len() == l.rows && d.iter().all(|r| r.len() == l.cols), || format!("step {n}: to_dense: wrong shape"))?;
        for (i, row) in d.iter().enumerate() {
            same_vec(row, &m.dense_row(i), &format!("step {n}: to_dense row {i}"))?;
        }
    }
    op("diagonal");
    same_vec(&a.diagonal(), &m.diag(), &format!("step {n}: diagonal"))?;
    compare(a, l, &format!("step {n}: after conversions"))
}
fn go<I: Ix, T: Ts + Neg<Output = T>>(c: &Case) -> Check {
    // next to ones, other values are whole numbers too
    let exp = if c.start % 8 == 6 { 0 } else { c.exp as i32 };
    let e: Ent<T> = realize_mat::<I, T>(&c.a, exp);
    let cap = I::max_us();
    let mut l = List { rows: e.rows, cols: e.cols, t: vec![] };
    op("construction");
    let room = (c.room as usize).min(cap);
    let n0 = e.rows.min(300);
    let mut a: Coo<I, T> = match c.start % 8 {
        0 => {
            l.t = e.t.clone();
            e.coo::<I>()
        }
        1 => Coo::with_size(e.rows, e.cols),
        2 => Coo::with_capacity(e.rows, e.cols, room),
        3 if e.rows > 0 && e.rows * e.cols <= 5000 => {
            let mut m = Model::of(&e);
            m.m.retain(|_, v| !v.same(T::zero()));
            let a = Coo::from_dense(&m.dense());
            let o = obs_coo(&a, "from_dense")?;
            o.m.same(&m, "from_dense")?;
            l.t = o.t;
            a
        }
        k @ (4 | 5) => {
            let a = if k == 4 { e.csr::<I>().to_coo() } else { e.csc::<I>().to_coo() };
            let o = obs_coo(&a, "to_coo")?;
            same_bag(&o.t, &e.t, "to_coo")?;
            l.t = o.t;
            a
        }
        6 => {
            let a = Coo::identity(n0);
            let o = obs_coo(&a, "identity")?;
            o.m.same(&Model { rows: n0, cols: n0, m: (0..n0).map(|i| ((i, i), T::one())).collect() }, "identity")?;
            l = List { rows: n0, cols: n0, t: o.t };
            a
        }
        7 => {
            let d = filler::<T>(n0, c.room, exp);
            l = List { rows: n0, cols: n0, t: vec![] };
            let a = Coo::with_diagonal(&d);
            let o = obs_coo(&a, "with_diagonal")?;
            o.m.same(&Model { rows: n0, cols: n0, m: d.iter().enumerate().map(|(i, &v)| ((i, i), v)).collect() }, "with_diagonal")?;
            l.t = o.t;
            a
        }
        _ => Coo::with_size(e.rows, e.cols),
    };
    compare(&a, &l, "start")?;
    let mut left: Vec<(usize, Coo<I, T>, List<T>)> = vec![];
    let (mut added, mut adding, mut observed, mut extended) = (0, 0, 0, false);
    for (n, s) in c.steps.iter().enumerate() {
        let open = l.rows > 0 && l.cols > 0;
        match s.kind {
            0 if open && l.t.len() < cap => {
                let x = (spread(s.i, l.rows), spread(s.i.rotate_left(7) ^ 0x5a5a, l.cols), T::mk(s.v.0, s.v.1, exp));
                op("push");
                a.push(I::of(x.0), I::of(x.1), x.2);
                l.t.push(x);
                added += 1;
                adding += 1;
            }
            1 => {
                let mut x: Vec<(usize, usize, T)> = if open {
                    s.list.iter().map(|r| (spread(r.0, l.rows), spread(r.1, l.cols), T::mk(r.2, r.3, exp))).collect()
                } else {
                    vec![]
                };
                x.truncate(cap - l.t.len());
                let (i, (j, v)): (Vec<I>, (Vec<I>, Vec<T>)) = x.iter().map(|x| (I::of(x.0), (I::of(x.1), x.2))).unzip();
                op("extend");
                a.extend(&i, &j, &v);
                extended |= !x.is_empty() && !l.t.is_empty();
                added += x.len();
                adding += !x.is_empty() as usize;
                l.t.extend(x);
            }
            2 if !l.t.is_empty() => {
                let k = s.i as usize % l.t.len();
                let v = T::mk(s.v.0, s.v.1, exp);
                op("values_mut");
                ensure(a.values_mut().len() == l.t.len(), || format!("step {n}: values_mut has {} elements, expected {}", l.t.len(), l.t.len()))?;
                a.values_mut()[k] = v;
                l.t[k].2 = v;
            }
            3 | 7 => {
                op("transpose");
                a = if s.kind == 3 { a.transpose() } else { a.t() };
                l = List { rows: l.cols, cols: l.rows, t: l.t.iter().map(|x| (x.1, x.0, x.2)).collect() };
            }
            4 => {
                op("clone");
                let mut b = a.clone();
                // either one goes on
                if s.i % 2 == 0 {
                    std::mem::swap(&mut a, &mut b);
                }
                if left.len() < 4 {
                    left.push((n, b, l.clone()));
                }
            }
            5 => {
                op("negate");
                a = -a;
                l.t.iter_mut().for_each(|x| x.2 = -x.2);
            }
            6 if observed < 4 => {
                observe(&a, &l, n)?;
                observed += 1;
            }
            _ => {}
        }
        op("");
        if l.t.len() < 2000 || n % 8 == 0 {
            compare(&a, &l, &format!("step {n}"))?;
        }
    }
    observe(&a, &l, c.steps.len())?;
    for (n, b, l) in &left {
        compare(b, l, &format!("the copy left behind at step {n}"))?;
    }
    op("");
    let cov = Cov::new(added >= 3 && adding >= 2)
        .class(format!("start {}", ["new", "with_size", "with_capacity", "from_dense", "to_coo of rows", "to_coo of columns", "identity", "with_diagonal"][(c.start % 8) as usize]))
        .class_if(extended, "entries appended to entries")
        .class_if(c.start % 8 == 2 && l.t.len() > room, "grown beyond the reserved capacity")
        .class_if(l.t.len() == cap, "entry count is the limit")
        .class_if(!left.is_empty(), "copies left behind");
    Ok(mat_classes(cov, c.ty, &Ent { rows: l.rows, cols: l.cols, t: l.t, layout: 0 }))
}
