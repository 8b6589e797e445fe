//! Selection returns exactly the requested rows and columns.
use crate::prelude::*;
use crate::with_types;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct List {
    /// 0 omitted, 1 given
    given: bool,
    /// 0 as drawn, 1 ascending, 2 all in order, 3 reversed, 4 one repeated
    order: u8,
    idx: Vec<u16>,
    /// put an index outside the shape in
    bad: Option<(u16, u8)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    r: List,
    c: List,
}
fn list() -> BoxedStrategy<List> {
    (
        prop::bool::weighted(0.8),
        prop_oneof![5 => Just(0u8), 1 => 1u8..5],
        raw_list(),
        prop_oneof![14 => Just(None), 1 => (any::<u16>(), 0u8..6).prop_map(Some)],
    )
        .prop_map(|(given, order, idx, bad)| List { given, order, idx, bad })
        .boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        let canon = mat_spec(p, false).prop_map(|mut m| {
            m.e.layout = 3;
            m
        });
        (ty(), exp(), prop_oneof![7 => canon.boxed(), 1 => mat_spec(p, false)], list(), list())
            .prop_map(|(ty, exp, a, r, c)| Case { ty, exp, a, r, c })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C10",
        rule: "random mostly canonical matrix; row and column lists in any order with repeats, omitted, empty, complete, or with an index outside the shape; non-trivial: canonical source with at least 2 rows, 2 columns and 2 stored entries, both lists valid, and the result has a stored entry",
        assumptions: &["list lengths and the result's entry count fit the index type"],
        quick: 80_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn resolve(l: &List, n: usize, cap: usize) -> Option<Vec<usize>> {
    if !l.given {
        return None;
    }
    let mut v: Vec<usize> = if n == 0 { vec![] } else { l.idx.iter().map(|&x| spread(x, n)).collect() };
    match l.order {
        1 => v.sort(),
        2 => v = (0..n).collect(),
        3 => v = (0..n).rev().collect(),
        4 => {
            if let Some(&f) = v.first() {
                v.iter_mut().for_each(|x| *x = f)
            }
        }
        _ => {}
    }
    v.truncate(cap);
    Some(v)
}
fn encode<I: Ix>(v: &[usize], bad: Option<(u16, u8)>, n: usize) -> (Vec<I>, bool) {
    let mut out: Vec<I> = v.iter().map(|&x| I::of(x)).collect();
    if let Some((pos, kind)) = bad {
        let x = match kind {
            0 => I::of(n.min(I::max_us())),
            1 => I::max_value(),
            2 if I::is_signed() => I::min_value(),
            3 if I::is_signed() => I::zero() - I::one(),
            4 => I::of((n + 1).min(I::max_us())),
            _ => I::of(n),
        };
        let at = pos as usize % (out.len() + 1);
        out.insert(at, x);
        return (out, true);
    }
    (out, false)
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    let cap = I::max_us();
    let mut rl = resolve(&c.r, e.rows, cap);
    let mut cl = resolve(&c.c, e.cols, cap);
    // selection looks at every requested position
    if rl.as_ref().map_or(e.rows, |v| v.len()) * cl.as_ref().map_or(e.cols, |v| v.len()) > 20_000_000 {
        let l = if rl.is_some() || cl.is_none() { &mut rl } else { &mut cl };
        match l {
            Some(v) => v.truncate(40),
            None => *l = Some((0..e.rows).step_by(e.rows / 40 + 1).collect()),
        }
    }
    let stored: std::collections::HashSet<(usize, usize)> = e.t.iter().map(|t| (t.0, t.1)).collect();
    // the result must fit the index type
    let count = |rl: &Option<Vec<usize>>, cl: &Option<Vec<usize>>| -> usize {
        let (mut nr, mut nc) = (vec![0usize; e.rows], vec![0usize; e.cols]);
        match rl {
            None => nr.iter_mut().for_each(|x| *x = 1),
            Some(v) => v.iter().for_each(|&i| nr[i] += 1),
        }
        match cl {
            None => nc.iter_mut().for_each(|x| *x = 1),
            Some(v) => v.iter().for_each(|&i| nc[i] += 1),
        }
        stored.iter().map(|&(i, j)| nr[i] * nc[j]).sum()
    };
    while count(&rl, &cl) > cap {
        let (a, b) = (rl.as_ref().map_or(0, |v| v.len()), cl.as_ref().map_or(0, |v| v.len()));
        let longest = if a >= b { &mut rl } else { &mut cl };
        let v = longest.as_mut().unwrap();
        v.truncate(v.len() / 2);
    }
    let rows: Vec<usize> = rl.clone().unwrap_or((0..e.rows).collect());
    let cols: Vec<usize> = cl.clone().unwrap_or((0..e.cols).collect());
    let mut bad = false;
    let mut enc = |l: &Option<Vec<usize>>, spec: &List, n: usize| -> Option<Vec<I>> {
        l.as_ref().map(|v| {
            let (x, b) = encode::<I>(v, spec.bad, n);
            bad |= b;
            x
        })
    };
    let ri = enc(&rl, &c.r, e.rows);
    let ci = enc(&cl, &c.c, e.cols);
    let m = Model::of(&e);
    let want = m.select(&rows, &cols);
    let mut good = false;
    {
        let a = e.csr::<I>();
        let src = obs_csr(&a, "source")?;
        let canonical = strictly_sorted(&src.t, true, "").is_ok();
        op("CSR::select");
        match a.select(ri.as_deref(), ci.as_deref()) {
            Ok(s) => {
                ensure(canonical, || "CSR::select accepted a source that is not canonical".into())?;
                ensure(!bad, || format!("CSR::select accepted {ri:?} {ci:?} on shape {}x{}", e.rows, e.cols))?;
                let o = obs_csr(&s, "CSR::select")?;
                o.m.same(&want, "CSR::select")?;
                strictly_sorted(&o.t, true, "CSR::select")?;
                good = true;
            }
            Err(x) => ensure(!canonical || bad, || format!("CSR::select rejected a valid selection: {x}"))?,
        }
        same_seq(&obs_csr(&a, "source after select")?.t, &src.t, "source after CSR::select")?;
    }
    {
        let a = e.csc::<I>();
        let src = obs_csc(&a, "source")?;
        let canonical = strictly_sorted(&src.t, false, "").is_ok();
        op("CSC::select");
        match a.select(ri.as_deref(), ci.as_deref()) {
            Ok(s) => {
                ensure(canonical, || "CSC::select accepted a source that is not canonical".into())?;
                ensure(!bad, || format!("CSC::select accepted {ri:?} {ci:?} on shape {}x{}", e.rows, e.cols))?;
                let o = obs_csc(&s, "CSC::select")?;
                o.m.same(&want, "CSC::select")?;
                strictly_sorted(&o.t, false, "CSC::select")?;
            }
            Err(x) => ensure(!canonical || bad, || format!("CSC::select rejected a valid selection: {x}"))?,
        }
        same_seq(&obs_csc(&a, "source after select")?.t, &src.t, "source after CSC::select")?;
    }
    op("");
    let cov = Cov::new(good && busy(&e) && !want.m.is_empty())
        .class_if(bad, "index outside the shape")
        .class_if(!good && !bad, "source not canonical")
        .class_if(rl.is_none(), "rows omitted")
        .class_if(cl.is_none(), "columns omitted")
        .class_if(rows.windows(2).any(|w| w[0] > w[1]), "rows not ascending")
        .class_if(cols.windows(2).any(|w| w[0] > w[1]), "columns not ascending")
        .class_if(rows.is_empty() || cols.is_empty(), "empty list");
    Ok(mat_classes(cov, c.ty, &e))
}
