//! Inconsistent arguments are rejected, consistent ones accepted.
use crate::prelude::*;
use crate::with_types;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    b: MatSpec,
    /// shape difference of the second operand
    dr: i8,
    dc: i8,
    /// length differences of the constructor's arrays
    len: [i8; 3],
    vec: i8,
    knob: u16,
    /// the second operand's shape: 0 as above, 1 transposed, 2 as many elements, 3 as many rows plus columns
    #[serde(default)]
    kin: u8,
}
fn strategy() -> BoxedStrategy<Case> {
    let d = || prop_oneof![3 => Just(0i8), 2 => -2i8..=2, 1 => -20i8..=20];
    over_profiles(&[TINY, SMALL, Prof { w: 20, ..MEDIUM }, Prof { w: 3, ..LIMIT }, Prof { w: 2, ..LARGE }, HUGE, DICT], move |p| {
        (ty(), exp(), mat_spec(p, false), mat_spec(p, false), d(), d(), [d(), d(), d()], d(), (any::<u16>(), prop_oneof![4 => Just(0u8), 1 => 1u8..4]))
            .prop_map(|(ty, exp, a, b, dr, dc, len, vec, (knob, kin))| Case { ty, exp, a, b, dr, dc, len, vec, knob, kin })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C20",
        rule: "random arrays with lengths as required or off by a random amount for each constructor; random operands of equal or different shape (rows, columns or both, transposed, as many elements, as many rows plus columns; with and without entries) for addition, subtraction, products and matrix-vector products in every offered form; non-trivial: some argument inconsistent, or both operands store entries",
        assumptions: &["compressed arrays longer than the last pointer may be accepted or rejected", "an operator rejects by panicking, a method by an error or a panic"],
        quick: 60_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
/// Ok(result) / Err(rejection)
fn method<R, E: std::fmt::Display>(f: impl FnOnce() -> Result<R, E>) -> Result<R, String> {
    match catch(f) {
        Ok(r) => r.map_err(|e| e.to_string()),
        Err(p) => Err(p),
    }
}
fn expect<R>(r: Result<R, String>, valid: bool, shape: impl FnOnce(&R) -> bool, what: &str, args: &dyn Fn() -> String) -> Result<(), String> {
    match (r, valid) {
        (Ok(x), true) => ensure(shape(&x), || format!("{what}: result has another shape; {}", args())),
        (Err(e), true) => Err(format!("{what}: rejected consistent arguments: {e}; {}", args())),
        (Ok(_), false) => Err(format!("{what}: accepted inconsistent arguments; {}", args())),
        (Err(_), false) => Ok(()),
    }
}
fn resize<X: Copy>(mut v: Vec<X>, d: i8, fill: X) -> Vec<X> {
    let n = (v.len() as isize + d as isize).max(0) as usize;
    v.resize(n, fill);
    v
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let cap = I::max_us();
    let e: Ent<T> = realize(dim::<I>(c.a.rows), dim::<I>(c.a.cols), &c.a.e, c.exp as i32, cap);
    let mut bad = false;

    // constructors; the pointer array's last element stays the entry count
    {
        let r = e.raw_csr::<I>();
        let nnz = I::of(r.j.len());
        let mut p = resize(r.p.clone(), c.len[0], nnz);
        if let (Some(l), true) = (p.last_mut(), c.len[0] < 0) {
            *l = nnz;
        }
        let (j, x) = (resize(r.j.clone(), c.len[1], I::zero()), resize(r.x.clone(), c.len[2], T::zero()));
        let valid = p.len() == e.rows + 1 && j.len() >= r.j.len() && x.len() >= r.x.len();
        let strict = valid && j.len() == r.j.len() && x.len() == r.x.len();
        bad |= !valid;
        let args = || format!("{} rows, {} pointers, {} entries, {} indices, {} values", e.rows, p.len(), r.j.len(), j.len(), x.len());
        op("CSR::new");
        let got = CSR::new(e.rows, e.cols, p.clone(), j.clone(), x.clone());
        if strict || !valid {
            expect(got.map(|m| (m.rows(), m.cols(), m.nnz())).map_err(|x| x.to_string()), valid, |s| *s == (e.rows, e.cols, r.j.len()), "CSR::new", &args)?;
        } else if let Ok(m) = got {
            obs_csr(&m, "CSR::new")?.m.same(&Model::of(&e), "CSR::new with longer arrays")?;
        }
    }
    {
        let r = e.raw_csc::<I>();
        let nnz = I::of(r.j.len());
        let mut p = resize(r.p.clone(), c.len[0], nnz);
        if let (Some(l), true) = (p.last_mut(), c.len[0] < 0) {
            *l = nnz;
        }
        let (j, x) = (resize(r.j.clone(), c.len[1], I::zero()), resize(r.x.clone(), c.len[2], T::zero()));
        let valid = p.len() == e.cols + 1 && j.len() >= r.j.len() && x.len() >= r.x.len();
        let strict = valid && j.len() == r.j.len() && x.len() == r.x.len();
        let args = || format!("{} columns, {} pointers, {} entries, {} indices, {} values", e.cols, p.len(), r.j.len(), j.len(), x.len());
        op("CSC::new");
        let got = CSC::new(e.rows, e.cols, j.clone(), p.clone(), x.clone());
        if strict || !valid {
            expect(got.map(|m| (m.rows(), m.cols(), m.nnz())).map_err(|x| x.to_string()), valid, |s| *s == (e.rows, e.cols, r.j.len()), "CSC::new", &args)?;
        } else if let Ok(m) = got {
            obs_csc(&m, "CSC::new")?.m.same(&Model::of(&e), "CSC::new with longer arrays")?;
        }
    }
    {
        let ri = resize(e.t.iter().map(|t| I::of(t.0)).collect(), c.len[0], I::zero());
        let ci = resize(e.t.iter().map(|t| I::of(t.1)).collect(), c.len[1], I::zero());
        let x = resize(e.t.iter().map(|t| t.2).collect(), c.len[2], T::zero());
        let valid = ri.len() == ci.len() && ci.len() == x.len();
        let n = x.len();
        let args = || format!("{} row indices, {} column indices, {} values", ri.len(), ci.len(), x.len());
        op("Coo::new");
        let got = Coo::new(e.rows, e.cols, ri.clone(), ci.clone(), x.clone());
        expect(got.map(|m| (m.rows(), m.cols(), m.nnz())).map_err(|x| x.to_string()), valid, |s| *s == (e.rows, e.cols, n), "Coo::new", &args)?;
    }

    // sums
    let shift = |n: usize, d: i8| (n as isize + d as isize).clamp(0, cap as isize) as usize;
    let a: Ent<T> = realize(e.rows, e.cols, &c.a.e, c.exp as i32, cap / 2);
    // other shapes that a coarse comparison takes for the same
    let area = |r: usize, k: usize| {
        let n = r * k;
        let div = (2..=n.min(600)).filter(|d| n % d == 0 && n / d <= cap.min(200_000) && *d <= cap).collect::<Vec<_>>();
        if div.is_empty() { (k, r) } else { let d = div[c.knob as usize % div.len()]; (d, n / d) }
    };
    let (br, bc) = match c.kin {
        1 => (e.cols, e.rows),
        2 => area(e.rows, e.cols),
        3 => {
            let d = (c.dr.unsigned_abs() as usize).min(e.cols).min(cap - e.rows);
            (e.rows + d, e.cols - d)
        }
        _ => (shift(e.rows, c.dr), shift(e.cols, c.dc)),
    };
    let b: Ent<T> = realize(br, bc, &c.b.e, c.exp as i32, cap / 2);
    let valid = (a.rows, a.cols) == (b.rows, b.cols);
    bad |= !valid;
    let args = || format!("{}x{} ({} entries) and {}x{} ({} entries)", a.rows, a.cols, a.t.len(), b.rows, b.cols, b.t.len());
    let (ra, rb, ca, cb, oa, ob) = (a.csr::<I>(), b.csr::<I>(), || a.csc::<I>(), || b.csc::<I>(), a.coo::<I>(), b.coo::<I>());
    let sr = |m: &CSR<I, T>| (m.rows(), m.cols()) == (a.rows, a.cols);
    let sc = |m: &CSC<I, T>| (m.rows(), m.cols()) == (a.rows, a.cols);
    op("addition");
    expect(catch(|| &ra + &rb), valid, sr, "&CSR + &CSR", &args)?;
    expect(catch(|| ra.clone() + rb.clone()), valid, sr, "CSR + CSR", &args)?;
    expect(catch(|| &ca() + &cb()), valid, sc, "&CSC + &CSC", &args)?;
    expect(catch(|| ca() + cb()), valid, sc, "CSC + CSC", &args)?;
    expect(catch(|| &oa + &ob), valid, sr, "&Coo + &Coo", &args)?;
    expect(catch(|| oa.clone() + ob.clone()), valid, sr, "Coo + Coo", &args)?;
    expect(method(|| ca().add(&cb())), valid, sc, "CSC::add", &args)?;
    if T::SIGNED {
        op("subtraction");
        expect(catch(|| &ra - &rb), valid, sr, "&CSR - &CSR", &args)?;
        expect(catch(|| ra.clone() - rb.clone()), valid, sr, "CSR - CSR", &args)?;
        expect(catch(|| &ca() - &cb()), valid, sc, "&CSC - &CSC", &args)?;
        expect(catch(|| ca() - cb()), valid, sc, "CSC - CSC", &args)?;
        expect(method(|| ca().subtract(&cb())), valid, sc, "CSC::subtract", &args)?;
    }

    // products
    let mut a = a.clone();
    // also rows that fit rows, or shapes equal to the first operand's
    let (br, bc) = match c.kin {
        1 => (e.rows, dim::<I>(c.b.cols)),
        2 => (e.rows, e.cols),
        3 => (dim::<I>(c.b.cols), e.cols),
        _ => (shift(e.cols, c.dr), dim::<I>(c.b.cols)),
    };
    let mut b: Ent<T> = realize(br, bc, &c.b.e, c.exp as i32, cap);
    let valid = a.cols == b.rows;
    if valid {
        fit_product::<I, T>(&mut a, &mut b);
    }
    bad |= !valid;
    let args = || format!("{}x{} ({} entries) and {}x{} ({} entries)", a.rows, a.cols, a.t.len(), b.rows, b.cols, b.t.len());
    let (ra, rb, ca, cb) = (a.csr::<I>(), b.csr::<I>(), || a.csc::<I>(), || b.csc::<I>());
    let sr = |m: &CSR<I, T>| (m.rows(), m.cols()) == (a.rows, b.cols);
    let sc = |m: &CSC<I, T>| (m.rows(), m.cols()) == (a.rows, b.cols);
    op("product");
    expect(method(|| ra.mat_mat(&rb)), valid, sr, "CSR::mat_mat", &args)?;
    expect(catch(|| &ra * &rb), valid, sr, "&CSR * &CSR", &args)?;
    expect(method(|| ca().mat_mat(&cb())), valid, sc, "CSC::mat_mat", &args)?;
    expect(catch(|| &ca() * &cb()), valid, sc, "&CSC * &CSC", &args)?;
    expect(catch(|| &ca() * &rb), valid, sc, "&CSC * &CSR", &args)?;

    // matrix times vector
    let n = if c.kin == 1 { a.rows } else { shift(a.cols, c.vec) };
    let x: Vec<T> = filler(n, c.knob, 0);
    let valid = n == a.cols;
    bad |= !valid;
    let args = || format!("{}x{} ({} entries) and a vector of {n}", a.rows, a.cols, a.t.len());
    let sv = |v: &Vec<T>| v.len() == a.rows;
    op("matrix times vector");
    expect(method(|| ra.mat_vec(&x)), valid, sv, "CSR::mat_vec", &args)?;
    expect(catch(|| &ra * &x[..]), valid, sv, "&CSR * &[T]", &args)?;
    expect(catch(|| &ra * &x), valid, sv, "&CSR * &Vec", &args)?;
    expect(method(|| ca().mat_vec(&x)), valid, sv, "CSC::mat_vec", &args)?;
    expect(catch(|| &ca() * &x[..]), valid, sv, "&CSC * &[T]", &args)?;
    expect(catch(|| &ca() * &x), valid, sv, "&CSC * &Vec", &args)?;
    op("");
    let cov = Cov::new(bad || (!a.t.is_empty() && !b.t.is_empty()))
        .class_if(bad, "some argument inconsistent")
        .class_if(!bad, "every argument consistent")
        .class_if(b.t.is_empty(), "second operand without entries");
    Ok(mat_classes(cov, c.ty, &e))
}
