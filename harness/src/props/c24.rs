//! Any chain of operations equals the same chain on dense matrices.
use crate::prelude::*;
use crate::with_signed_types;
use std::ops::Neg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    op: u8,
    /// operands (reduced to the pool's size) and variants
    a: u8,
    b: u8,
    v: u8,
    k: i16,
    val: (i16, i16),
    list: Vec<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    /// (format, matrix)
    init: Vec<(u8, MatSpec)>,
    steps: Vec<Step>,
}
const N_OP: u8 = 18;
fn strategy() -> BoxedStrategy<Case> {
    let dims: &[(u16, u16)] = &[(1, 4), (3, 3), (2, 9)];
    let profs = [
        Prof { w: 60, dims, nmin: 0, nmax: 14 },
        Prof { w: 12, dims: &[(5, 25), (12, 12)], nmin: 0, nmax: 80 },
        Prof { w: 2, dims: &[(20, 60), (64, 64), (100, 127)], nmin: 20, nmax: 260 },
        Prof { w: 1, dims: &[(1, 5), (200, 300), (2, 600)], nmin: 0, nmax: 900 },
        Prof { w: 2, ..DICT },
    ];
    over_profiles(&profs, |p| {
        let step = (
            0..N_OP, any::<u8>(), any::<u8>(), any::<u8>(), -9i16..=9, val(false),
            prop::collection::vec(any::<u16>(), 0..7),
        )
            .prop_map(|(op, a, b, v, k, val, list)| Step { op, a, b, v, k, val, list });
        // equal shapes are what makes most operations applicable
        let same = any::<bool>();
        (ty(), same, prop::collection::vec((0u8..4, mat_spec(p, false)), 1..=4), prop::collection::vec(step, 1..=14))
            .prop_map(|(ty, same, mut init, steps)| {
                if same {
                    let (r, c) = (init[0].1.rows, init[0].1.cols);
                    init.iter_mut().for_each(|m| {
                        m.1.rows = r;
                        m.1.cols = c;
                    });
                }
                Case { ty, init, steps }
            })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C24",
        rule: "random programs of up to 14 operations (conversion, transposition, addition, subtraction, product, scaling, negation, selection, stacking, block composition, canonicalisation, element updates, diagonal, upper triangle, dense round trip, matrix-vector product, lookup) over a pool of 1 to 4 random matrices of any format; every result is compared with the dense model and joins the pool; non-trivial: at least 3 operations took effect",
        assumptions: &["every number stays small enough to be exact", "dimensions and entry counts, including those of a result before entries are merged or dropped, fit the index type"],
        quick: 300_000,
        thorough_factor: 30,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_signed_types!(c.ty, go, c)
}
enum F<I, T> {
    Csr(CSR<I, T>),
    Csc(CSC<I, T>),
    Tri(Coo<I, T>),
    Dok(DoK<I, T>),
}
use F::*;
impl<I: Ix, T: Ts> F<I, T> {
    fn nnz(&self) -> usize {
        match self {
            Csr(x) => x.nnz(),
            Csc(x) => x.nnz(),
            Tri(x) => x.nnz(),
            Dok(x) => x.nnz(),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Csr(_) => "CSR",
            Csc(_) => "CSC",
            Tri(_) => "Coo",
            Dok(_) => "DoK",
        }
    }
    fn csr(&self) -> CSR<I, T> {
        match self {
            Csr(x) => x.clone(),
            Csc(x) => x.to_csr(),
            Tri(x) => x.to_csr(),
            Dok(x) => x.to_csr(),
        }
    }
    fn csc(&self) -> CSC<I, T> {
        match self {
            Csr(x) => x.to_csc(),
            Csc(x) => CSC::new(x.rows(), x.cols(), x.rowidx().to_vec(), x.colptr().to_vec(), x.values().to_vec()).expect("CSC::new of a CSC's own arrays"),
            Tri(x) => x.to_csc(),
            Dok(x) => x.to_csc(),
        }
    }
    fn coo(&self) -> Coo<I, T> {
        match self {
            Csr(x) => x.to_coo(),
            Csc(x) => x.to_coo(),
            Tri(x) => x.clone(),
            Dok(x) => x.to_coo(),
        }
    }
    fn obs(&self, what: &str) -> Result<Obs<T>, String> {
        match self {
            Csr(x) => obs_csr(x, what),
            Csc(x) => obs_csc(x, what),
            Tri(x) => obs_coo(x, what),
            Dok(x) => obs_dok(x, what),
        }
    }
}
struct M<I, T> {
    f: F<I, T>,
    m: Model<T>,
}
fn go<I: Ix, T: Ts + Neg<Output = T>>(c: &Case) -> Check {
    let cap = I::max_us();
    // exact in every scalar type in use
    let limit: f64 = match T::NAME {
        "f32" | "Complex32" => 2e6,
        "i32" => 5e8,
        _ => 1e15,
    };
    let mut pool: Vec<M<I, T>> = vec![];
    for (f, s) in &c.init {
        let e: Ent<T> = realize_mat::<I, T>(s, 0);
        let f = match f % 4 {
            0 => Csr(e.csr()),
            1 => Csc(e.csc()),
            2 => Tri(e.coo()),
            _ => Dok(e.dok()),
        };
        pool.push(M { f, m: Model::of(&e) });
    }
    let mut done = 0usize;
    let mut seen = std::collections::BTreeSet::new();
    let mut trail: Vec<String> = vec![];
    for s in &c.steps {
        let ia = s.a as usize % pool.len();
        let (what, res) = {
            let a = &pool[ia];
            // the second operand: the b-th one that fits
            let fit = |p: &dyn Fn(&Model<T>) -> bool| -> Option<&M<I, T>> {
                let v: Vec<&M<I, T>> = pool.iter().filter(|x| p(&x.m)).collect();
                (!v.is_empty()).then(|| v[s.b as usize % v.len()])
            };
            match apply::<I, T>(a, &fit, s, cap, limit, &trail)? {
                Some(r) => r,
                None => continue,
            }
        };
        trail.push(what.clone());
        let label = || format!("after {}", trail.join("; "));
        if let Some(r) = res {
            let o = r.f.obs(&label())?;
            o.m.same(&r.m, &label())?;
            seen.insert(r.f.name());
            if r.m.rows <= 130 && r.m.cols <= 130 && r.f.nnz() <= 3000 {
                if pool.len() < 6 {
                    pool.push(r);
                } else {
                    let slot = s.b as usize % pool.len();
                    pool[slot] = r;
                }
            }
        }
        done += 1;
    }
    op("");
    Ok(Cov::new(done >= 3)
        .class(format!("type {}", TYPE_NAMES[(c.ty % N_TYPES) as usize]))
        .class(format!("operations in effect: {}", if done >= 8 { "8 or more".into() } else { done.to_string() }))
        .class(format!("result formats: {}", seen.len())))
}
type Fit<'a, I, T> = dyn Fn(&dyn Fn(&Model<T>) -> bool) -> Option<&'a M<I, T>> + 'a;

fn apply<'a, I: Ix, T: Ts + Neg<Output = T>>(
    a: &'a M<I, T>,
    fit: &Fit<'a, I, T>,
    s: &Step,
    cap: usize,
    limit: f64,
    trail: &[String],
) -> Result<Option<(String, Option<M<I, T>>)>, String> {
    let (nr, nc) = a.m.shape();
    let nz = a.f.nnz();
    let at = |what: &str, e: &dyn std::fmt::Display| format!("{what} after {}: {e}", trail.join("; "));
    let done = |what: String, f: F<I, T>, m: Model<T>| Ok(Some((what, Some(M { f, m }))));
    // entry magnitudes: a stored entry may exceed its element when duplicates cancel
    let mag = |m: &M<I, T>| -> f64 {
        match m.f.obs("operand") {
            Ok(o) => o.t.iter().map(|e| e.2.mag()).sum::<f64>(),
            Err(_) => f64::INFINITY,
        }
    };
    macro_rules! need {
        ($c:expr) => {
            if !$c {
                return Ok(None);
            }
        };
    }
    match s.op {
        // conversion
        0 | 1 => {
            let (f, n) = match s.v % 3 {
                0 => ("to CSR", Csr(a.f.csr())),
                1 => ("to CSC", Csc(a.f.csc())),
                _ => ("to Coo", Tri(a.f.coo())),
            };
            op("conversion");
            done(format!("{} {f}", a.f.name()), n, a.m.clone())
        }
        2 => {
            op("transpose");
            let f = match &a.f {
                Csr(x) if s.v % 2 == 0 => Csc(x.t()),
                Csr(x) => Csc(x.clone().transpose()),
                Csc(x) if s.v % 2 == 0 => Csr(x.t()),
                Csc(x) => Csr(x.transpose()),
                Tri(x) if s.v % 2 == 0 => Tri(x.t()),
                Tri(x) => Tri(x.clone().transpose()),
                Dok(x) => Tri(x.to_coo().t()),
            };
            done(format!("{} transposed", a.f.name()), f, a.m.t())
        }
        3..=6 => {
            let sub = s.op >= 5;
            let b = fit(&|m| m.shape() == (nr, nc)).expect("the first operand fits");
            need!(nz + b.f.nnz() <= cap && mag(a) + mag(b) <= limit);
            let m = if sub { a.m.sub(&b.m) } else { a.m.add(&b.m) };
            let w = format!("{} {} {}", a.f.name(), if sub { "-" } else { "+" }, b.f.name());
            op("addition/subtraction");
            let f = match (s.v % 4, sub) {
                (0, false) => Csr(a.f.csr() + b.f.csr()),
                (0, true) => Csr(a.f.csr() - b.f.csr()),
                (1, false) => Csc(a.f.csc() + b.f.csc()),
                (1, true) => Csc(a.f.csc() - b.f.csc()),
                (2, false) => Csc(a.f.csc().add(&b.f.csc()).map_err(|e| at(&w, &e))?),
                (2, true) => Csc(a.f.csc().subtract(&b.f.csc()).map_err(|e| at(&w, &e))?),
                (_, false) => Csr(&a.f.coo() + &b.f.coo()),
                (_, true) => Csr(a.f.coo() + -b.f.coo()),
            };
            done(w, f, m)
        }
        7 | 8 => {
            let b = fit(&|m| m.rows == nc);
            let (bm, bf, w) = match b {
                Some(b) => (b.m.clone(), b.f.csr(), b.f.name()),
                None => (a.m.t(), a.f.csc().t(), "its transpose"),
            };
            let w = format!("{} * {w}", a.f.name());
            op("product");
            let ea = Ent { rows: nr, cols: nc, t: a.f.obs("operand")?.t, layout: 0 };
            let eb = Ent { rows: bm.rows, cols: bm.cols, t: obs_csr(&bf, "operand")?.t, layout: 0 };
            let sb: f64 = eb.t.iter().map(|e| e.2.mag()).sum();
            need!(mag(a) * sb <= limit && reach(&ea, &eb) <= cap.min(6000));
            let m = a.m.mul(&bm);
            let f = match s.v % 5 {
                0 => Csr(a.f.csr() * bf),
                1 => Csr(a.f.csr().mat_mat(&bf).map_err(|e| at(&w, &e))?),
                2 => Csc(a.f.csc() * bf.to_csc()),
                3 => Csc(a.f.csc().mat_mat(&bf.to_csc()).map_err(|e| at(&w, &e))?),
                _ => Csc(a.f.csc() * bf),
            };
            done(w, f, m)
        }
        9 => {
            let k = T::mk(s.val.0, s.val.1, 0);
            need!(mag(a) * k.mag() <= limit);
            op("scalar product");
            let f = if s.v % 2 == 0 { Csr(a.f.csr() * k) } else { Csc(&a.f.csc() * k) };
            done(format!("{} * {k}", a.f.name()), f, a.m.map(|_, _, v| v * k))
        }
        10 => {
            op("negation");
            let f = match s.v % 3 {
                0 => Csr(-a.f.csr()),
                1 => Csc(-a.f.csc()),
                _ => Tri(-a.f.coo()),
            };
            done(format!("-{}", a.f.name()), f, a.m.map(|_, _, v| -v))
        }
        11 => {
            need!(nr > 0 && nc > 0);
            let rows: Vec<usize> = s.list.iter().map(|&x| x as usize % nr).collect();
            let cols: Vec<usize> = s.list.iter().rev().map(|&x| (x >> 4) as usize % nc).collect();
            let (all_r, all_c): (Vec<usize>, Vec<usize>) = ((0..nr).collect(), (0..nc).collect());
            let (r, cs) = (if s.v & 4 == 0 { &rows } else { &all_r }, if s.v & 8 == 0 { &cols } else { &all_c });
            let m = a.m.select(r, cs);
            need!(r.len() <= cap && cs.len() <= cap && m.m.len() <= cap);
            let ri: Vec<I> = rows.iter().map(|&x| I::of(x)).collect();
            let ci: Vec<I> = cols.iter().map(|&x| I::of(x)).collect();
            let (ri, ci) = ((s.v & 4 == 0).then_some(ri.as_slice()), (s.v & 8 == 0).then_some(ci.as_slice()));
            let w = format!("{} select {ri:?} {ci:?}", a.f.name());
            op("selection");
            let f = if s.v % 2 == 0 {
                let mut x = a.f.csr();
                x.sum_duplicates().map_err(|e| at(&w, &e))?;
                Csr(x.select(ri, ci).map_err(|e| at(&w, &e))?)
            } else {
                let mut x = a.f.csc();
                x.sum_duplicates();
                Csc(x.select(ri, ci).map_err(|e| at(&w, &e))?)
            };
            done(w, f, m)
        }
        12 => {
            op("stacking");
            let horizontal = s.v % 2 == 0;
            let b = fit(&|m| if horizontal { m.rows == nr } else { m.cols == nc }).expect("the first operand fits");
            let three = s.v & 2 != 0;
            let n = 1 + three as usize;
            need!(nz + n * b.f.nnz() <= cap && if horizontal { nc + n * b.m.cols <= cap } else { nr + n * b.m.rows <= cap });
            let w = format!("{} {} {}", a.f.name(), if horizontal { "beside" } else { "above" }, b.f.name());
            let (x, y) = (a.f.coo(), b.f.coo());
            let (f, m) = match (horizontal, three) {
                (true, false) if s.v & 4 != 0 => (CSR::h_stack(&a.f.csr(), &b.f.csr()).map(Csr), a.m.hstack(&b.m)),
                (true, false) => (Coo::h_stack(&x, &y).map(Tri), a.m.hstack(&b.m)),
                (true, true) => (Coo::h_stack3(&y, &x, &y).map(Tri), b.m.hstack(&a.m.hstack(&b.m))),
                (false, false) => (Coo::v_stack(&x, &y).map(Tri), a.m.vstack(&b.m)),
                (false, true) => (Coo::v_stack3(&y, &x, &y).map(Tri), b.m.vstack(&a.m.vstack(&b.m))),
            };
            done(w.clone(), f.map_err(|e| at(&w, &e))?, m)
        }
        13 => {
            op("canonicalisation");
            let w = format!("{} canonicalised ({})", a.f.name(), s.v % 4);
            let f = match s.v % 4 {
                0 => {
                    let mut x = a.f.csr();
                    x.sum_duplicates().map_err(|e| at(&w, &e))?;
                    ensure(x.has_canonical_format(), || at(&w, &"not canonical"))?;
                    Csr(x)
                }
                1 => {
                    let mut x = a.f.csc();
                    x.sum_duplicates();
                    ensure(x.has_canonical_format(), || at(&w, &"not canonical"))?;
                    Csc(x)
                }
                2 => {
                    let mut x = a.f.csr();
                    x.sort_indexes();
                    ensure(x.has_sorted_indexes(), || at(&w, &"not sorted"))?;
                    Csr(x)
                }
                _ => {
                    let mut x = a.f.csc();
                    x.sort_indexes();
                    ensure(x.has_sorted_indexes(), || at(&w, &"not sorted"))?;
                    Csc(x)
                }
            };
            done(w, f, a.m.clone())
        }
        // element updates
        14 => {
            let v = T::mk(s.val.0, s.val.1, 0);
            let pick = s.list.first().copied().unwrap_or(0) as usize;
            let mut m = a.m.clone();
            match (&a.f, s.v % 3) {
                (Dok(x), w) => {
                    need!(nr > 0 && nc > 0);
                    let (i, j) = (pick % nr, (pick >> 5) % nc);
                    let (mut y, old) = (x.clone_of(), m.get(i, j));
                    op("DoK update");
                    let r = match w {
                        0 => y.set(I::of(i), I::of(j), v),
                        1 => y.add(I::of(i), I::of(j), v),
                        _ => y.sub(I::of(i), I::of(j), v),
                    };
                    r.map_err(|e| at("DoK update", &e))?;
                    m.m.insert((i, j), match w {
                        0 => v,
                        1 => old + v,
                        _ => old - v,
                    });
                    done(format!("DoK update {w} ({i}, {j}) {v}"), Dok(y), m)
                }
                (_, 0) => {
                    need!(nr > 0 && nc > 0 && nz < cap);
                    let (i, j) = (pick % nr, (pick >> 5) % nc);
                    let mut y = a.f.coo();
                    op("Coo::push");
                    y.push(I::of(i), I::of(j), v);
                    m.m.insert((i, j), m.get(i, j) + v);
                    done(format!("push ({i}, {j}) {v}"), Tri(y), m)
                }
                (f, w) => {
                    need!(nz > 0);
                    let k = pick % nz;
                    let t = f.obs("operand")?.t;
                    op("values_mut");
                    let mut y = match f {
                        Csr(x) => Csr(x.clone()),
                        Csc(_) => Csc(f.csc()),
                        _ => Tri(f.coo()),
                    };
                    let vals = match &mut y {
                        Csr(x) => x.values_mut(),
                        Csc(x) => x.values_mut(),
                        Tri(x) => x.values_mut(),
                        Dok(_) => unreachable!(),
                    };
                    let (i, j, old) = t[k];
                    vals[k] = v;
                    m.m.insert((i, j), m.get(i, j) - old + v);
                    done(format!("values_mut[{k}] = {v} ({w})"), y, m)
                }
            }
        }
        15 => {
            op("dense round trip");
            need!(nr > 0 && nr * nc <= 3000);
            let d = match &a.f {
                Dok(x) => x.to_dense(),
                Tri(x) => x.to_dense(),
                f => f.csc().to_dense(),
            };
            need!(a.m.nonzeros() <= cap);
            let f = match s.v % 4 {
                0 => Csr(CSR::from_dense(&d)),
                1 => Csc(CSC::from_dense(&d)),
                2 => Tri(Coo::from_dense(&d)),
                _ => Dok(DoK::from_dense(&d.iter().map(|r| r.as_slice()).collect::<Vec<_>>())),
            };
            done(format!("{} through dense", a.f.name()), f, a.m.clone())
        }
        16 => {
            op("upper/diagonal");
            if s.v % 2 == 0 {
                need!(s.k >= 0 || I::is_signed());
                let k = <I as num_traits::NumCast>::from(s.k).expect("small");
                let mut m = a.m.clone();
                m.m.retain(|p, _| p.0 as i64 + s.k as i64 <= p.1 as i64);
                done(format!("{} upper {}", a.f.name(), s.k), Tri(a.f.coo().upper(k)), m)
            } else {
                let d = match &a.f {
                    Csr(x) => x.diagonal(),
                    Csc(x) => x.diagonal(),
                    f => f.coo().diagonal(),
                };
                let n = nr.min(nc);
                let mut m = Model::empty(n, n);
                (0..n).for_each(|i| {
                    m.m.insert((i, i), a.m.get(i, i));
                });
                let f = match s.v / 2 % 3 {
                    0 => Csr(CSR::with_diagonal(d)),
                    1 => Csc(CSC::with_diagonal(d)),
                    _ => Tri(Coo::with_diagonal(&d)),
                };
                done(format!("{} diagonal", a.f.name()), f, m)
            }
        }
        // queries
        _ => {
            op("matrix-vector product");
            let x = filler::<T>(nc, s.val.0 as u16, 0);
            need!(mag(a) * 8.0 <= limit);
            let want = a.m.mul_vec(&x, &vec![T::zero(); nr]);
            let w = format!("{} * vector", a.f.name());
            let y = match (&a.f, s.v % 2) {
                (Csc(f), 0) => f.mat_vec(&x).map_err(|e| at(&w, &e))?,
                (Csc(f), _) => f * &x,
                (f, 0) => f.csr().mat_vec(&x).map_err(|e| at(&w, &e))?,
                (f, _) => f.csr() * x.as_slice(),
            };
            same_vec(&y, &want, &at(&w, &"product"))?;
            op("lookup");
            if nr > 0 && nc > 0 {
                let c = a.f.csr();
                for &l in &s.list {
                    let (i, j) = (l as usize % nr, (l >> 5) as usize % nc);
                    let g = match &a.f {
                        Dok(d) => d.get(I::of(i), I::of(j)),
                        _ => c.get(I::of(i), I::of(j)),
                    };
                    ensure(g.same(a.m.get(i, j)), || at(&format!("{} get ({i}, {j})", a.f.name()), &format!("{g:?}, expected {:?}", a.m.get(i, j))))?;
                }
            }
            Ok(Some((w, None)))
        }
    }
}
trait CloneOf {
    fn clone_of(&self) -> Self;
}
impl<I: Ix, T: Ts> CloneOf for DoK<I, T> {
    fn clone_of(&self) -> Self {
        let mut d = DoK::new(self.rows(), self.cols());
        for (&(i, j), &v) in self.iter() {
            d.set(i, j, v).expect("DoK::set of a DoK's own entry");
        }
        d
    }
}
