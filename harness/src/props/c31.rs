//! Time and memory stay proportional to what is stored.
use crate::prelude::*;
use sparsetools::graph::{connected_components, Connection};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts this thread's live bytes.
struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn count(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static COUNTING: Counting = Counting;

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread, in seconds.
fn cpu() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0, "harness: no thread clock");
    t.s as f64 + t.ns as f64 * 1e-9
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    pat: u8,
    n: u32,
    knob: u32,
    /// 0 shuffled, 1 as the pattern has it, 2 backwards
    order: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    rows: u32,
    cols: u32,
    square: bool,
    a: Shape,
    b: Shape,
    c: Shape,
    c_cols: u32,
}
const N_PAT: u8 = 13;
const PATS: [&str; 13] = [
    "uniform", "diagonal", "dense row", "dense column", "one position", "band", "empty", "few rows", "few columns", "path", "path backwards",
    "permutation", "corners",
];
fn shape() -> BoxedStrategy<Shape> {
    (0..N_PAT, prop_oneof![1 => 0u32..100, 4 => 1000u32..200_000], any::<u32>(), 0u8..3)
        .prop_map(|(pat, n, knob, order)| Shape { pat, n, knob, order })
        .boxed()
}
fn strategy() -> BoxedStrategy<Case> {
    let d = || prop_oneof![1 => 1u32..5, 8 => 100_000u32..250_000, 1 => 20_000u32..100_000].boxed();
    (0u8..4, d(), d(), any::<bool>(), (shape(), shape(), shape()), prop_oneof![1u32..5, 1000u32..150_000])
        .prop_map(|(ty, rows, cols, square, (a, b, c), c_cols)| Case { ty, rows, cols: if square { rows } else { cols }, square, a, b, c, c_cols })
        .boxed()
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C31",
        rule: "matrices of up to 250000 rows and columns with up to some 200000 entries in 13 patterns (uniform, diagonal, one dense row or column, everything at one position, band, paths, permutation, empty, ..), forwards, backwards and shuffled; processor time and peak heap growth of every operation measured against a bound linear in dimensions, entries, result and elementary products, about 30 times what the unchanged code needs; non-trivial: rows x columns is at least 10^9",
        assumptions: &[
            "bound: 0.3 s + 4 us (selection: 0.5 us) and 1 MB + 400 bytes per row, column, stored entry of operands and result, requested position and elementary product; thread processor time, best of three",
            "not covered: dense conversions, the table form, depth-first order and the frontier-based component method",
        ],
        quick: 320,
        thorough_factor: 30,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    match c.ty % 4 {
        0 => go::<usize, f64>(c),
        1 => go::<u32, Complex<f64>>(c),
        2 => go::<i32, i64>(c),
        _ => go::<i64, f32>(c),
    }
}
fn entries<T: Ts>(rows: usize, cols: usize, s: &Shape) -> Ent<T> {
    let n = s.n as usize;
    let k = s.knob as usize;
    let mix = |i: usize| ((i as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ ((k as u64) << 7)).wrapping_mul(0xBF58476D1CE4E5B9);
    let least = rows.min(cols);
    let at = |i: usize| -> (usize, usize) {
        let h = mix(i);
        let (u, v) = ((h >> 40) as usize, (h >> 16 & 0xffffff) as usize);
        match s.pat % N_PAT {
            0 => (u % rows, v % cols),
            1 => (i % least, i % least),
            2 => if i % 4 == 0 { (u % rows, v % cols) } else { (k % rows, i % cols) },
            3 => if i % 4 == 0 { (u % rows, v % cols) } else { (i % rows, k % cols) },
            4 => (k % rows, k / 3 % cols),
            5 => (i / 3 % rows, (i / 3 % rows * cols / rows + i % 3) % cols),
            7 => (rows - 1 - u % rows.min(3), v % cols),
            8 => (u % rows, v % cols.min(3)),
            9 => (i % least, (i % least + 1) % cols),
            10 => ((i % least + 1) % rows, i % least),
            11 => (i % rows, (i % rows * 7919 + k) % cols),
            _ => (if u % 2 == 0 { 0 } else { rows - 1 }, if v % 2 == 0 { 0 } else { cols - 1 }),
        }
    };
    let n = if s.pat % N_PAT == 6 { 0 } else { n };
    let mut t: Vec<(usize, usize, T)> = (0..n).map(|i| (at(i), T::mk(1 + (i % 5) as i16 - 3, 1, 0))).map(|((r, c), v)| (r, c, v)).collect();
    match s.order % 3 {
        0 => t.sort_by_key(|e| mix(e.0 * 31 + e.1)),
        2 => t.reverse(),
        _ => {}
    }
    Ent { rows, cols, t, layout: 0 }
}
struct Meter {
    /// rows, columns and entries of the operands
    base: usize,
    worst: (f64, &'static str),
    worst_mem: (f64, &'static str),
}
impl Meter {
    fn run<R>(&mut self, name: &'static str, extra: usize, f: impl FnMut() -> R) -> Result<R, String> {
        self.within(4e-6, name, extra, f)
    }
    fn within<R>(&mut self, unit: f64, name: &'static str, extra: usize, mut f: impl FnMut() -> R) -> Result<R, String> {
        op(name);
        let total = (self.base + extra) as f64;
        let (limit, room) = (0.3 + unit * total, 1e6 + 400.0 * total);
        let mut best = (f64::MAX, f64::MAX);
        for _ in 0..3 {
            let live = LIVE.with(|l| l.get());
            PEAK.with(|p| p.set(live));
            let t0 = cpu();
            let r = f();
            let (t, m) = (cpu() - t0, (PEAK.with(|p| p.get()) - live) as f64);
            best = (best.0.min(t), best.1.min(m));
            if t <= limit && m <= room {
                if t / limit > self.worst.0 {
                    self.worst = (t / limit, name);
                }
                if m / room > self.worst_mem.0 {
                    self.worst_mem = (m / room, name);
                }
                return Ok(r);
            }
            if t > 5.0 * limit {
                break;
            }
        }
        if best.0 > limit {
            return Err(format!("{name}: {:.2} s of processor time for {total} rows, columns, entries and products (bound {limit:.2} s)", best.0));
        }
        Err(format!("{name}: heap grew by {} bytes for {total} rows, columns, entries and products (bound {room})", best.1))
    }
}
fn terms<T: Ts>(a: &Ent<T>, b: &Ent<T>) -> usize {
    let mut n = vec![0usize; a.cols];
    b.t.iter().for_each(|t| n[t.0] += 1);
    a.t.iter().map(|t| n[t.1]).sum()
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let (nr, nc) = (c.rows as usize, c.cols as usize);
    let a: Ent<T> = entries(nr, nc, &c.a);
    let b: Ent<T> = entries(nr, nc, &c.b);
    let mut d: Ent<T> = entries(nc, c.c_cols as usize, &c.c);
    let mut a2 = a.clone();
    while terms(&a2, &d) > 2_000_000 {
        let x = if a2.t.len() > d.t.len() { &mut a2.t } else { &mut d.t };
        x.truncate(x.len() / 2);
    }
    let products = terms(&a2, &d);
    let (csr, csc, coo, b_csr, b_csc, b_coo) = (a.csr::<I>(), a.csc::<I>(), a.coo::<I>(), b.csr::<I>(), b.csc::<I>(), b.coo::<I>());
    let (ra, rb, rac) = (a.raw_csr::<I>(), b.raw_csr::<I>(), a.raw_csc::<I>());
    let (na, nb) = (a.t.len(), b.t.len());
    let mut z = Meter { base: nr + nc + na, worst: (0.0, ""), worst_mem: (0.0, "") };
    let z = &mut z;
    // conversions
    z.run("CSR::to_csc", 0, || csr.to_csc())?;
    z.run("CSR::to_coo", 0, || csr.to_coo())?;
    z.run("CSC::to_csr", 0, || csc.to_csr())?;
    z.run("CSC::to_coo", 0, || csc.to_coo())?;
    let k_csr = z.run("Coo::to_csr", 0, || coo.to_csr())?;
    let k_csc = z.run("Coo::to_csc", 0, || coo.to_csc())?;
    z.run("Coo push", 0, || {
        let mut x = Coo::<I, T>::with_size(nr, nc);
        a.t.iter().for_each(|e| x.push(I::of(e.0), I::of(e.1), e.2));
        x
    })?;
    z.run("Coo extend", 0, || {
        let mut x = Coo::<I, T>::with_size(nr, nc);
        for k in (0..na).step_by(10) {
            let e = (k + 10).min(na);
            x.extend(&coo.rowidx()[k..e], &coo.colidx()[k..e], &coo.values()[k..e]);
        }
        x
    })?;
    let dok = z.run("DoK::set, get, add, sub", 0, || -> Result<DoK<I, T>, String> {
        let mut x = DoK::<I, T>::new(nr, nc);
        for e in &a.t {
            let (i, j) = (I::of(e.0), I::of(e.1));
            x.set(i, j, e.2).map_err(|e| e.to_string())?;
            x.add(i, j, e.2).map_err(|e| e.to_string())?;
            x.sub(i, j, e.2).map_err(|e| e.to_string())?;
            std::hint::black_box(x.get(i, j));
        }
        Ok(x)
    })??;
    z.run("DoK::to_coo", 0, || dok.to_coo())?;
    z.run("DoK::to_csr", 0, || dok.to_csr())?;
    z.run("DoK::to_csc", 0, || dok.to_csc())?;
    z.run("clone", 0, || (csr.clone(), coo.clone()))?;
    // transposes
    z.run("CSR::transpose", 0, || csr.clone().transpose())?;
    z.run("CSR::t", 0, || csr.t())?;
    z.run("CSC::t", 0, || csc.t())?;
    z.run("Coo::t", 0, || coo.t())?;
    // canonical form
    z.run("CSR predicates", 0, || (csr.has_sorted_indexes(), csr.has_canonical_format(), k_csr.has_sorted_indexes(), k_csr.has_canonical_format()))?;
    z.run("CSC predicates", 0, || (csc.has_sorted_indexes(), csc.has_canonical_format(), k_csc.has_sorted_indexes(), k_csc.has_canonical_format()))?;
    z.run("CSR::sort_indexes", 0, || {
        let mut x = csr.clone();
        x.sort_indexes();
        x
    })?;
    z.run("CSR::sum_duplicates", 0, || {
        let mut x = csr.clone();
        x.sum_duplicates().map(|_| x).map_err(|e| e.to_string())
    })??;
    z.run("CSC::sort_indexes, sum_duplicates, prune", 0, || {
        let mut x = a.csc::<I>();
        x.sort_indexes();
        x.sum_duplicates();
        x.prune().map(|_| x).map_err(|e| e.to_string())
    })??;
    z.run("csr_eliminate_zeros", 0, || {
        let (mut p, mut j, mut x) = (ra.p.clone(), ra.j.clone(), ra.x.clone());
        sparsetools::csr_eliminate_zeros(nr, nc, &mut p, &mut j, &mut x);
    })?;
    // arithmetic, on the operands as they are and in canonical form
    let (kb_csr, kb_csc) = (b_coo.to_csr(), b_coo.to_csc());
    z.run("Coo + Coo", nb, || &coo + &b_coo)?;
    z.run("CSR + CSR", nb, || &csr + &b_csr)?;
    z.run("CSR - CSR", nb, || &csr - &b_csr)?;
    z.run("CSC + CSC", nb, || &csc + &b_csc)?;
    z.run("CSC - CSC", nb, || &csc - &b_csc)?;
    z.run("CSR + CSR, canonical", nb, || &k_csr + &kb_csr)?;
    z.run("CSR - CSR, canonical", nb, || &k_csr - &kb_csr)?;
    z.run("CSC + CSC, canonical", nb, || k_csc.add(&kb_csc).map_err(|e| e.to_string()))??;
    z.run("CSC - CSC, canonical", nb, || k_csc.subtract(&kb_csc).map_err(|e| e.to_string()))??;
    let both = na + nb;
    macro_rules! kernels {
        ($($k:ident),*) => { $(
            z.run(stringify!($k), nb, || {
                let (mut p, mut j, mut x) = (vec![I::zero(); nr + 1], vec![I::zero(); both], vec![Default::default(); both]);
                sparsetools::$k(nr, nc, &ra.p, &ra.j, &ra.x, &rb.p, &rb.j, &rb.x, &mut p, &mut j, &mut x);
            })?;
        )* };
    }
    kernels!(csr_mul_csr, csr_add_csr, csr_sub_csr, csr_ne_csr, csr_eq_csr);
    // products
    let (p_csr, d_csr) = (a2.csr::<I>(), d.csr::<I>());
    let (p_csc, d_csc) = (a2.csc::<I>(), d.csc::<I>());
    let w = d.cols + d.t.len() + products;
    z.run("csr_matmat_maxnnz", w, || sparsetools::csr_matmat_maxnnz(nr, d.cols, p_csr.rowptr(), p_csr.colidx(), d_csr.rowptr(), d_csr.colidx()))?;
    z.run("CSR * CSR", w, || &p_csr * &d_csr)?;
    z.run("CSC * CSC", w, || &p_csc * &d_csc)?;
    z.run("CSC * CSR", w, || &p_csc * &d_csr)?;
    let x = filler::<T>(nc, 3, 0);
    z.run("CSR * vector", 0, || &csr * &x)?;
    z.run("CSC * vector", 0, || &csc * x.as_slice())?;
    z.run("CSR::mat_vec", 0, || csr.mat_vec(&x).map_err(|e| e.to_string()))??;
    z.run("coo_matvec", 0, || {
        let mut y = vec![T::zero(); nr];
        sparsetools::coo_matvec(na, coo.rowidx(), coo.colidx(), coo.values(), &x, &mut y);
        y
    })?;
    let nv = 2;
    let xs = filler::<T>(nc * nv, 4, 0);
    z.run("csr_matvecs", nr + nc + na, || {
        let mut y = vec![T::zero(); nr * nv];
        sparsetools::csr_matvecs(nr, nc, nv, &ra.p, &ra.j, &ra.x, &xs, &mut y);
        y
    })?;
    z.run("csc_matvecs", nr + nc + na, || {
        let mut y = vec![T::zero(); nr * nv];
        sparsetools::csc_matvecs(nr, nc, nv, &rac.p, &rac.j, &rac.x, &xs, &mut y);
        y
    })?;
    // values
    z.run("CSR * scalar", 0, || &csr * T::mk(3, 0, 0))?;
    z.run("CSC * scalar", 0, || &csc * T::mk(3, 0, 0))?;
    let (fr, fc) = (filler::<T>(nr, 5, 0), filler::<T>(nc, 6, 0));
    z.run("csr_scale_rows", 0, || {
        let mut v = ra.x.clone();
        sparsetools::csr_scale_rows(nr, nc, &ra.p, &ra.j, &mut v, &fr);
    })?;
    z.run("csr_scale_columns", 0, || {
        let mut v = ra.x.clone();
        sparsetools::csr_scale_columns(nr, nc, &ra.p, &ra.j, &mut v, &fc);
    })?;
    // diagonals
    z.run("CSR::diagonal", 0, || csr.diagonal())?;
    z.run("CSC::diagonal", 0, || csc.diagonal())?;
    z.run("Coo::diagonal", 0, || coo.diagonal())?;
    z.run("csr_count_diagonals", 0, || sparsetools::csr_count_diagonals(nr, &ra.p, &ra.j))?;
    z.run("with_diagonal, identity", 0, || (CSR::<I, T>::with_diagonal(fr.clone()), CSC::<I, T>::with_diagonal(fr.clone()), Coo::<I, T>::with_diagonal(&fr), Coo::<I, T>::identity(nr)))?;
    z.run("Coo::upper", 0, || coo.upper(I::of(1)))?;
    // stacking
    z.run("Coo::h_stack", nr + nc + nb, || Coo::h_stack(&coo, &b_coo).map_err(|e| e.to_string()))??;
    z.run("Coo::v_stack", nr + nc + nb, || Coo::v_stack(&coo, &b_coo).map_err(|e| e.to_string()))??;
    z.run("CSR::h_stack", nr + nc + nb, || CSR::h_stack(&csr, &b_csr).map_err(|e| e.to_string()))??;
    z.run("Coo::compose", 2 * (nr + nc + nb) + na, || Coo::compose([[&coo, &b_coo], [&b_coo, &coo]]).map_err(|e| e.to_string()))??;
    z.run("CSC::compose", 2 * (nr + nc + nb) + na, || CSC::compose(&csc, &b_csc, &b_csc, &csc).map_err(|e| e.to_string()))??;
    // parts
    let half = |n: usize| (I::of(n / 4), I::of(n - n / 4));
    z.run("get_csr_submatrix", 0, || {
        let (mut p, mut j, mut x) = (vec![], vec![], vec![]);
        let ((r0, r1), (c0, c1)) = (half(nr), half(nc));
        sparsetools::get_csr_submatrix(nr, nc, &ra.p, &ra.j, &ra.x, r0, r1, c0, c1, &mut p, &mut j, &mut x);
    })?;
    let rows: Vec<usize> = (0..nr).rev().collect();
    z.run("csr_row_index", 0, || {
        let (mut j, mut x) = (vec![], vec![]);
        sparsetools::csr_row_index(nr, &rows, &ra.p, &ra.j, &ra.x, &mut j, &mut x);
    })?;
    z.run("csr_row_slice", 0, || {
        let (mut j, mut x) = (vec![], vec![]);
        sparsetools::csr_row_slice(0, nr, 2, &ra.p, &ra.j, &ra.x, &mut j, &mut x);
    })?;
    let cols: Vec<usize> = (0..nc).rev().collect();
    let order: Vec<I> = (0..nc).rev().map(I::of).collect();
    z.run("csr_column_index", 0, || {
        let (mut offs, mut p) = (vec![I::zero(); nc], vec![I::zero(); nr + 1]);
        sparsetools::csr_column_index1(nc, &cols, nr, nc, &ra.p, &ra.j, &mut offs, &mut p);
        let (mut j, mut x) = (vec![I::zero(); na], vec![T::zero(); na]);
        sparsetools::csr_column_index2(&order, &offs, na, &ra.j, &ra.x, &mut j, &mut x);
    })?;
    // selection: proportional to the positions requested
    let few = |n: usize| -> Vec<usize> { vec![n - 1, (c.a.knob as usize) % n, 0, (c.b.knob as usize) % n] };
    let ix = |v: Vec<usize>| -> Vec<I> { v.into_iter().map(I::of).collect() };
    let (fr, fc) = (ix(few(nr)), ix(few(nc)));
    z.within(0.5e-6, "CSR::select few columns", 4 * nr, || k_csr.select(None, Some(&fc)).map_err(|e| e.to_string()))??;
    z.within(0.5e-6, "CSR::select few rows", 4 * nc, || k_csr.select(Some(&fr), None).map_err(|e| e.to_string()))??;
    z.within(0.5e-6, "CSR::select few rows and columns", 16, || k_csr.select(Some(&fr), Some(&fc)).map_err(|e| e.to_string()))??;
    z.within(0.5e-6, "CSC::select few columns", 4 * nr, || k_csc.select(None, Some(&fc)).map_err(|e| e.to_string()))??;
    z.within(0.5e-6, "CSC::select few rows", 4 * nc, || k_csc.select(Some(&fr), None).map_err(|e| e.to_string()))??;
    z.within(0.5e-6, "CSC::select few rows and columns", 16, || k_csc.select(Some(&fr), Some(&fc)).map_err(|e| e.to_string()))??;
    z.run("CSR::get", 0, || a.t.first().map(|e| (csr.get(I::of(e.0), I::of(e.1)), csr.get(I::of(nr - 1), I::of(nc - 1)))))?;
    if na <= 60_000 {
        z.run("CSR::to_string", 0, || csr.to_string())?;
        z.run("CSC::to_string", 0, || csc.to_string())?;
        z.run("Coo::to_string", 0, || coo.to_string())?;
        z.run("DoK::to_string", 0, || dok.to_string())?;
    }
    if nr == nc {
        z.run("connected_components weak", 0, || connected_components(&csr, true, Connection::Weak).map_err(|e| e.to_string()))??;
        z.run("connected_components undirected", 0, || connected_components(&csr, false, Connection::Weak).map_err(|e| e.to_string()))??;
        z.run("connected_components strong", 0, || connected_components(&csr, true, Connection::Strong).map_err(|e| e.to_string()))??;
    }
    op("");
    if std::env::var("C31_SHOW").is_ok() {
        eprintln!("{:?} {:?} {}x{} {}", z.worst, z.worst_mem, nr, nc, na);
    }
    let pat = |s: &Shape| PATS[(s.pat % N_PAT) as usize];
    let cov = Cov::new(nr.saturating_mul(nc) >= 1_000_000_000)
        .class(format!("pattern {}", pat(&c.a)))
        .class(format!("order {}", c.a.order % 3))
        .class_if(nr == nc, "graph operations")
        .class_if(nr < 5 || nc < 5, "one short dimension")
        .class_if(products >= 100_000, "100000 or more elementary products")
        .class_if(na >= 100_000, "100000 or more entries");
    Ok(cov)
}
