//! Reference model: a map from position to element, written from the definitions.
use crate::spec::*;
use crate::types::*;
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::dok::DoK;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Model<T> {
    pub rows: usize,
    pub cols: usize,
    /// Sum of the stored entries at each stored position.
    pub m: BTreeMap<(usize, usize), T>,
}

impl<T: Ts> Model<T> {
    pub fn empty(rows: usize, cols: usize) -> Self {
        Model { rows, cols, m: BTreeMap::new() }
    }
    pub fn of(e: &Ent<T>) -> Self {
        let mut m = BTreeMap::new();
        for &(r, c, v) in &e.t {
            let x: &mut T = m.entry((r, c)).or_insert(T::zero());
            *x = *x + v;
        }
        Model { rows: e.rows, cols: e.cols, m }
    }
    pub fn get(&self, r: usize, c: usize) -> T {
        self.m.get(&(r, c)).copied().unwrap_or(T::zero())
    }
    pub fn shape(&self) -> (usize, usize) {
        (self.rows, self.cols)
    }
    pub fn map(&self, f: impl Fn(usize, usize, T) -> T) -> Self {
        Model { rows: self.rows, cols: self.cols, m: self.m.iter().map(|(&(r, c), &v)| ((r, c), f(r, c, v))).collect() }
    }
    pub fn t(&self) -> Self {
        Model { rows: self.cols, cols: self.rows, m: self.m.iter().map(|(&(r, c), &v)| ((c, r), v)).collect() }
    }
    pub fn zip(&self, o: &Self, f: impl Fn(T, T) -> T) -> Self {
        let mut m = BTreeMap::new();
        for &k in self.m.keys().chain(o.m.keys()) {
            m.insert(k, f(self.get(k.0, k.1), o.get(k.0, k.1)));
        }
        Model { rows: self.rows, cols: self.cols, m }
    }
    pub fn add(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a + b)
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a - b)
    }
    pub fn mul(&self, o: &Self) -> Self {
        let mut by_row: BTreeMap<usize, Vec<(usize, T)>> = BTreeMap::new();
        for (&(r, c), &v) in &o.m {
            by_row.entry(r).or_default().push((c, v));
        }
        let mut m: BTreeMap<(usize, usize), T> = BTreeMap::new();
        for (&(r, k), &v) in &self.m {
            if let Some(row) = by_row.get(&k) {
                for &(c, w) in row {
                    let x = m.entry((r, c)).or_insert(T::zero());
                    *x = *x + v * w;
                }
            }
        }
        Model { rows: self.rows, cols: o.cols, m }
    }
    pub fn mul_vec(&self, x: &[T], y0: &[T]) -> Vec<T> {
        let mut y = y0.to_vec();
        for (&(r, c), &v) in &self.m {
            y[r] = y[r] + v * x[c];
        }
        y
    }
    pub fn select(&self, rows: &[usize], cols: &[usize]) -> Self {
        let mut m = BTreeMap::new();
        for (p, &r) in rows.iter().enumerate() {
            for (q, &c) in cols.iter().enumerate() {
                if let Some(&v) = self.m.get(&(r, c)) {
                    m.insert((p, q), v);
                }
            }
        }
        Model { rows: rows.len(), cols: cols.len(), m }
    }
    pub fn place(&mut self, o: &Self, dr: usize, dc: usize) {
        for (&(r, c), &v) in &o.m {
            self.m.insert((r + dr, c + dc), v);
        }
    }
    pub fn hstack(&self, o: &Self) -> Self {
        let mut x = Model::empty(self.rows, self.cols + o.cols);
        x.place(self, 0, 0);
        x.place(o, 0, self.cols);
        x
    }
    pub fn vstack(&self, o: &Self) -> Self {
        let mut x = Model::empty(self.rows + o.rows, self.cols);
        x.place(self, 0, 0);
        x.place(o, self.rows, 0);
        x
    }
    pub fn diag(&self) -> Vec<T> {
        (0..self.rows.min(self.cols)).map(|i| self.get(i, i)).collect()
    }
    pub fn dense(&self) -> Vec<Vec<T>> {
        let mut d = vec![vec![T::zero(); self.cols]; self.rows];
        for (&(r, c), &v) in &self.m {
            d[r][c] = v;
        }
        d
    }
    pub fn from_dense(d: &[Vec<T>]) -> Self {
        let mut m = BTreeMap::new();
        for (r, row) in d.iter().enumerate() {
            for (c, &v) in row.iter().enumerate() {
                m.insert((r, c), v);
            }
        }
        Model { rows: d.len(), cols: d.first().map_or(0, |r| r.len()), m }
    }
    pub fn max_mag(&self) -> f64 {
        self.m.values().fold(0.0, |a, v| a.max(v.mag()))
    }
    /// Number of elements different from zero.
    pub fn nonzeros(&self) -> usize {
        self.m.values().filter(|v| !v.same(T::zero())).count()
    }
    /// Equal shape and elements.
    pub fn same(&self, want: &Self, what: &str) -> Result<(), String> {
        if self.shape() != want.shape() {
            return Err(format!("{what}: shape {:?}, expected {:?}", self.shape(), want.shape()));
        }
        for &(r, c) in self.m.keys().chain(want.m.keys()) {
            let (a, b) = (self.get(r, c), want.get(r, c));
            if !a.same(b) {
                return Err(format!("{what}: element ({r}, {c}) is {a:?}, expected {b:?}"));
            }
        }
        Ok(())
    }
}

pub fn same_vec<T: Ts>(got: &[T], want: &[T], what: &str) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: length {}, expected {}", got.len(), want.len()));
    }
    for i in 0..got.len() {
        if !got[i].same(want[i]) {
            return Err(format!("{what}: element {i} is {:?}, expected {:?}", got[i], want[i]));
        }
    }
    Ok(())
}

/// Multiset of entries.
pub fn bag<T: Ts>(t: &[(usize, usize, T)]) -> Vec<(usize, usize, [u128; 2])> {
    let mut v: Vec<_> = t.iter().map(|e| (e.0, e.1, e.2.key())).collect();
    v.sort();
    v
}
pub fn same_bag<T: Ts>(got: &[(usize, usize, T)], want: &[(usize, usize, T)], what: &str) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} stored entries, expected {}", got.len(), want.len()));
    }
    if bag(got) != bag(want) {
        return Err(format!("{what}: stored entries {:?}, expected {:?}", short(got), short(want)));
    }
    Ok(())
}
/// Same entries in the same order.
pub fn same_seq<T: Ts>(got: &[(usize, usize, T)], want: &[(usize, usize, T)], what: &str) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{what}: {} stored entries, expected {}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(want) {
        if (g.0, g.1) != (w.0, w.1) || !g.2.same(w.2) {
            return Err(format!("{what}: stored entry {g:?}, expected {w:?} (got {:?}, want {:?})", short(got), short(want)));
        }
    }
    Ok(())
}
pub fn short<T: std::fmt::Debug>(x: &[T]) -> String {
    if x.len() <= 12 {
        format!("{x:?}")
    } else {
        format!("{:?}.. ({} in all)", &x[..12], x.len())
    }
}

/// Reads compressed arrays defensively; error if they are malformed.
pub fn read_compressed<I: Ix, T: Ts>(
    what: &str,
    n_major: usize,
    n_minor: usize,
    nnz: usize,
    p: &[I],
    j: &[I],
    x: &[T],
) -> Result<Vec<(usize, usize, T)>, String> {
    let bad = |m: String| Err(format!("{what}: malformed: {m}"));
    if p.len() != n_major + 1 {
        return bad(format!("pointer array has length {} for {} rows/columns", p.len(), n_major));
    }
    let mut pu = Vec::with_capacity(p.len());
    for v in p {
        match v.us() {
            Some(u) => pu.push(u),
            None => return bad(format!("pointer {v:?}")),
        }
    }
    if pu[0] != 0 {
        return bad(format!("first pointer is {}", pu[0]));
    }
    for w in pu.windows(2) {
        if w[0] > w[1] {
            return bad(format!("pointers decrease: {} then {}", w[0], w[1]));
        }
    }
    let n = pu[n_major];
    if n != nnz {
        return bad(format!("last pointer {n}, reported entry count {nnz}"));
    }
    if j.len() != n || x.len() != n {
        return bad(format!("{n} entries but {} indices and {} values", j.len(), x.len()));
    }
    let mut out = Vec::with_capacity(n);
    for i in 0..n_major {
        for k in pu[i]..pu[i + 1] {
            match j[k].us() {
                Some(c) if c < n_minor => out.push((i, c, x[k])),
                _ => return bad(format!("index {} in row/column {i}, minor dimension {n_minor}", j[k])),
            }
        }
    }
    Ok(out)
}

pub struct Obs<T> {
    /// Entries as (row, column, value) in storage order.
    pub t: Vec<(usize, usize, T)>,
    pub m: Model<T>,
}
fn obs<T: Ts>(rows: usize, cols: usize, t: Vec<(usize, usize, T)>) -> Obs<T> {
    let m = Model::of(&Ent { rows, cols, t: t.clone(), layout: 0 });
    Obs { t, m }
}
pub fn obs_csr<I: Ix, T: Ts>(a: &CSR<I, T>, what: &str) -> Result<Obs<T>, String> {
    let t = read_compressed(what, a.rows(), a.cols(), a.nnz(), a.rowptr(), a.colidx(), a.values())?;
    Ok(obs(a.rows(), a.cols(), t))
}
pub fn obs_csc<I: Ix, T: Ts>(a: &CSC<I, T>, what: &str) -> Result<Obs<T>, String> {
    if a.shape() != (a.rows(), a.cols()) {
        return Err(format!("{what}: shape() disagrees with rows()/cols()"));
    }
    let t = read_compressed(what, a.cols(), a.rows(), a.nnz(), a.colptr(), a.rowidx(), a.values())?;
    Ok(obs(a.rows(), a.cols(), t.into_iter().map(|(c, r, v)| (r, c, v)).collect()))
}
pub fn obs_coo<I: Ix, T: Ts>(a: &Coo<I, T>, what: &str) -> Result<Obs<T>, String> {
    let n = a.nnz();
    if a.rowidx().len() != n || a.colidx().len() != n || a.values().len() != n {
        return Err(format!("{what}: malformed: triplet arrays of different length"));
    }
    let mut t = Vec::with_capacity(n);
    for k in 0..n {
        match (a.rowidx()[k].us(), a.colidx()[k].us()) {
            (Some(r), Some(c)) if r < a.rows() && c < a.cols() => t.push((r, c, a.values()[k])),
            _ => {
                return Err(format!(
                    "{what}: malformed: triplet ({}, {}) outside {}x{}",
                    a.rowidx()[k], a.colidx()[k], a.rows(), a.cols()
                ))
            }
        }
    }
    Ok(obs(a.rows(), a.cols(), t))
}
pub fn obs_dok<I: Ix, T: Ts>(a: &DoK<I, T>, what: &str) -> Result<Obs<T>, String> {
    let mut t = vec![];
    for (&(i, j), &v) in a.iter() {
        match (i.us(), j.us()) {
            (Some(r), Some(c)) if r < a.rows() && c < a.cols() => t.push((r, c, v)),
            _ => return Err(format!("{what}: malformed: key ({i}, {j}) outside {}x{}", a.rows(), a.cols())),
        }
    }
    if t.len() != a.nnz() {
        return Err(format!("{what}: entry count {} but {} keys", a.nnz(), t.len()));
    }
    t.sort_by_key(|e| (e.0, e.1));
    Ok(obs(a.rows(), a.cols(), t))
}
pub fn no_dups<T: Ts>(t: &[(usize, usize, T)], what: &str) -> Result<(), String> {
    let mut s = std::collections::HashSet::new();
    for e in t {
        if !s.insert((e.0, e.1)) {
            return Err(format!("{what}: position ({}, {}) stored twice", e.0, e.1));
        }
    }
    Ok(())
}
pub fn no_zeros<T: Ts>(t: &[(usize, usize, T)], what: &str) -> Result<(), String> {
    for e in t {
        if e.2.same(T::zero()) {
            return Err(format!("{what}: zero stored at ({}, {})", e.0, e.1));
        }
    }
    Ok(())
}
/// Entries in storage order: strictly increasing within each major index.
pub fn strictly_sorted<T: Ts>(t: &[(usize, usize, T)], by_row: bool, what: &str) -> Result<(), String> {
    for w in t.windows(2) {
        let (a, b) = if by_row { ((w[0].0, w[0].1), (w[1].0, w[1].1)) } else { ((w[0].1, w[0].0), (w[1].1, w[1].0)) };
        if !(a < b) {
            return Err(format!("{what}: not canonical: {:?} before {:?}", w[0], w[1]));
        }
    }
    Ok(())
}
impl<T: Ts> Model<T> {
    pub fn dense_row(&self, r: usize) -> Vec<T> {
        let mut d = vec![T::zero(); self.cols];
        for (&(_, c), &v) in self.m.range((r, 0)..(r + 1, 0)) {
            d[c] = v;
        }
        d
    }
}
