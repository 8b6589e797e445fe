//! Generated descriptions of matrices, and their realisation for concrete types.
//!
//! A description is raw data (shape numbers, raw positions, small integers); a pure function
//! turns it into entries, so shrinking the raw data shrinks the matrix.
use crate::types::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::dok::DoK;

/// (raw row, raw column, re, im)
pub type RawEnt = (u16, u16, i16, i16);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EntSpec {
    /// 0 raw, 1 unique positions unsorted, 2 sorted with duplicates, 3 canonical
    pub layout: u8,
    /// position pattern
    pub pat: u8,
    pub knob: u16,
    pub ents: Vec<RawEnt>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MatSpec {
    pub rows: u16,
    pub cols: u16,
    pub e: EntSpec,
}

pub const N_PAT: u8 = 16;

/// Concrete entries, in storage (triplet) order.
#[derive(Clone, Debug)]
pub struct Ent<T> {
    pub rows: usize,
    pub cols: usize,
    pub t: Vec<(usize, usize, T)>,
    pub layout: u8,
}

/// Raw dimensions from here on stand for dimensions around and beyond 2^16.
pub const HUGE_CODE: u16 = 64000;
pub const N_HUGE_CODES: u16 = 1000;
/// Dimensions above this are described by codes.
pub const HUGE_FROM: usize = 60_000;
pub fn wide(raw: u16) -> usize {
    match raw.checked_sub(HUGE_CODE) {
        Some(k) if k < 20 => 65526 + k as usize,
        Some(k) if k < N_HUGE_CODES => 65536 + (k as usize - 20) * 72,
        _ => raw as usize,
    }
}
pub fn dim<I: Ix>(raw: u16) -> usize {
    wide(raw).min(I::max_us())
}
/// An index below `n`. Beyond 2^16 the raw numbers are spread so that both ends, both sides of
/// 2^16, and pairs exactly 2^16 apart are frequent.
pub fn spread(raw: u16, n: usize) -> usize {
    let r = raw as usize;
    if n < HUGE_FROM {
        return r % n;
    }
    match r % 8 {
        0 | 1 => r / 8 % 40,
        2 => (65530 + r / 8 % 12) % n,
        3 | 4 => (65536 + r / 8 % 40) % n,
        5 => n - 1 - r / 8 % 40,
        _ => (r.wrapping_mul(0x9E3779B97F4A7C15) >> 33) % n,
    }
}

pub fn positions(rows: usize, cols: usize, e: &EntSpec) -> Vec<(usize, usize, i16, i16)> {
    if rows == 0 || cols == 0 || e.ents.is_empty() {
        return vec![];
    }
    let k = e.knob as usize;
    let mut out = Vec::with_capacity(e.ents.len());
    let huge = rows.max(cols) >= HUGE_FROM;
    if e.pat == 11 && (rows * cols <= 1600 || huge) {
        'grid: for i in 0..rows {
            for j in 0..cols {
                if out.len() >= 150_000 {
                    break 'grid;
                }
                let x = e.ents[(i * cols + j) % e.ents.len()];
                out.push((i, j, x.2, x.3));
            }
        }
        if e.layout == 0 {
            let n = out.len();
            out.rotate_left(k % n);
        }
        return out;
    }
    for (i, &(r, c, re, im)) in e.ents.iter().enumerate() {
        let (r0, c0) = (r as usize, c as usize);
        let (mut r, mut c) = (spread(r, rows), spread(c, cols));
        match e.pat {
            13 | 14 if huge => {
                // two lines exactly 2^16 apart
                if rows >= HUGE_FROM {
                    r = (k % 40 + r0 % 2 * 65536) % rows;
                } else {
                    c = (k % 40 + c0 % 2 * 65536) % cols;
                }
            }
            1 => c = (r * cols / rows + c0 % 3) % cols,
            2 => {
                if c0 % 10 < 7 {
                    r = k % rows;
                    c = (c0 / 10) % cols;
                }
            }
            3 => {
                if r0 % 10 < 7 {
                    c = k % cols;
                    r = (r0 / 10) % rows;
                }
            }
            4 => {
                if c0 % 10 < 7 {
                    let d = r0 % rows.min(cols);
                    r = d;
                    c = d;
                }
            }
            5 => {
                r = (r0 % (rows / 3 + 1) + k) % rows;
                c = (c0 % (cols / 3 + 1) + k / 7) % cols;
            }
            6 => {
                r = (r0 % rows.min(3) + k) % rows;
                c = (c0 % cols.min(3) + k / 5) % cols;
            }
            7 => {
                if c > r && c < rows && r < cols {
                    std::mem::swap(&mut r, &mut c);
                }
            }
            8 => {
                if c < r && c < rows && r < cols {
                    std::mem::swap(&mut r, &mut c);
                }
            }
            9 => r = rows / 2 + r0 % (rows - rows / 2),
            10 => {
                r = if r0 % 2 == 0 { 0 } else { rows - 1 };
                c = if c0 % 2 == 0 { 0 } else { cols - 1 };
            }
            12 => c = (r + 1 + k % 3) % cols,
            13 => {
                r = i % rows;
                c = (i / rows) % cols;
            }
            14 => {
                r = (i / cols) % rows;
                c = i % cols;
            }
            15 => {
                // a few rows only, all rows between them empty
                let step = 2 + k % 5;
                r = (r / step) * step;
            }
            _ => {}
        }
        out.push((r, c, re, im));
    }
    out
}

/// Realises a description; at most `cap` entries.
pub fn realize<T: Ts>(rows: usize, cols: usize, e: &EntSpec, exp: i32, cap: usize) -> Ent<T> {
    let mut p = positions(rows, cols, e);
    if e.layout % 2 == 1 {
        let mut seen = std::collections::HashSet::new();
        p.retain(|x| seen.insert((x.0, x.1)));
    }
    p.truncate(cap);
    // Sums over a position must not depend on the order of addition.
    let mut count: std::collections::HashMap<(usize, usize), u32> = std::collections::HashMap::new();
    for x in &p {
        *count.entry((x.0, x.1)).or_default() += 1;
    }
    for x in &mut p {
        if count[&(x.0, x.1)] > 1 {
            for v in [&mut x.2, &mut x.3] {
                match *v {
                    S_TINY => *v = 1,
                    S_HUGE => *v = 2,
                    S_INF if !T::FLOAT => *v = 3,
                    S_NINF if !T::FLOAT => *v = -4,
                    S_NAN if !T::FLOAT => *v = 5,
                    _ => {}
                }
            }
        }
    }
    if e.layout >= 2 {
        p.sort_by_key(|x| (x.0, x.1));
    }
    Ent {
        rows,
        cols,
        t: p.into_iter().map(|(r, c, re, im)| (r, c, T::mk(re, im, exp))).collect(),
        layout: e.layout,
    }
}
pub fn realize_mat<I: Ix, T: Ts>(m: &MatSpec, exp: i32) -> Ent<T> {
    realize(dim::<I>(m.rows), dim::<I>(m.cols), &m.e, exp, I::max_us())
}

/// Raw compressed arrays.
#[derive(Clone, Debug)]
pub struct Raw<I, T> {
    pub n_major: usize,
    pub n_minor: usize,
    pub p: Vec<I>,
    pub j: Vec<I>,
    pub x: Vec<T>,
}

impl<T: Ts> Ent<T> {
    pub fn has_dups(&self) -> bool {
        let mut s = std::collections::HashSet::new();
        self.t.iter().any(|x| !s.insert((x.0, x.1)))
    }
    pub fn transposed(&self) -> Ent<T> {
        Ent {
            rows: self.cols,
            cols: self.rows,
            t: self.t.iter().map(|&(r, c, v)| (c, r, v)).collect(),
            layout: self.layout,
        }
    }
    /// Compressed-row arrays; within a row the order of `t` (sorted for layouts 2, 3).
    pub fn raw_csr<I: Ix>(&self) -> Raw<I, T> {
        let mut rows: Vec<Vec<(usize, T)>> = vec![vec![]; self.rows];
        for &(r, c, v) in &self.t {
            rows[r].push((c, v));
        }
        let mut p = vec![I::of(0)];
        let (mut j, mut x) = (vec![], vec![]);
        for mut row in rows {
            if self.layout >= 2 {
                row.sort_by_key(|e| e.0);
            }
            for (c, v) in row {
                j.push(I::of(c));
                x.push(v);
            }
            p.push(I::of(j.len()));
        }
        Raw { n_major: self.rows, n_minor: self.cols, p, j, x }
    }
    pub fn raw_csc<I: Ix>(&self) -> Raw<I, T> {
        self.transposed().raw_csr()
    }
    pub fn csr<I: Ix>(&self) -> CSR<I, T> {
        let r = self.raw_csr::<I>();
        CSR::new(self.rows, self.cols, r.p, r.j, r.x).expect("CSR::new rejected a valid matrix")
    }
    pub fn csc<I: Ix>(&self) -> CSC<I, T> {
        let r = self.raw_csc::<I>();
        CSC::new(self.rows, self.cols, r.j, r.p, r.x).expect("CSC::new rejected a valid matrix")
    }
    pub fn coo<I: Ix>(&self) -> Coo<I, T> {
        Coo::new(
            self.rows,
            self.cols,
            self.t.iter().map(|e| I::of(e.0)).collect(),
            self.t.iter().map(|e| I::of(e.1)).collect(),
            self.t.iter().map(|e| e.2).collect(),
        )
        .expect("Coo::new rejected a valid matrix")
    }
    /// Dictionary matrix with the same elements (duplicates summed beforehand).
    pub fn dok<I: Ix>(&self) -> DoK<I, T> {
        let mut d = DoK::new(self.rows, self.cols);
        for (&(r, c), &v) in &crate::model::Model::of(self).m {
            d.set(I::of(r), I::of(c), v).expect("DoK::set rejected a position in range");
        }
        d
    }
}

// ---- strategies ----

pub fn val(specials: bool) -> BoxedStrategy<(i16, i16)> {
    let small = (-3i16..=3, -3i16..=3);
    let big = (-50i16..=50, -50i16..=50);
    if specials {
        let s = || prop::sample::select(vec![S_INF, S_NINF, S_NAN, S_TINY, S_NEGZERO, S_HUGE, 0, 1, -2]);
        prop_oneof![4 => small, 4 => big, 1 => (s(), s())].boxed()
    } else {
        prop_oneof![1 => small, 1 => big].boxed()
    }
}

pub fn ents(nmin: usize, nmax: usize, specials: bool) -> BoxedStrategy<Vec<RawEnt>> {
    prop::collection::vec((any::<u16>(), any::<u16>(), val(specials)).prop_map(|(a, b, v)| (a, b, v.0, v.1)), nmin..=nmax)
        .boxed()
}

pub fn layout() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(3u8), 2 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8)].boxed()
}

pub fn ent_spec(nmin: usize, nmax: usize, specials: bool) -> BoxedStrategy<EntSpec> {
    let pat = prop_oneof![2 => Just(0u8), 3 => 1..N_PAT];
    (layout(), pat, 0u16..2000, ents(nmin, nmax, specials))
        .prop_map(|(layout, pat, knob, ents)| EntSpec { layout, pat, knob, ents })
        .boxed()
}

/// Size profiles: (largest dimension, smallest/largest entry count).
#[derive(Clone, Copy, Debug)]
pub struct Prof {
    pub w: u32,
    pub dims: &'static [(u16, u16)],
    pub nmin: usize,
    pub nmax: usize,
}

pub const TINY: Prof = Prof { w: 60, dims: &[(0, 4)], nmin: 0, nmax: 8 };
pub const SMALL: Prof = Prof { w: 80, dims: &[(0, 10), (1, 12)], nmin: 0, nmax: 30 };
pub const MEDIUM: Prof = Prof { w: 40, dims: &[(1, 40), (10, 70)], nmin: 0, nmax: 200 };
/// Exactly at the limits of the 8-bit index types.
pub const LIMIT: Prof = Prof { w: 8, dims: &[(127, 127), (255, 255), (1, 20), (250, 260), (120, 130)], nmin: 100, nmax: 300 };
pub const LARGE: Prof = Prof { w: 4, dims: &[(100, 300), (2, 600), (1, 5)], nmin: 300, nmax: 1600 };

/// One dimension around or beyond 2^16, see `mat_spec`; on their own, dimensions are small.
pub const HUGE: Prof = Prof { w: 1, dims: &[(1, 5)], nmin: 1, nmax: 400 };
/// Sizes around the numbers in the source under test, see `dict`.
pub const DICT: Prof = Prof { w: 8, dims: &[(1, 12)], nmin: 0, nmax: 401 };
impl Prof {
    fn huge(&self) -> bool {
        self.nmax == HUGE.nmax && self.nmin == HUGE.nmin
    }
    fn dict(&self) -> bool {
        self.nmax == DICT.nmax
    }
}

/// All sizes.
pub fn profiles() -> Vec<Prof> {
    vec![TINY, SMALL, MEDIUM, LIMIT, LARGE, HUGE, DICT]
}

// ---- a fuzzing dictionary ----

/// Integer literals of one source text, also `a << b` and `a * b` of literals.
pub fn literals(text: &str) -> Vec<u64> {
    let text = text.split("#[cfg(test)]").next().unwrap_or("");
    let mut out = vec![];
    for line in text.lines() {
        let line = line.split("//").next().unwrap_or("").as_bytes();
        let mut i = 0;
        // a number waiting for the other side of `<<` or `*`
        let mut held: Option<(u64, u8)> = None;
        let mut last: Option<u64> = None;
        while i < line.len() {
            let ch = line[i];
            if ch.is_ascii_digit() && (i == 0 || !(line[i - 1].is_ascii_alphanumeric() || line[i - 1] == b'_' || line[i - 1] == b'.')) {
                let mut end = i;
                while end < line.len() && (line[end].is_ascii_alphanumeric() || line[end] == b'_') {
                    end += 1;
                }
                let float = end + 1 < line.len() && line[end] == b'.' && line[end + 1].is_ascii_digit();
                let word: String = String::from_utf8_lossy(&line[i..end]).replace('_', "");
                let digits = |radix: u32, w: &str| {
                    let d: String = w.chars().take_while(|c| c.is_digit(radix)).collect();
                    u64::from_str_radix(&d, radix).ok()
                };
                let v = match word.get(..2) {
                    Some("0x") => digits(16, word[2..].split(['i', 'u']).next().unwrap_or("")),
                    Some("0b") => digits(2, &word[2..]),
                    Some("0o") => digits(8, &word[2..]),
                    _ => digits(10, &word),
                };
                i = end;
                if float {
                    held = None;
                    last = None;
                    continue;
                }
                if let Some(v) = v {
                    out.push(v);
                    let both = match held.take() {
                        Some((a, b'<')) if v < 32 => a.checked_shl(v as u32),
                        Some((a, b'*')) => a.checked_mul(v),
                        _ => None,
                    };
                    out.extend(both);
                    last = Some(both.unwrap_or(v));
                }
                continue;
            }
            if ch == b'<' && line.get(i + 1) == Some(&b'<') {
                held = last.take().map(|a| (a, b'<'));
                i += 1;
            } else if ch == b'*' {
                held = last.take().map(|a| (a, b'*'));
            } else if !(ch == b' ' || ch == b'(' || ch == b')') {
                held = None;
                last = None;
            }
            i += 1;
        }
    }
    out
}
/// Sizes to aim at: the numbers occurring in the source under test. A branch taken at a size
/// only (a block length, a cut-over) is reached at the sizes written there; the verdict is the
/// oracle's alone.
pub fn dict() -> &'static [u16] {
    static D: std::sync::OnceLock<Vec<u16>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut all = vec![];
        let mut dirs = vec![std::path::PathBuf::from("/repo/src")];
        while let Some(d) = dirs.pop() {
            let Ok(list) = std::fs::read_dir(&d) else { continue };
            for f in list.flatten() {
                let path = f.path();
                let name = f.file_name().to_string_lossy().into_owned();
                if path.is_dir() {
                    dirs.push(path);
                } else if name.ends_with(".rs") && !name.ends_with("test.rs") {
                    all.extend(literals(&std::fs::read_to_string(&path).unwrap_or_default()));
                }
            }
        }
        all.retain(|&v| v >= 8 && v <= HUGE_FROM as u64 - 8);
        all.sort();
        all.dedup();
        // large sizes are expensive: seldom
        all.iter().flat_map(|&v| vec![v as u16; if v <= 600 { 8 } else if v <= 5000 { 3 } else { 1 }]).collect()
    })
}
/// A dictionary number or a close neighbour; nothing where there is no number up to `max`.
pub fn dict_num(max: u16) -> Option<BoxedStrategy<u16>> {
    let d: Vec<u16> = dict().iter().copied().filter(|&v| v < max).collect();
    if d.is_empty() {
        return None;
    }
    let near = prop_oneof![4 => Just(0i32), 2 => Just(1), 1 => Just(-1), 1 => 2i32..6];
    let times = prop_oneof![6 => Just(1i32), 1 => Just(2)];
    Some(
        (prop::sample::select(d), near, times)
            .prop_map(move |(v, k, m)| (v as i32 * m + k).clamp(1, max as i32) as u16)
            .boxed(),
    )
}
/// `s`, and now and then a dictionary number up to `max` instead.
pub fn or_dict(s: BoxedStrategy<u16>, max: u16) -> BoxedStrategy<u16> {
    match dict_num(max) {
        Some(d) => prop_oneof![15 => s, 1 => d].boxed(),
        None => s,
    }
}
/// A diagonal offset taken from the dictionary, either sign; `s` otherwise.
pub fn offset_or_dict(kind: u8, s: BoxedStrategy<(u8, i16)>) -> BoxedStrategy<(u8, i16)> {
    match dict_num(30_000) {
        Some(d) => prop_oneof![20 => s, 1 => (d, any::<bool>()).prop_map(move |(v, neg)| (kind, if neg { -(v as i16) } else { v as i16 }))].boxed(),
        None => s,
    }
}
/// Lists of raw numbers, of ordinary lengths or one from the dictionary.
pub fn raw_list() -> BoxedStrategy<Vec<u16>> {
    let of = |lo: usize, hi: usize| prop::collection::vec(any::<u16>(), lo..=hi);
    let any_len = prop_oneof![4 => of(0, 7), 2 => of(0, 59), 1 => of(60, 399)];
    match dict_num(5000) {
        Some(n) => prop_oneof![20 => any_len, 1 => n.prop_flat_map(move |n| of(n as usize, n as usize))].boxed(),
        None => any_len.boxed(),
    }
}
fn dict_mat(p: &Prof, specials: bool) -> Option<BoxedStrategy<MatSpec>> {
    let h = dict_num(HUGE_FROM as u16 - 1)?;
    let small = dimension(p);
    let other = match dict_num(140) {
        Some(d) => prop_oneof![3 => small, 1 => d].boxed(),
        None => small,
    };
    let counted = || -> BoxedStrategy<EntSpec> {
        // that many entries, filled line by line or at random
        match dict_num(3000) {
            Some(n) => n
                .prop_flat_map(move |n| ent_spec(n as usize, n as usize, specials))
                .prop_flat_map(|e| (Just(e), prop::sample::select(vec![0u8, 2, 3, 13, 14, 14])))
                .prop_map(|(mut e, pat)| {
                    e.pat = pat;
                    e
                })
                .boxed(),
            None => ent_spec(0, 60, specials),
        }
    };
    let e = prop_oneof![3 => ent_spec(0, 60, specials), 1 => counted()];
    Some(
        (h, other, any::<bool>(), e)
            .prop_map(|(h, d, by_row, e)| if by_row { MatSpec { rows: h, cols: d, e } } else { MatSpec { rows: d, cols: h, e } })
            .boxed(),
    )
}

pub fn dimension(p: &Prof) -> BoxedStrategy<u16> {
    let mut alts: Vec<(u32, BoxedStrategy<u16>)> = vec![];
    for &(lo, hi) in p.dims {
        alts.push((10, (lo..=hi).boxed()));
    }
    alts.push((1, (0u16..=2).boxed()));
    prop::strategy::Union::new_weighted(alts).boxed()
}

/// Builds one strategy out of one per profile.
pub fn over_profiles<C: std::fmt::Debug + 'static>(
    profs: &[Prof],
    f: impl Fn(&Prof) -> BoxedStrategy<C>,
) -> BoxedStrategy<C> {
    prop::strategy::Union::new_weighted(profs.iter().map(|p| (p.w, f(p))).collect::<Vec<_>>()).boxed()
}

pub fn mat_spec(p: &Prof, specials: bool) -> BoxedStrategy<MatSpec> {
    if p.dict() {
        if let Some(s) = dict_mat(p, specials) {
            return s;
        }
    }
    if p.huge() {
        let code = prop_oneof![1 => HUGE_CODE..HUGE_CODE + 20, 2 => HUGE_CODE..HUGE_CODE + N_HUGE_CODES];
        let mut e = ent_spec(p.nmin, p.nmax, specials);
        e = (e, prop_oneof![2 => Just(0u8), 1 => Just(11u8), 1 => Just(13u8)], prop::bool::weighted(0.7))
            .prop_map(|(mut e, pat, set)| {
                if set {
                    e.pat = pat;
                }
                e
            })
            .boxed();
        // now and then both dimensions: positions beyond 2^32
        let both = (code.clone(), code.clone(), e.clone(), prop::option::of(1usize..5)).prop_map(|(rows, cols, mut e, few)| {
            if let Some(n) = few {
                e.ents.truncate(n);
            }
            MatSpec { rows, cols, e }
        });
        let one = (code, dimension(p), any::<bool>(), e)
            .prop_map(|(h, d, by_row, e)| if by_row { MatSpec { rows: h, cols: d, e } } else { MatSpec { rows: d, cols: h, e } });
        return prop_oneof![2 => one, 1 => both].boxed();
    }
    (dimension(p), dimension(p), ent_spec(p.nmin, p.nmax, specials))
        .prop_map(|(rows, cols, e)| MatSpec { rows, cols, e })
        .boxed()
}

pub fn exp() -> BoxedStrategy<i8> {
    prop_oneof![6 => Just(0i8), 2 => Just(-2i8), 1 => Just(-30i8), 1 => Just(25i8), 1 => Just(SUBNORMAL as i8)].boxed()
}

pub fn ty() -> BoxedStrategy<u8> {
    prop_oneof![4 => Just(0u8), 3 => Just(1u8), 9 => 0u8..14].boxed()
}

/// Replaces special values by small ones.
pub fn tame(e: &mut EntSpec) {
    for x in &mut e.ents {
        for v in [&mut x.2, &mut x.3] {
            if v.unsigned_abs() > 1000 {
                *v %= 50;
            }
        }
    }
}

/// Special values kept whose sums and products do not depend on the order of computation:
/// infinities, NaN, negative zero. The largest and smallest numbers go.
pub fn only_absorbing(e: &mut EntSpec) {
    for x in &mut e.ents {
        for v in [&mut x.2, &mut x.3] {
            match *v {
                S_TINY => *v = 1,
                S_HUGE => *v = 2,
                _ => {}
            }
        }
    }
}
/// Mode of special values, for properties that compute.
pub fn special() -> BoxedStrategy<bool> {
    prop::bool::weighted(0.15).boxed()
}
fn negated(v: i16) -> i16 {
    match v {
        S_INF => S_NINF,
        S_NINF => S_INF,
        v if v.unsigned_abs() > 1000 => v,
        v => -v,
    }
}

/// How the second operand relates to the first.
pub fn relate(a: &EntSpec, b: &EntSpec, rel: u8) -> EntSpec {
    match rel {
        // same positions, negated values
        1 => {
            let mut x = a.clone();
            for e in &mut x.ents {
                e.2 = negated(e.2);
                e.3 = negated(e.3);
            }
            x.layout = b.layout;
            x
        }
        // identical
        2 => a.clone(),
        // same positions, other values in part
        3 => {
            let mut x = a.clone();
            for (i, e) in x.ents.iter_mut().enumerate() {
                if let Some(o) = b.ents.get(i) {
                    if i % 2 == 0 {
                        e.2 = o.2;
                        e.3 = o.3;
                    } else {
                        e.2 = negated(e.2);
                        e.3 = negated(e.3);
                    }
                }
            }
            x.layout = b.layout;
            x
        }
        // nothing
        4 => EntSpec { ents: vec![], ..b.clone() },
        _ => b.clone(),
    }
}
pub fn rel() -> BoxedStrategy<u8> {
    prop_oneof![6 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8), 3 => Just(3u8), 1 => Just(4u8)].boxed()
}

/// Pseudo-random permutation, a pure function of the knob.
pub fn permutation(n: usize, knob: u64) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    let mut s = knob.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0xD1B54A32D192ED03);
    for i in (1..n).rev() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        p.swap(i, (s % (i as u64 + 1)) as usize);
    }
    p
}
