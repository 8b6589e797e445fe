//! Generated graphs and reference answers for the graph checks.
use crate::prelude::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GraphSpec {
    pub n: u16,
    /// structure; see `edges`
    pub shape: u8,
    pub knob: u16,
    /// node relabelling (0: none)
    pub relabel: u16,
    /// order of stored entries (0: grouped by source as generated)
    pub shuffle: u16,
    /// extra columns (positive) or rows (negative): a non-square matrix
    pub skew: i8,
    /// 0: edges as they are; 1: all edges both ways; otherwise both ways up to a few, which point
    /// one way only (even) or elsewhere on the way back (odd)
    #[serde(default)]
    pub mirror: u8,
    /// raw extra edges: source, target, value
    pub extra: Vec<(u16, u16, i8)>,
}
pub const N_SHAPE: u8 = 14;

#[derive(Clone, Debug)]
pub struct Graph {
    pub n: usize,
    /// stored entries in row order: (source, target, value)
    pub e: Vec<(usize, usize, i16)>,
    pub cols: usize,
}

/// Deterministic edges of a structure.
fn structure(s: &GraphSpec, n: usize) -> Vec<(usize, usize)> {
    let k = s.knob as usize;
    let mut v = vec![];
    if n == 0 {
        return v;
    }
    // far beyond what quadratic structures allow
    let shape = if n >= HUGE_FROM { [0, 1, 2, 3, 6, 7, 9, 13][s.shape as usize % 8] } else { s.shape };
    match shape {
        // path
        1 => (1..n).for_each(|i| v.push((i - 1, i))),
        // cycle
        2 => (0..n).for_each(|i| v.push((i, (i + 1) % n))),
        // cycles of length L, chained by one-way edges
        3 => {
            let l = 1 + k % 7;
            for i in 0..n {
                let b = i / l * l;
                let e = (b + l).min(n);
                v.push((i, if i + 1 < e { i + 1 } else { b }));
                if i + 1 == e && e < n {
                    v.push((i, e));
                }
            }
        }
        // star out, star in
        4 => (1..n).for_each(|i| v.push((0, i))),
        5 => (1..n).for_each(|i| v.push((i, 0))),
        // tree
        6 => (1..n).for_each(|i| v.push(((i - 1) / (2 + k % 3), i))),
        // forward path with nested back edges
        7 => {
            for i in 1..n {
                v.push((i - 1, i));
            }
            let step = 1 + k % 5;
            for i in (step..n).step_by(1 + k / 5 % 4) {
                v.push((i, i - step));
            }
        }
        // complete (small) or layered
        8 => {
            let w = if n <= 24 { n } else { 3 + k % 4 };
            for i in 0..n {
                for j in (i / w * w)..((i / w + 2) * w).min(n) {
                    if n <= 24 || j / w != i / w {
                        v.push((i, j));
                    }
                }
            }
        }
        // two halves, one edge each way between them
        9 => {
            let h = n / 2;
            (1..h).for_each(|i| v.push((i - 1, i)));
            (h + 1..n).for_each(|i| v.push((i, i - 1)));
            if h > 0 {
                v.push((h - 1, n - 1));
                if k % 2 == 0 {
                    v.push((h, 0));
                }
            }
        }
        // disjoint blocks
        10 => {
            let l = 2 + k % 6;
            for i in 0..n {
                if i % l + 1 < l && i + 1 < n {
                    if k % 3 == 0 {
                        v.push((i + 1, i));
                    } else {
                        v.push((i, i + 1));
                    }
                }
            }
        }
        // self loops only
        11 => (0..n).step_by(1 + k % 3).for_each(|i| v.push((i, i))),
        // figure eights: cycles sharing a node
        12 => {
            let l = 2 + k % 5;
            let mut i = 1;
            while i < n {
                let e = (i + l).min(n);
                v.push((0, i));
                (i + 1..e).for_each(|x| v.push((x - 1, x)));
                v.push((e - 1, 0));
                i = e;
            }
        }
        // reversed path with a closing chord
        13 => {
            (1..n).for_each(|i| v.push((i, i - 1)));
            v.push((k % n, n - 1 - k % n));
        }
        _ => {}
    }
    v
}
pub fn graph(s: &GraphSpec, cap: usize, symmetric: bool) -> Graph {
    let n = wide(s.n).min(cap);
    let mut e: Vec<(usize, usize, i16)> = structure(s, n).into_iter().enumerate().map(|(i, (a, b))| (a, b, (i % 4) as i16)).collect();
    if n > 0 {
        e.extend(s.extra.iter().map(|x| (spread(x.0, n), spread(x.1, n), x.2 as i16)));
    }
    if s.relabel > 0 {
        let p = permutation(n, s.relabel as u64);
        e.iter_mut().for_each(|x| {
            x.0 = p[x.0];
            x.1 = p[x.1];
        });
    }
    if s.mirror > 0 && n > 0 {
        let back: Vec<_> = e
            .iter()
            .enumerate()
            .filter_map(|(i, x)| match (i * 7 + s.knob as usize) % (s.mirror as usize * 4) {
                0 if s.mirror > 1 && s.mirror % 2 == 0 => None,
                0 if s.mirror > 1 => Some((x.1, (x.0 + 1 + s.knob as usize % 5) % n, x.2)),
                _ => Some((x.1, x.0, x.2)),
            })
            .collect();
        e.extend(back);
    }
    if s.shuffle > 0 {
        let p = permutation(e.len(), s.shuffle as u64);
        e = p.into_iter().map(|i| e[i]).collect();
    }
    if symmetric {
        let mut both = vec![];
        for x in e {
            both.push(x);
            if x.0 != x.1 {
                both.push((x.1, x.0, 3 - x.2));
            }
        }
        // an even cut keeps pairs whole: drop from the end until closed under reversal
        both.truncate(cap);
        if let Some(&l) = both.last() {
            if l.0 != l.1 && both.iter().filter(|x| x.0 == l.0 && x.1 == l.1).count() != both.iter().filter(|x| x.0 == l.1 && x.1 == l.0).count() {
                both.pop();
            }
        }
        e = both;
    } else {
        e.truncate(cap);
    }
    e.sort_by_key(|x| x.0);
    Graph { n, e, cols: n }
}
impl Graph {
    pub fn csr<I: Ix, T: Ts>(&self) -> CSR<I, T> {
        self.ent::<T>().csr()
    }
    pub fn ent<T: Ts>(&self) -> Ent<T> {
        Ent { rows: self.n, cols: self.cols, t: self.e.iter().map(|x| (x.0, x.1, T::mk(x.2, x.2, 0))).collect(), layout: 0 }
    }
    pub fn out(&self) -> Vec<Vec<usize>> {
        let mut v = vec![vec![]; self.n];
        self.e.iter().for_each(|x| v[x.0].push(x.1));
        v
    }
    pub fn undirected(&self) -> Vec<Vec<usize>> {
        let mut v = vec![vec![]; self.n];
        self.e.iter().for_each(|x| {
            v[x.0].push(x.1);
            v[x.1].push(x.0);
        });
        v
    }
    pub fn classes(&self, mut cov: Cov) -> Cov {
        let mut c = |b: bool, s: &str| {
            if b {
                cov.classes.push(s.into())
            }
        };
        let mut set = std::collections::HashSet::new();
        c(self.e.iter().any(|x| !set.insert((x.0, x.1))), "duplicate edges");
        c(self.e.iter().any(|x| x.0 == x.1), "self-loops");
        c(self.e.iter().any(|x| x.2 == 0), "edges stored as zero");
        c(self.n == 0, "no nodes");
        c(self.e.is_empty(), "no edges");
        c(self.n >= 100, "100 or more nodes");
        c(self.n > 65535, "more than 65535 nodes");
        c(self.n >= 1000, "1000 or more nodes");
        cov
    }
}
/// A non-square variant of the graph's matrix.
pub fn skewed<I: Ix, T: Ts>(s: &GraphSpec, g: &Graph) -> Option<CSR<I, T>> {
    let mut e = g.ent::<T>();
    match s.skew {
        0 => return None,
        k if k > 0 => e.cols = (e.cols + k as usize).min(I::max_us()),
        k => e.rows = (e.rows + k.unsigned_abs() as usize).min(I::max_us()),
    }
    if e.rows == e.cols {
        return None;
    }
    Some(e.csr())
}
/// Labels of the weak components.
pub fn weak(g: &Graph) -> Vec<usize> {
    let mut p: Vec<usize> = (0..g.n).collect();
    fn find(p: &mut [usize], mut x: usize) -> usize {
        while p[x] != x {
            p[x] = p[p[x]];
            x = p[x];
        }
        x
    }
    for x in &g.e {
        let (a, b) = (find(&mut p, x.0), find(&mut p, x.1));
        p[a] = b;
    }
    (0..g.n).map(|i| find(&mut p, i)).collect()
}
pub fn reached(adj: &[Vec<usize>], s: usize) -> Vec<bool> {
    let mut seen = vec![false; adj.len()];
    let mut todo = vec![s];
    seen[s] = true;
    while let Some(v) = todo.pop() {
        for &w in &adj[v] {
            if !seen[w] {
                seen[w] = true;
                todo.push(w);
            }
        }
    }
    seen
}
/// Labels of the strong components.
pub fn strong(g: &Graph) -> Vec<usize> {
    let out = g.out();
    let n = g.n;
    if n <= 150 {
        // by definition
        let r: Vec<Vec<bool>> = (0..n).map(|s| reached(&out, s)).collect();
        return (0..n).map(|i| (0..n).find(|&j| r[i][j] && r[j][i]).unwrap()).collect();
    }
    // Kosaraju
    let mut inn = vec![vec![]; n];
    g.e.iter().for_each(|x| inn[x.1].push(x.0));
    let mut seen = vec![false; n];
    let mut order = vec![];
    for s in 0..n {
        if seen[s] {
            continue;
        }
        seen[s] = true;
        let mut st = vec![(s, 0)];
        while let Some(&mut (v, ref mut k)) = st.last_mut() {
            if *k < out[v].len() {
                let w = out[v][*k];
                *k += 1;
                if !seen[w] {
                    seen[w] = true;
                    st.push((w, 0));
                }
            } else {
                order.push(v);
                st.pop();
            }
        }
    }
    let mut lab = vec![usize::MAX; n];
    for &s in order.iter().rev() {
        if lab[s] != usize::MAX {
            continue;
        }
        let mut todo = vec![s];
        lab[s] = s;
        while let Some(v) = todo.pop() {
            for &w in &inn[v] {
                if lab[w] == usize::MAX {
                    lab[w] = s;
                    todo.push(w);
                }
            }
        }
    }
    lab
}
/// Equal partitions, labels 0..count all used.
pub fn same_partition(got: &[usize], count: usize, want: &[usize], what: &str) -> Result<(), String> {
    ensure(got.len() == want.len(), || format!("{what}: {} labels for {} nodes", got.len(), want.len()))?;
    let classes: std::collections::HashSet<usize> = want.iter().copied().collect();
    ensure(count == classes.len(), || format!("{what}: {count} components, expected {}; labels {}", classes.len(), short(got)))?;
    let mut used = vec![false; count];
    for (i, &l) in got.iter().enumerate() {
        ensure(l < count, || format!("{what}: label {l} of node {i}, {count} components"))?;
        used[l] = true;
    }
    if let Some(l) = used.iter().position(|u| !u) {
        return Err(format!("{what}: label {l} of {count} is not used"));
    }
    // equal counts: it is enough that equal reference labels get equal labels
    let mut map: std::collections::HashMap<usize, usize> = Default::default();
    for i in 0..got.len() {
        let l = *map.entry(want[i]).or_insert(got[i]);
        ensure(l == got[i], || format!("{what}: node {i} labelled {}, a node of its component {l}; labels {}", got[i], short(got)))?;
    }
    Ok(())
}
pub fn graph_spec() -> BoxedStrategy<GraphSpec> {
    let size = prop_oneof![
        160 => (0u16..7, 0usize..14),
        200 => (2u16..14, 2usize..40),
        80 => (10u16..60, 5usize..150),
        20 => (120u16..130, 60usize..200),
        20 => (250u16..260, 60usize..300),
        10 => (300u16..3000, 0usize..600),
        1 => (HUGE_CODE..HUGE_CODE + 40, 0usize..600),
        1 => (HUGE_CODE..HUGE_CODE + N_HUGE_CODES, Just(0usize)),
    ];
    let size = match dict_num(HUGE_FROM as u16 - 1) {
        Some(n) => prop_oneof![25 => size, 1 => (n, 0usize..200)].boxed(),
        None => size.boxed(),
    };
    size.prop_flat_map(|(n, m)| {
        (
            prop_oneof![6 => Just(0u8), 6 => 1..N_SHAPE],
            any::<u16>(),
            prop_oneof![1 => Just(0u16), 2 => any::<u16>()],
            prop_oneof![1 => Just(0u16), 2 => any::<u16>()],
            (prop_oneof![10 => Just(0i8), 1 => -3i8..4], prop_oneof![5 => Just(0u8), 1 => 1u8..12]),
            prop_oneof![
                3 => prop::collection::vec((any::<u16>(), any::<u16>(), -1i8..3), m..=m),
                1 => prop::collection::vec((any::<u16>(), any::<u16>(), -1i8..3), 0..=m / 4 + usize::from(m > 0)),
            ],
        )
            .prop_map(move |(shape, knob, relabel, shuffle, (skew, mirror), extra)| GraphSpec { n, shape, knob, relabel, shuffle, skew, mirror, extra })
    })
    .boxed()
}
/// Index type by number; the checks pair it with one scalar type.
#[macro_export]
macro_rules! with_graph_types {
    ($ty:expr, $f:ident, $($a:expr),*) => {{
        match $ty % 8 {
            0 => $f::<usize, f64>($($a),*),
            1 => $f::<i32, i64>($($a),*),
            2 => $f::<u8, f64>($($a),*),
            3 => $f::<i8, i64>($($a),*),
            4 => $f::<u16, num_complex::Complex<f64>>($($a),*),
            5 => $f::<i64, f32>($($a),*),
            6 => $f::<u128, i128>($($a),*),
            _ => $f::<i16, u64>($($a),*),
        }
    }};
}
