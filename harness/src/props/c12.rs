//! Diagonals are extracted and built exactly.
use crate::prelude::*;
use crate::with_types;
use sparsetools::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    a: MatSpec,
    /// relative to the shape; see `offset`
    ks: Vec<(u8, i16)>,
    n: u16,
    knob: u16,
}
fn strategy() -> BoxedStrategy<Case> {
    over_profiles(&profiles(), |p| {
        (
            ty(), exp(), mat_spec(p, false),
            prop::collection::vec(offset_or_dict(0, (0u8..8, -20i16..=20).boxed()), 1..6),
            or_dict(prop_oneof![300 => 0u16..12, 50 => 0u16..400, 50 => 126u16..129, 50 => 254u16..257, 1 => HUGE_CODE..HUGE_CODE + 100].boxed(), HUGE_FROM as u16), any::<u16>(),
        )
            .prop_map(|(ty, exp, a, ks, n, knob)| Case { ty, exp, a, ks, n, knob })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C12",
        rule: "random matrix in random storage order with duplicates and zeros; diagonal offsets inside, at and far beyond the shape (isize::MIN and MAX included); diagonals of any length to build from; non-trivial: at least 2 rows, 2 columns and 2 stored entries, one of them on an extracted diagonal",
        assumptions: &["a diagonal's buffer is as long as the diagonal; further space in it must stay untouched"],
        quick: 120_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn offset(k: (u8, i16), rows: usize, cols: usize) -> isize {
    match k.0 {
        0 => k.1 as isize,
        1 => cols as isize + (k.1 % 3) as isize,
        2 => -(rows as isize) + (k.1 % 3) as isize,
        3 if k.1 % 4 == 0 => isize::MIN,
        3 if k.1 % 4 == 1 => isize::MAX,
        3 if k.1 > 10 => 100_000 * k.1 as isize,
        3 if k.1 > 0 => isize::MIN + k.1 as isize,
        3 => isize::MAX + k.1 as isize,
        // beside a power of two
        6 => (1isize << [8, 16, 31, 32, 48][k.1.unsigned_abs() as usize % 5]) + (k.1 / 5) as isize,
        7 => -(1isize << [8, 16, 31, 32, 48][k.1.unsigned_abs() as usize % 5]) + (k.1 / 5) as isize,
        4 => 0,
        _ => k.1 as isize % 4,
    }
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let e: Ent<T> = realize_mat::<I, T>(&c.a, c.exp as i32);
    let (nr, nc) = (e.rows, e.cols);
    let m = Model::of(&e);
    let main = m.diag();
    op("diagonal");
    same_vec(&e.csr::<I>().diagonal(), &main, "CSR::diagonal")?;
    same_vec(&e.csc::<I>().diagonal(), &main, "CSC::diagonal")?;
    same_vec(&e.coo::<I>().diagonal(), &main, "Coo::diagonal")?;

    let (r, s) = (e.raw_csr::<I>(), e.raw_csc::<I>());
    let sentinel = T::mk(41, 7, 0);
    let mut hit = false;
    for &k in &c.ks {
        let k = offset(k, nr, nc);
        let mut want = vec![];
        for i in 0..nr {
            if let Some(j) = (i as isize).checked_add(k) {
                if j >= 0 && (j as usize) < nc {
                    want.push(m.get(i, j as usize));
                    hit |= m.m.contains_key(&(i, j as usize));
                }
            }
        }
        want.extend([sentinel; 3]);
        let mut y = vec![sentinel; want.len()];
        op("csr_diagonal");
        csr_diagonal(k, nr, nc, &r.p, &r.j, &r.x, &mut y);
        same_vec(&y, &want, &format!("csr_diagonal k = {k}"))?;
        let mut y = vec![sentinel; want.len()];
        op("csc_diagonal");
        csc_diagonal(k, nr, nc, &s.p, &s.j, &s.x, &mut y);
        same_vec(&y, &want, &format!("csc_diagonal k = {k}"))?;
    }
    op("csr_count_diagonals");
    let occupied: std::collections::HashSet<isize> = e.t.iter().map(|t| t.1 as isize - t.0 as isize).collect();
    let n = csr_count_diagonals(nr, &r.p, &r.j);
    ensure(n == occupied.len(), || format!("csr_count_diagonals: {n}, expected {}", occupied.len()))?;

    // built from a diagonal
    let n = dim::<I>(c.n);
    let d: Vec<T> = filler(n, c.knob, c.exp as i32);
    let mut want = Model::empty(n, n);
    (0..n).for_each(|i| {
        want.m.insert((i, i), d[i]);
    });
    op("with_diagonal");
    let a = CSR::<I, T>::with_diagonal(d.clone());
    obs_csr(&a, "CSR::with_diagonal")?.m.same(&want, "CSR::with_diagonal")?;
    same_vec(&a.diagonal(), &d, "CSR::with_diagonal().diagonal()")?;
    let a = CSC::<I, T>::with_diagonal(d.clone());
    obs_csc(&a, "CSC::with_diagonal")?.m.same(&want, "CSC::with_diagonal")?;
    same_vec(&a.diagonal(), &d, "CSC::with_diagonal().diagonal()")?;
    let a = Coo::<I, T>::with_diagonal(&d);
    obs_coo(&a, "Coo::with_diagonal")?.m.same(&want, "Coo::with_diagonal")?;
    same_vec(&a.diagonal(), &d, "Coo::with_diagonal().diagonal()")?;
    op("identity");
    let a = Coo::<I, T>::identity(n);
    obs_coo(&a, "Coo::identity")?.m.same(&want.map(|_, _, _| T::one()), "Coo::identity")?;
    op("");
    let cov = Cov::new(busy(&e) && hit)
        .class_if(nr > nc, "taller than wide")
        .class_if(nc > nr, "wider than tall");
    Ok(mat_classes(cov, c.ty, &e))
}
