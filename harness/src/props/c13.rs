//! Stacking and block composition place every block exactly.
use crate::prelude::*;
use crate::with_types;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    h: [u16; 3],
    w: [u16; 3],
    blocks: Vec<EntSpec>,
    /// (block, kind): change one block's shape
    bend: Option<(u8, u8)>,
    /// one matrix in several places
    #[serde(default)]
    repeat: bool,
}
fn strategy() -> BoxedStrategy<Case> {
    let sizes = [TINY, SMALL, Prof { w: 10, dims: &[(1, 40), (40, 45), (80, 90)], nmin: 0, nmax: 60 }, Prof { w: 2, dims: &[(1, 120)], nmin: 30, nmax: 200 }];
    let mut profs = sizes.to_vec();
    profs.extend([HUGE, DICT]);
    over_profiles(&profs, |p| {
        let d = || (dimension(p), dimension(p), dimension(p)).prop_map(|(a, b, c)| [a, b, c]);
        // for huge blocks: which of the six dimensions is replaced, by what
        let big = if p.nmax == HUGE.nmax { (0usize..6, HUGE_CODE..HUGE_CODE + N_HUGE_CODES).prop_map(Some).boxed() } else { Just(None).boxed() };
        let named = if p.nmax == DICT.nmax { dict_num(HUGE_FROM as u16 - 1) } else { None };
        let big = match named {
            Some(x) => (0usize..6, x).prop_map(Some).boxed(),
            None => big,
        };
        let shape = (d(), d(), big).prop_map(|(mut h, mut w, big)| {
            if let Some((k, x)) = big {
                if k < 3 {
                    h[k] = x
                } else {
                    w[k - 3] = x
                }
            }
            (h, w)
        });
        (
            ty(), exp(), shape,
            prop::collection::vec(ent_spec(p.nmin, p.nmax, false), 9..=9),
            prop_oneof![5 => Just(None), 1 => (0u8..9, 0u8..8).prop_map(Some)],
            prop::bool::weighted(0.2),
        )
            .prop_map(|(ty, exp, (h, w), blocks, bend, repeat)| Case { ty, exp, h, w, blocks, bend, repeat })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C13",
        rule: "random block heights and widths (0 included) and nine random blocks in random storage order; stacks of 2 and 3, 2x2 and 3x3 grids, or the same with one block's shape changed or two widths exchanged; one matrix in several places in part of the cases; non-trivial: shapes agree and at least 2 blocks of the 2x2 grid store an entry",
        assumptions: &["the combined dimensions and entry counts fit the index type"],
        quick: 100_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_types!(c.ty, go, c)
}
fn clamp(d: [u16; 3], cap: usize) -> [usize; 3] {
    let mut d = d.map(wide);
    let mut left = cap;
    for x in &mut d {
        *x = (*x).min(left);
        left -= *x;
    }
    d
}
fn verdict<I: Ix, T: Ts>(
    r: Result<Coo<I, T>, impl std::fmt::Display>,
    blocks: &[(usize, usize, &Ent<T>)],
    shape: Option<(usize, usize)>,
    what: &str,
) -> Result<(), String> {
    match (r, shape) {
        (Ok(a), Some(s)) => {
            let o = obs_coo(&a, what)?;
            ensure(o.m.shape() == s, || format!("{what}: shape {:?}, expected {s:?}", o.m.shape()))?;
            let want: Vec<(usize, usize, T)> =
                blocks.iter().flat_map(|b| b.2.t.iter().map(move |t| (t.0 + b.0, t.1 + b.1, t.2))).collect();
            same_bag(&o.t, &want, what)
        }
        (Ok(_), None) => Err(format!("{what}: blocks of different adjoining dimension were accepted")),
        (Err(e), Some(_)) => Err(format!("{what}: matching blocks were rejected: {e}")),
        (Err(_), None) => Ok(()),
    }
}
/// Placement of a grid's blocks and its shape, if the blocks fit together.
fn layout<'a, T: Ts>(g: &[Vec<&'a Ent<T>>]) -> (Vec<(usize, usize, &'a Ent<T>)>, Option<(usize, usize)>) {
    let (mut out, mut fits, mut r) = (vec![], true, 0);
    for row in g {
        let mut c = 0;
        for (k, b) in row.iter().enumerate() {
            fits &= b.rows == row[0].rows && b.cols == g[0][k].cols;
            out.push((r, c, *b));
            c += b.cols;
        }
        r += row[0].rows;
    }
    let cols = g[0].iter().map(|b| b.cols).sum();
    (out, fits.then_some((r, cols)))
}
fn go<I: Ix, T: Ts>(c: &Case) -> Check {
    let cap = I::max_us();
    let bend = c.bend;
    // room for a bent block
    let room = cap - bend.is_some() as usize;
    let (mut h, mut w) = (c.h, c.w);
    if c.repeat {
        // equal shapes somewhere
        let k = c.blocks[0].knob;
        if k % 4 != 0 {
            h = [h[0]; 3];
        }
        if k % 5 != 0 {
            w = [w[0]; 3];
        }
    }
    let (h, w) = (clamp(h, room), clamp(w, room));
    let mut sh: Vec<(usize, usize)> = (0..9).map(|k| (h[k / 3], w[k % 3])).collect();
    if let Some((k, kind)) = bend {
        let k = k as usize;
        match kind {
            0 => sh[k].0 += 1,
            1 => sh[k].1 += 1,
            2 if sh[k].0 > 0 => sh[k].0 -= 1,
            3 if sh[k].1 > 0 => sh[k].1 -= 1,
            // same total width, another split
            4 => sh.swap(3, 4),
            // an empty block beside one that is not
            6 => sh[k].0 = if sh[k].0 == 0 { 1 } else { 0 },
            7 => sh[k].1 = if sh[k].1 == 0 { 1 } else { 0 },
            _ => sh.swap(7, 8),
        }
    }
    let mut left = cap;
    // which block is used where
    let mut id: Vec<usize> = (0..9).collect();
    let mut e: Vec<Ent<T>> = vec![];
    for k in 0..9 {
        let x: Ent<T> = realize(sh[k].0, sh[k].1, &c.blocks[k], c.exp as i32, left);
        let before = (0..k).find(|&b| sh[b] == sh[k] && (c.blocks[k].knob as usize + b) % 3 != 0 && e[b].t.len() <= left);
        match before {
            Some(b) if c.repeat => {
                id[k] = id[b];
                e.push(e[b].clone());
            }
            _ => e.push(x),
        }
        left -= e[k].t.len();
    }
    let own: Vec<Coo<I, T>> = e.iter().map(|x| x.coo::<I>()).collect();
    let a: Vec<&Coo<I, T>> = id.iter().map(|&k| &own[k]).collect();
    let same01 = id[1] == 0;
    let grid = |ids: &[&[usize]]| -> Vec<Vec<&Ent<T>>> { ids.iter().map(|r| r.iter().map(|&k| &e[k]).collect()).collect() };

    let mut ok = true;
    let l = |ids: &[&[usize]]| layout(&grid(ids).iter().map(|r| r.to_vec()).collect::<Vec<_>>()).1;
    op("Coo::h_stack");
    let g = grid(&[&[0, 1]]);
    let (p, s) = layout(&g);
    verdict(Coo::h_stack(a[0], a[1]), &p, s, "Coo::h_stack")?;
    op("CSR::h_stack");
    let (ra, rb) = (e[0].csr::<I>(), e[1].csr::<I>());
    match (CSR::h_stack(&ra, if same01 { &ra } else { &rb }), s) {
        (Ok(x), Some(_)) => {
            let want = Model::of(&e[0]).hstack(&Model::of(&e[1]));
            obs_csr(&x, "CSR::h_stack")?.m.same(&want, "CSR::h_stack")?;
        }
        (Ok(_), None) => return Err("CSR::h_stack: blocks of different height were accepted".into()),
        (Err(x), Some(_)) => return Err(format!("CSR::h_stack: matching blocks were rejected: {x}")),
        _ => {}
    }
    op("Coo::h_stack3");
    let g = grid(&[&[0, 1, 2]]);
    let (p, s) = layout(&g);
    verdict(Coo::h_stack3(a[0], a[1], a[2]), &p, s, "Coo::h_stack3")?;
    op("Coo::v_stack");
    let g = grid(&[&[0], &[3]]);
    let (p, s) = layout(&g);
    verdict(Coo::v_stack(a[0], a[3]), &p, s, "Coo::v_stack")?;
    op("Coo::v_stack3");
    let g = grid(&[&[0], &[3], &[6]]);
    let (p, s) = layout(&g);
    verdict(Coo::v_stack3(a[0], a[3], a[6]), &p, s, "Coo::v_stack3")?;

    op("Coo::compose");
    let g = grid(&[&[0, 1], &[3, 4]]);
    let (p, s) = layout(&g);
    ok &= s.is_some();
    verdict(Coo::compose([[a[0], a[1]], [a[3], a[4]]]), &p, s, "Coo::compose")?;
    op("CSC::compose");
    let b: Vec<CSC<I, T>> = [0, 1, 3, 4].iter().map(|&k| e[k].csc::<I>()).collect();
    let pick = |q: usize| -> &CSC<I, T> {
        let at = [0, 1, 3, 4];
        &b[(0..q).find(|&p| id[at[p]] == id[at[q]]).unwrap_or(q)]
    };
    match (CSC::compose(pick(0), pick(1), pick(2), pick(3)), s) {
        (Ok(x), Some((r, cc))) => {
            let mut want = Model::empty(r, cc);
            p.iter().for_each(|b| want.place(&Model::of(b.2), b.0, b.1));
            obs_csc(&x, "CSC::compose")?.m.same(&want, "CSC::compose")?;
        }
        (Ok(_), None) => return Err("CSC::compose: blocks of different adjoining dimension were accepted".into()),
        (Err(x), Some(_)) => return Err(format!("CSC::compose: matching blocks were rejected: {x}")),
        _ => {}
    }
    op("Coo::compose3");
    let g = grid(&[&[0, 1, 2], &[3, 4, 5], &[6, 7, 8]]);
    let (p, s) = layout(&g);
    verdict(
        Coo::compose3([[a[0], a[1], a[2]], [a[3], a[4], a[5]], [a[6], a[7], a[8]]]),
        &p, s, "Coo::compose3",
    )?;
    ok &= s.is_some();
    op("");
    let filled = [0, 1, 3, 4].iter().filter(|&&k| !e[k].t.is_empty()).count();
    let split = l(&[&[0, 1], &[3, 4]]).is_none() && e[0].cols + e[1].cols == e[3].cols + e[4].cols && e[0].rows == e[1].rows && e[3].rows == e[4].rows;
    let cov = Cov::new(ok && filled >= 2)
        .class_if(!ok, "shapes do not fit together")
        .class_if(id.iter().enumerate().any(|(k, &b)| b != k), "one matrix in several places")
        .class_if(split, "equal totals, different split")
        .class_if(h.iter().sum::<usize>() + 1 >= cap || w.iter().sum::<usize>() + 1 >= cap, "at the limit of the index type");
    Ok(mat_classes(cov, c.ty, &e[0]))
}
