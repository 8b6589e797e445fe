//! C28: computed eigenpairs satisfy the eigenvalue equation.
use harness::prelude::*;
use sparsetools::eigen::real::eigs;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    /// random sparse matrix: residuals
    Any(MatSpec),
    /// prescribed eigenvalues: residuals and the values themselves
    Spectrum {
        /// per block: complex pair?, ratio of its magnitude to the previous one's, angle
        wanted: Vec<(bool, u8, u8)>,
        /// the rest: number, and structure
        rest: u8,
        rest_pairs: bool,
        gap: u8,
        scale: i8,
        /// plane rotations mixing the coordinates
        mix: Vec<(u8, u8, u8)>,
        /// strictly upper additions to a block's row (non-normal)
        shear: Vec<(u8, u8, i8)>,
        /// eigenvalues asked for, counted from the wanted blocks
        ask: u8,
    },
    /// argument checks
    Args { rows: u8, cols: u8, nev: u8 },
    /// several at once, each on a thread of its own, some times over
    Beside(Vec<Case>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    knob: u16,
    nev: u8,
    kind: Kind,
}
fn strategy() -> BoxedStrategy<Case> {
    let any_m = over_profiles(
        &[
            Prof { w: 4, dims: &[(3, 12)], nmin: 0, nmax: 60 },
            Prof { w: 2, dims: &[(5, 60)], nmin: 5, nmax: 300 },
        ],
        |p| mat_spec(p, false),
    )
    .prop_map(|mut m| {
        m.cols = m.rows;
        Kind::Any(m)
    });
    let spec = (
        prop::collection::vec((any::<bool>(), any::<u8>(), any::<u8>()), 1..6),
        prop_oneof![60 => 3u8..12, 20 => 12u8..60, 1 => 60u8..250],
        any::<bool>(),
        0u8..30,
        -12i8..=12,
        prop::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..60),
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), any::<u8>(), -3i8..=3), 0..8)],
        any::<u8>(),
    )
        .prop_map(|(wanted, rest, rest_pairs, gap, scale, mix, shear, ask)| Kind::Spectrum { wanted, rest, rest_pairs, gap, scale, mix, shear, ask });
    let args = (0u8..8, 0u8..8, 0u8..10).prop_map(|(rows, cols, nev)| Kind::Args { rows, cols, nev });
    let sq = (0u8..8, 0u8..10).prop_map(|(rows, nev)| Kind::Args { rows, cols: rows, nev });
    let spec = spec.boxed();
    let one = |k: BoxedStrategy<Kind>| (any::<u16>(), any::<u8>(), k).prop_map(|(knob, nev, kind)| Case { knob, nev, kind });
    let beside = prop::collection::vec(one(spec.clone()), 2..5).prop_map(Kind::Beside);
    one(prop_oneof![60 => any_m, 120 => spec, 20 => args, 20 => sq, 3 => beside].boxed()).boxed()
}
fn prop() -> Prop<Case> {
    Prop {
        id: "C28",
        rule: "random sparse square matrices (residuals of every returned pair), matrices with prescribed real and complex-pair eigenvalues mixed by random plane rotations and shears (residuals and the values), the same on several threads at once, and random argument combinations (rejection); non-trivial: at least one eigenpair was checked",
        assumptions: &["iteration on a spectrum that is not well separated may end in an error"],
        quick: 40_000,
        thorough_factor: 25,
        strategy,
        check,
    }
}
type D = Vec<Vec<f64>>;
fn check(c: &Case) -> Check {
    match &c.kind {
        Kind::Beside(v) => {
            let all = std::thread::scope(|s| {
                let h: Vec<_> = v.iter().map(|c| s.spawn(move || (0..4).try_for_each(|_| check(c).map(|_| ())))).collect();
                h.into_iter().map(|h| h.join()).collect::<Vec<_>>()
            });
            for r in all {
                r.map_err(|_| "a thread panicked".to_string())?.map_err(|e| format!("{e} (while other threads compute)"))?;
            }
            Ok(Cov::new(true).class("several threads"))
        }
        Kind::Args { rows, cols, nev } => args(*rows as usize, *cols as usize, *nev as usize, c.knob),
        Kind::Any(m) => {
            let n = (m.rows as usize).max(3);
            let e: Ent<f64> = realize(n, n, &m.e, 0, usize::MAX);
            let nev = 1 + c.nev as usize % (n - 2).min(8);
            let a = e.csc::<usize>();
            op("eigs");
            let r = eigs(&a, nev);
            op("");
            let cov = |b| Cov::new(b).class("random matrix");
            match r {
                Ok((d, z)) => {
                    let k = pairs(&e, &d, &z, nev)?;
                    Ok(cov(k > 0).class_if(d.iter().any(|x| x.im != 0.0), "complex pair returned"))
                }
                Err(_) => Ok(cov(false).class("no convergence on a random matrix")),
            }
        }
        Kind::Spectrum { wanted, rest, rest_pairs, gap, scale, mix, shear, ask } => {
            // blocks in order of falling magnitude
            let mut lam: Vec<Complex<f64>> = vec![];
            let mut mag = 1.0;
            for &(pair, ratio, angle) in wanted {
                mag *= 0.55 + 0.3 * (ratio as f64 / 255.0);
                if pair {
                    let t = std::f64::consts::PI * (0.1 + 0.8 * angle as f64 / 255.0);
                    lam.push(Complex::from_polar(mag, t));
                    lam.push(Complex::from_polar(mag, -t));
                } else {
                    lam.push(Complex::new(if angle & 1 == 0 { mag } else { -mag }, 0.0));
                }
            }
            let nw = lam.len();
            mag *= 0.5 + *gap as f64 / 150.0;
            let mut i = 0;
            while i < *rest as usize {
                let m = mag * (1.0 - 0.5 * i as f64 / *rest as f64);
                if *rest_pairs && i + 1 < *rest as usize {
                    let t = 0.3 + 2.4 * (i as f64 / *rest as f64);
                    lam.push(Complex::from_polar(m, t));
                    lam.push(Complex::from_polar(m, -t));
                    i += 2;
                } else {
                    lam.push(Complex::new(if i % 3 == 0 { -m } else { m }, 0.0));
                    i += 1;
                }
            }
            let n = lam.len();
            let nev = 1 + *ask as usize % nw.min(n - 2);
            // keep entries exact powers apart from the rotations
            let s = 2f64.powi(*scale as i32);
            lam.iter_mut().for_each(|l| *l = *l * s);
            let mut a: D = vec![vec![0.0; n]; n];
            let mut i = 0;
            while i < n {
                if lam[i].im != 0.0 {
                    a[i][i] = lam[i].re;
                    a[i + 1][i + 1] = lam[i].re;
                    a[i][i + 1] = lam[i].im;
                    a[i + 1][i] = -lam[i].im;
                    i += 2;
                } else {
                    a[i][i] = lam[i].re;
                    i += 1;
                }
            }
            // similarity by unit shears (bounded number, so well conditioned)
            for &(p, q, w) in shear {
                let (p, q) = (p as usize % n, q as usize % n);
                if p == q {
                    continue;
                }
                let w = w as f64 / 8.0;
                for k in 0..n {
                    let x = a[q][k];
                    a[p][k] += w * x;
                }
                for k in 0..n {
                    let x = a[k][p];
                    a[k][q] -= w * x;
                }
            }
            for &(p, q, t) in mix {
                let (p, q) = (p as usize % n, q as usize % n);
                if p == q {
                    continue;
                }
                let t = t as f64 / 40.0;
                let (co, si) = (t.cos(), t.sin());
                for k in 0..n {
                    let (x, y) = (a[p][k], a[q][k]);
                    a[p][k] = co * x - si * y;
                    a[q][k] = si * x + co * y;
                }
                for k in 0..n {
                    let (x, y) = (a[k][p], a[k][q]);
                    a[k][p] = co * x - si * y;
                    a[k][q] = si * x + co * y;
                }
            }
            let t = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|&(i, j)| a[i][j] != 0.0).map(|(i, j)| (i, j, a[i][j])).collect();
            let e = Ent::<f64> { rows: n, cols: n, t, layout: 3 };
            let m = e.csc::<usize>();
            op("eigs");
            let (d, z) = eigs(&m, nev).map_err(|x| format!("eigs failed on a {n}x{n} matrix with well-separated spectrum, nev {nev}: {x}"))?;
            op("");
            pairs(&e, &d, &z, nev)?;
            // each of the nev largest is there
            let tol = 1e-6 * lam[0].norm();
            let mut left: Vec<Complex<f64>> = d.clone();
            // a pair cut in half by nev comes whole
            let whole = if lam[nev - 1].im > 0.0 { nev + 1 } else { nev };
            ensure(d.len() == nev || d.len() == whole, || format!("{d:?} for nev {nev}, spectrum {lam:?}"))?;
            for l in &lam[..d.len()] {
                match left.iter().position(|x| (x - l).norm() <= tol) {
                    Some(k) => {
                        left.swap_remove(k);
                    }
                    None => return Err(format!("eigenvalue {l} is missing from {d:?} (n {n}, nev {nev}, spectrum {:?})", &lam[..nw])),
                }
            }
            Ok(Cov::new(true)
                .class("prescribed spectrum")
                .class_if(whole > nev, "nev cuts a complex pair")
                .class_if(d.iter().any(|x| x.im != 0.0), "complex pair returned")
                .class_if(!shear.is_empty(), "non-normal"))
        }
    }
}
fn pairs(e: &Ent<f64>, d: &[Complex<f64>], z: &full::Mat<Complex<f64>>, nev: usize) -> Result<usize, String> {
    let n = e.rows;
    ensure(d.len() <= nev + 1, || format!("{} values for nev {nev}", d.len()))?;
    ensure(z.rows() >= d.len() && z.cols() == n, || format!("vectors are {}x{} for {} values, n {n}", z.rows(), z.cols(), d.len()))?;
    let norm = e.t.iter().map(|x| x.2 * x.2).sum::<f64>().sqrt();
    for (k, l) in d.iter().enumerate() {
        let v: Vec<Complex<f64>> = (0..n).map(|j| z[(k, j)]).collect();
        let len = v.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt();
        ensure(len.is_finite() && len > 1e-3, || format!("vector {k} has length {len}"))?;
        let mut r: Vec<Complex<f64>> = v.iter().map(|x| -l * x).collect();
        for &(i, j, x) in &e.t {
            r[i] += v[j] * x;
        }
        let res = r.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt() / len;
        ensure(res <= 1e-9 * norm.max(1e-30) , || format!("pair {k}: |A v - lambda v| = {res:e} with |A| = {norm:e}, lambda = {l}, n {n}, nev {nev}"))?;
    }
    Ok(d.len())
}
fn args(rows: usize, cols: usize, nev: usize, knob: u16) -> Check {
    let v = filler_nz::<f64>(rows * cols, knob, 0);
    let t = (0..rows * cols).map(|k| (k / cols, k % cols, v[k])).collect();
    let a = Ent::<f64> { rows, cols, t, layout: 3 }.csc::<usize>();
    op("eigs");
    let r = eigs(&a, nev);
    op("");
    let valid = rows == cols && nev > 0 && nev + 1 < rows;
    if !valid {
        ensure(r.is_err(), || format!("eigs accepted {rows}x{cols} with nev {nev}"))?;
    }
    Ok(Cov::new(false).class(if valid { "valid arguments" } else { "invalid arguments" }))
}
fn main() {
    harness::cli::main(vec![Box::new(prop())])
}
