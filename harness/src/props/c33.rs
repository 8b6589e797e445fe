//! Results depend on the operands alone: not on what ran before, nor on what runs beside.
use crate::battery::*;
use crate::prelude::*;
use crate::trap::*;
use crate::with_signed_types;
use std::ops::Neg;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ty: u8,
    exp: i8,
    x: OpSpec,
    /// what runs before and beside
    y: Vec<OpSpec>,
    threads: u8,
    /// operations on the same operands are broken off by panics; 0: none
    #[serde(default)]
    broken: u16,
    /// how a twin of `x` differs from it, see `twin`
    #[serde(default)]
    twin: u8,
    #[serde(default)]
    twin_knob: u16,
    /// values whose sums and products are rounded
    #[serde(default)]
    rough: bool,
}
/// Operands which share as much as possible with `o`: shapes, entry counts, and pointers, positions
/// or values. A result remembered under too coarse a key is wrong for one of the two.
fn twin<T: Ts>(o: &Operands<T>, kind: u8, knob: u16) -> Operands<T> {
    let mut o = o.clone();
    let k = knob as usize;
    let which = knob % 8;
    {
        let all = [&mut o.a, &mut o.b, &mut o.c, &mut o.r, &mut o.d];
        for (i, e) in all.into_iter().enumerate() {
            // one matrix, or all of them
            if which < 5 && which as usize != i || e.t.is_empty() {
                continue;
            }
            let (nr, nc, n) = (e.rows, e.cols, e.t.len());
            match kind {
                // other values, in place
                0 => e.t.rotate_values(1 + k % n),
                // one other value
                1 => {
                    let (x, y) = (k % n, (k / 7) % n);
                    e.t[x].2 = e.t[y].2;
                    if x == y {
                        e.t[x].2 = T::one();
                    }
                }
                // all entries of a row in one column: as many per row, fewer positions
                2 => e.t.iter_mut().for_each(|t| t.1 = (t.0 + k) % nc),
                // columns moved: as many per row
                3 => e.t.iter_mut().for_each(|t| t.1 = (t.1 + 1 + k % nc.max(2)) % nc),
                // rows moved: as many per column
                4 => e.t.iter_mut().for_each(|t| t.0 = (t.0 + 1 + k % nr.max(2)) % nr),
                // one entry moved within its row
                5 => e.t[k % n].1 = (e.t[k % n].1 + 1 + k / 11) % nc,
                // columns mirrored
                _ => e.t.iter_mut().for_each(|t| t.1 = nc - 1 - t.1),
            }
            if e.layout >= 2 {
                e.t.sort_by_key(|t| (t.0, t.1));
            }
        }
    }
    if which == 5 && kind > 0 {
        o.rows.reverse();
        o.cols.reverse();
    }
    o
}
trait Rotate {
    fn rotate_values(&mut self, k: usize);
}
impl<T: Copy> Rotate for Vec<(usize, usize, T)> {
    fn rotate_values(&mut self, k: usize) {
        let v: Vec<T> = self.iter().map(|t| t.2).collect();
        let n = v.len();
        for (i, t) in self.iter_mut().enumerate() {
            t.2 = v[(i + k) % n];
        }
    }
}
fn roughen<T: Ts>(o: &mut Operands<T>) {
    let third = T::from_f64(1.0 / 3.0, 0.0);
    for e in [&mut o.a, &mut o.b, &mut o.c, &mut o.r, &mut o.d] {
        e.t.iter_mut().for_each(|t| t.2 = t.2 * third);
    }
    o.s = o.s * third;
}
/// Runs the battery with a scalar that panics after some number of arithmetic steps, a different
/// number for each operation; the results are thrown away. How many operations were broken off.
fn break_off<I: Ix>(c: &Case, cap: usize, seed: u64) -> u64 {
    let all: Vec<Operands<Trap>> =
        std::iter::once(&c.x).chain(&c.y).map(|o| operands(o, 0, cap)).filter(|o: &Operands<Trap>| o.a.t.len() <= 300).collect();
    let before = burnt();
    for (i, o) in all.iter().enumerate() {
        fuses((seed << 8) + i as u64 + 1);
        let _ = catch(|| battery::<I, Trap>(o, cap));
        fuses(0);
    }
    burnt() - before
}
fn strategy() -> BoxedStrategy<Case> {
    let profs = [TINY, SMALL, Prof { w: 20, ..MEDIUM }, Prof { w: 2, ..LIMIT }, Prof { w: 1, ..LARGE }, Prof { w: 2, ..DICT }];
    over_profiles(&profs, move |p| {
        let p = *p;
        // others of any size
        let other = over_profiles(&[TINY, SMALL, Prof { w: 20, ..MEDIUM }], |q| op_spec(q, true));
        (ty(), exp(), op_spec(&p, true), prop::collection::vec(prop_oneof![1 => op_spec(&p, true), 2 => other], 1..4), 2u8..4, prop_oneof![1 => Just(0u16), 1 => 1u16..], (0u8..7, any::<u16>()), any::<bool>())
            .prop_map(|(ty, exp, x, y, threads, broken, (twin, twin_knob), rough)| Case { ty, exp, x, y, threads, broken, twin, twin_knob, rough })
            .boxed()
    })
}
pub fn prop() -> Prop<Case> {
    Prop {
        id: "C33",
        rule: "the battery of every constructor, conversion, query, operation and kernel on one set of random operands, run first, again after one to three batteries on other random operands of other sizes, in half of the cases again after batteries whose operations are broken off by a panicking scalar after a random number of arithmetic steps, for six random groups of operations in turn with the same operations on a twin (same shapes and counts; other values, one other value, columns or rows moved, one entry moved), and again on 2 or 3 threads at once beside those; all results (shape, stored positions, values, for half of the floating-point cases with rounded sums) compared exactly; non-trivial: the first operand has at least 2 rows, 2 columns and 2 stored entries",
        assumptions: &["the order in which a dictionary matrix lists its entries is not a result", "dimensions and entry counts fit the index type"],
        quick: 8_000,
        thorough_factor: 30,
        strategy,
        check,
    }
}
fn check(c: &Case) -> Check {
    with_signed_types!(c.ty, go, c)
}
fn alike<T: Ts>(x: &[Item<T>], y: &[Item<T>], when: &str) -> Result<(), String> {
    ensure(x.len() == y.len(), || format!("{when}: the battery has {} and {} results", x.len(), y.len()))?;
    for (a, b) in x.iter().zip(y) {
        agree(&b.got, &a.got, &format!("{} {when}", a.name))?;
        if let (Out::Mat(p), Out::Mat(q)) = (&a.got, &b.got) {
            let k = p.m.keys().find(|k| !q.m.contains_key(k)).or_else(|| q.m.keys().find(|k| !p.m.contains_key(k)));
            if let Some(k) = k {
                return Err(format!("{} {when}: an entry is stored at {k:?} in one of two runs only", a.name));
            }
        }
    }
    Ok(())
}
fn go<I: Ix, T: Ts + Neg<Output = T>>(c: &Case) -> Check {
    let cap = I::max_us();
    let rough = c.rough && T::FLOAT && c.exp > -50;
    let of = |o: &OpSpec| {
        let mut o: Operands<T> = operands(o, c.exp as i32, cap);
        if rough {
            roughen(&mut o);
        }
        o
    };
    let x = of(&c.x);
    let ys: Vec<Operands<T>> = c.y.iter().map(of).collect();
    op("battery");
    let first = battery::<I, T>(&x, cap);
    let beside: Vec<Vec<Item<T>>> = ys.iter().map(|y| battery::<I, T>(y, cap)).collect();
    alike(&first, &battery::<I, T>(&x, cap), "after other operations")?;
    let near = x.a.t.len() <= 300 && x.c.t.len() <= 300;
    let mut paired = 0;
    if near {
        op("battery beside a twin");
        let tw = twin(&x, c.twin, c.twin_knob);
        let other = battery::<I, T>(&tw, cap);
        // the same few operations in turn
        for i in 0..6u64 {
            let h = (c.twin_knob as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i.wrapping_mul(0xD1B54A32D192ED03)) >> 20;
            let at = h as usize % first.len();
            let part = at..at + 1 + (h >> 30) as usize % 3;
            let of = |v: &[Item<T>]| v.iter().map(|i| i.name).collect::<Vec<_>>();
            let slice = |v: &'_ [Item<T>]| part.start.min(v.len())..part.end.min(v.len());
            let (p, q) = (&first[slice(&first)], &other[slice(&other)]);
            // a twin may have room for fewer operations
            if of(p) != of(q) {
                continue;
            }
            paired += 1;
            alike(p, &battery_part::<I, T>(&x, cap, part.clone()), "alone")?;
            alike(q, &battery_part::<I, T>(&tw, cap, part.clone()), "of a twin right after the other's")?;
            alike(p, &battery_part::<I, T>(&x, cap, part.clone()), "right after a twin's")?;
        }
    }
    let broken = if c.broken == 0 { 0 } else { break_off::<I>(c, cap, c.broken as u64) };
    if broken > 0 {
        op("battery after operations broken off");
        alike(&first, &battery::<I, T>(&x, cap), "after operations broken off by a panic")?;
    }
    let all = std::thread::scope(|s| {
        let (x, ys) = (&x, &ys);
        let h: Vec<_> = (0..c.threads as usize)
            .map(|k| {
                s.spawn(move || {
                    if c.broken > 0 && k % 2 == 1 {
                        break_off::<I>(c, cap, c.broken as u64 + k as u64);
                    }
                    // each thread begins elsewhere
                    let mut out = vec![];
                    for i in 0..=ys.len() {
                        let i = (i + k) % (ys.len() + 1);
                        out.push((i, if i == 0 { battery::<I, T>(x, cap) } else { battery::<I, T>(&ys[i - 1], cap) }));
                    }
                    out
                })
            })
            .collect();
        h.into_iter().map(|h| h.join()).collect::<Vec<_>>()
    });
    for t in all {
        let t = t.map_err(|_| "a thread panicked".to_string())?;
        for (i, got) in t {
            alike(if i == 0 { &first } else { &beside[i - 1] }, &got, "on several threads")?;
        }
    }
    op("");
    Ok(mat_classes(Cov::new(busy(&x.a)), c.ty, &x.a).class(format!("{} threads", c.threads)).class_if(broken > 0, "after operations broken off").class_if(broken > 10, "after more than 10 operations broken off").class_if(rough, "rounded values").class_if(paired > 0, &format!("in turn with a twin of kind {}", c.twin)))
}
