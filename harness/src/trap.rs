//! A whole-number scalar whose arithmetic panics when a fuse has burnt down: operations of the
//! library cut off in their middle.
use crate::types::Ts;
use num_traits::{One, Zero};
use sparsetools::{Nonzero, Scalar};
use std::cell::Cell;
use std::ops::*;

thread_local! {
    /// Arithmetic steps left; negative: no fuse.
    static LEFT: Cell<i64> = const { Cell::new(-1) };
    /// State of the generator of fuse lengths; 0: none are set.
    static GEN: Cell<u64> = const { Cell::new(0) };
    static BURNT: Cell<u64> = const { Cell::new(0) };
}
/// From now on each operation of a battery gets a fuse (0: no longer).
pub fn fuses(seed: u64) {
    GEN.with(|g| g.set(seed));
    LEFT.with(|l| l.set(-1));
}
/// How many fuses have burnt down on this thread.
pub fn burnt() -> u64 {
    BURNT.with(|b| b.get())
}
/// Runs `f` with a fuse, where fuses are set.
pub fn fused<R>(f: impl FnOnce() -> R) -> R {
    let s = GEN.with(|g| g.get());
    if s == 0 {
        return f();
    }
    let s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1;
    GEN.with(|g| g.set(s));
    // short fuses most of the time
    let k = (s >> 33) >> (s >> 58) % 32;
    LEFT.with(|l| l.set((k % 4000) as i64));
    let r = f();
    LEFT.with(|l| l.set(-1));
    r
}
/// After a panic.
pub fn unfuse() {
    LEFT.with(|l| l.set(-1));
}
fn tick() {
    LEFT.with(|l| {
        let v = l.get();
        if v == 0 {
            l.set(-1);
            BURNT.with(|b| b.set(b.get() + 1));
            panic!("fuse burnt down");
        }
        if v > 0 {
            l.set(v - 1);
        }
    })
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Trap(pub i64);
macro_rules! bin {
    ($($tr:ident $f:ident $op:ident),*) => { $(impl $tr for Trap {
        type Output = Trap;
        fn $f(self, o: Trap) -> Trap { tick(); Trap(self.0.$op(o.0)) }
    })* }
}
bin!(Add add wrapping_add, Sub sub wrapping_sub, Mul mul wrapping_mul);
impl Div for Trap {
    type Output = Trap;
    fn div(self, o: Trap) -> Trap {
        tick();
        Trap(self.0 / o.0)
    }
}
impl Neg for Trap {
    type Output = Trap;
    fn neg(self) -> Trap {
        tick();
        Trap(self.0.wrapping_neg())
    }
}
impl AddAssign for Trap {
    fn add_assign(&mut self, o: Trap) {
        *self = *self + o
    }
}
impl SubAssign for Trap {
    fn sub_assign(&mut self, o: Trap) {
        *self = *self - o
    }
}
impl MulAssign for Trap {
    fn mul_assign(&mut self, o: Trap) {
        *self = *self * o
    }
}
impl PartialEq for Trap {
    fn eq(&self, o: &Trap) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Zero for Trap {
    fn zero() -> Trap {
        Trap(0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 == 0
    }
}
impl One for Trap {
    fn one() -> Trap {
        Trap(1)
    }
}
impl Nonzero for Trap {}
impl std::fmt::Display for Trap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick();
        write!(f, "{}", self.0)
    }
}
impl Scalar for Trap {}
impl Ts for Trap {
    const NAME: &'static str = "Trap";
    const SIGNED: bool = true;
    const COMPLEX: bool = false;
    const FLOAT: bool = false;
    fn mk(re: i16, _: i16, _: i32) -> Self {
        Trap(re as i64)
    }
    fn from_f64(re: f64, _: f64) -> Self {
        Trap(re as i64)
    }
    fn key(self) -> [u128; 2] {
        [self.0 as u128, 0]
    }
    fn mag(self) -> f64 {
        (self.0 as f64).abs()
    }
    fn parts(self) -> (f64, f64) {
        (self.0 as f64, 0.0)
    }
}
