//! Index and scalar types the checks are instantiated with.
use num_complex::Complex;
use sparsetools::{Integer, Scalar};
use std::fmt::Debug;
use std::hash::Hash;

/// Index type of the library plus what the harness needs of it.
pub trait Ix: Integer + Hash + Send + Sync + 'static {
    const NAME: &'static str;
    /// Largest value as usize (saturated for 64- and 128-bit types).
    fn max_us() -> usize {
        let m = Self::max_value();
        m.to_usize().unwrap_or(usize::MAX).min(isize::MAX as usize)
    }
    fn of(u: usize) -> Self {
        <Self as num_traits::NumCast>::from(u).expect("harness: index out of range of index type")
    }
    fn us(self) -> Option<usize> {
        self.to_usize()
    }
    fn is_signed() -> bool {
        Self::min_value() < Self::zero()
    }
}
macro_rules! ix { ($($t:ident),*) => { $(impl Ix for $t { const NAME: &'static str = stringify!($t); })* } }
ix!(usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128);

/// Codes of special values inside a generated `re`/`im` number (only produced where a
/// property moves values without computing on them).
pub const S_INF: i16 = i16::MAX;
pub const S_NAN: i16 = i16::MAX - 1;
pub const S_TINY: i16 = i16::MAX - 2;
pub const S_NEGZERO: i16 = i16::MAX - 3;
pub const S_HUGE: i16 = i16::MAX - 4;
pub const S_NINF: i16 = i16::MIN;

/// Exponent that stands for the smallest positive number of the type.
pub const SUBNORMAL: i32 = -100;
pub fn f64_of(v: i16, exp: i32) -> f64 {
    match v {
        S_INF => f64::INFINITY,
        S_NINF => f64::NEG_INFINITY,
        S_NAN => f64::NAN,
        S_TINY => f64::from_bits(1),
        S_NEGZERO => -0.0,
        S_HUGE => 2f64.powi(1000),
        v if exp == SUBNORMAL => (v as f64) * f64::from_bits(1),
        v => (v as f64) * 2f64.powi(exp),
    }
}
pub fn f32_of(v: i16, exp: i32) -> f32 {
    match v {
        S_INF => f32::INFINITY,
        S_NINF => f32::NEG_INFINITY,
        S_NAN => f32::NAN,
        S_TINY => f32::from_bits(1),
        S_NEGZERO => -0.0,
        S_HUGE => 2f32.powi(100),
        v if exp == SUBNORMAL => ((v % 10) as f32) * f32::from_bits(1),
        // small magnitudes keep every sum of products exact in 24 bits
        v => ((v % 10) as f32) * 2f32.powi(exp.clamp(-30, 30)),
    }
}
/// Special values of an integer type of `bits` bits: odd numbers that no float of half the width
/// holds exactly, small enough for the sum of two.
fn int_of(v: i16, bits: u32) -> i128 {
    match v {
        S_INF => (1 << (bits - 3)) + 1,
        S_NINF => -(1 << (bits - 3)) - 1,
        S_NAN => (1 << (bits - 5)) + 3,
        S_HUGE => (1 << (bits - 4)) - 1,
        S_TINY => 1,
        S_NEGZERO => 0,
        v => v as i128,
    }
}

/// Scalar type of the library plus what the harness needs of it.
pub trait Ts: Scalar + Debug + Send + Sync + 'static {
    const NAME: &'static str;
    const SIGNED: bool;
    const COMPLEX: bool;
    const FLOAT: bool;
    fn mk(re: i16, im: i16, exp: i32) -> Self;
    fn from_f64(re: f64, im: f64) -> Self;
    /// Canonical bits: equal iff the values are equal (all NaN alike, -0 = 0).
    fn key(self) -> [u128; 2];
    /// Upper bound of the magnitude.
    fn mag(self) -> f64;
    /// Real and imaginary part.
    fn parts(self) -> (f64, f64) {
        (f64::NAN, f64::NAN)
    }
    /// The value, if it is a whole number (real and imaginary part).
    fn whole(self) -> Option<(i128, i128)> {
        let w = |x: f64| (x.fract() == 0.0 && x.abs() < 1.7e38).then_some(x as i128);
        let (re, im) = self.parts();
        Some((w(re)?, w(im)?))
    }
    /// Any value of an integer type, from its bits.
    fn of_bits(_: u128) -> Self {
        unreachable!("harness: not an integer type")
    }
    fn same(self, o: Self) -> bool {
        self.key() == o.key()
    }
}
fn k64(x: f64) -> u128 {
    if x.is_nan() {
        u128::MAX
    } else if x == 0.0 {
        0
    } else {
        x.to_bits() as u128
    }
}
fn k32(x: f32) -> u128 {
    if x.is_nan() {
        u128::MAX
    } else if x == 0.0 {
        0
    } else {
        x.to_bits() as u128
    }
}
impl Ts for f64 {
    fn parts(self) -> (f64, f64) {
        (self, 0.0)
    }
    const NAME: &'static str = "f64";
    const SIGNED: bool = true;
    const COMPLEX: bool = false;
    const FLOAT: bool = true;
    fn mk(re: i16, _: i16, exp: i32) -> Self {
        f64_of(re, exp)
    }
    fn from_f64(re: f64, _: f64) -> Self {
        re
    }
    fn key(self) -> [u128; 2] {
        [k64(self), 0]
    }
    fn mag(self) -> f64 {
        self.abs()
    }
}
impl Ts for f32 {
    fn parts(self) -> (f64, f64) {
        (self as f64, 0.0)
    }
    const NAME: &'static str = "f32";
    const SIGNED: bool = true;
    const COMPLEX: bool = false;
    const FLOAT: bool = true;
    fn mk(re: i16, _: i16, exp: i32) -> Self {
        f32_of(re, exp)
    }
    fn from_f64(re: f64, _: f64) -> Self {
        re as f32
    }
    fn key(self) -> [u128; 2] {
        [k32(self), 0]
    }
    fn mag(self) -> f64 {
        self.abs() as f64
    }
}
impl Ts for Complex<f64> {
    fn parts(self) -> (f64, f64) {
        (self.re, self.im)
    }
    const NAME: &'static str = "Complex64";
    const SIGNED: bool = true;
    const COMPLEX: bool = true;
    const FLOAT: bool = true;
    fn mk(re: i16, im: i16, exp: i32) -> Self {
        Complex::new(f64_of(re, exp), f64_of(im, exp))
    }
    fn from_f64(re: f64, im: f64) -> Self {
        Complex::new(re, im)
    }
    fn key(self) -> [u128; 2] {
        [k64(self.re), k64(self.im)]
    }
    fn mag(self) -> f64 {
        self.re.abs() + self.im.abs()
    }
}
impl Ts for Complex<f32> {
    fn parts(self) -> (f64, f64) {
        (self.re as f64, self.im as f64)
    }
    const NAME: &'static str = "Complex32";
    const SIGNED: bool = true;
    const COMPLEX: bool = true;
    const FLOAT: bool = true;
    fn mk(re: i16, im: i16, exp: i32) -> Self {
        Complex::new(f32_of(re, exp), f32_of(im, exp))
    }
    fn from_f64(re: f64, im: f64) -> Self {
        Complex::new(re as f32, im as f32)
    }
    fn key(self) -> [u128; 2] {
        [k32(self.re), k32(self.im)]
    }
    fn mag(self) -> f64 {
        (self.re.abs() + self.im.abs()) as f64
    }
}
macro_rules! ts_int { ($($t:ident $signed:expr),*) => { $(impl Ts for $t {
    const NAME: &'static str = stringify!($t);
    const SIGNED: bool = $signed;
    const COMPLEX: bool = false;
    const FLOAT: bool = false;
    fn mk(re: i16, _: i16, _: i32) -> Self {
        let v = int_of(re, <$t>::BITS);
        if $signed { v as $t } else { v.unsigned_abs() as $t }
    }
    fn from_f64(re: f64, _: f64) -> Self { re as $t }
    fn of_bits(b: u128) -> Self { b as $t }
    fn parts(self) -> (f64, f64) { (self as f64, 0.0) }
    fn whole(self) -> Option<(i128, i128)> { Some((self as i128, 0)) }
    fn key(self) -> [u128; 2] { [self as u128, 0] }
    fn mag(self) -> f64 { (self as f64).abs() }
})* } }
ts_int!(i64 true, i32 true, i128 true, u64 false);
ts_int!(u8 false, u16 false, u32 false, u128 false, usize false, i8 true, i16 true, isize true);

/// Scalar types of a user's own: the traits are public. Numbers modulo 256 in one byte (sums and
/// products of non-zeros may vanish), and vectors of four with element-wise arithmetic.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
pub struct W8(pub u8);
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd)]
pub struct Q4(pub [i64; 4]);
impl W8 {
    fn zip(self, o: W8, f: impl Fn(i64, i64) -> i64) -> W8 {
        W8(f(self.0 as i64, o.0 as i64) as u8)
    }
    const ONE: W8 = W8(1);
}
impl Q4 {
    fn zip(self, o: Q4, f: impl Fn(i64, i64) -> i64) -> Q4 {
        Q4(std::array::from_fn(|k| f(self.0[k], o.0[k])))
    }
    const ONE: Q4 = Q4([1; 4]);
}
macro_rules! own_scalar {
    ($($t:ident),*) => { $(
        impl std::ops::Add for $t {
            type Output = $t;
            fn add(self, o: $t) -> $t { self.zip(o, i64::wrapping_add) }
        }
        impl std::ops::Sub for $t {
            type Output = $t;
            fn sub(self, o: $t) -> $t { self.zip(o, i64::wrapping_sub) }
        }
        impl std::ops::Mul for $t {
            type Output = $t;
            fn mul(self, o: $t) -> $t { self.zip(o, i64::wrapping_mul) }
        }
        impl std::ops::Div for $t {
            type Output = $t;
            fn div(self, o: $t) -> $t { self.zip(o, |a, b| if b == 0 { 0 } else { a.wrapping_div(b) }) }
        }
        impl std::ops::Neg for $t {
            type Output = $t;
            fn neg(self) -> $t { $t::default() - self }
        }
        impl std::ops::AddAssign for $t { fn add_assign(&mut self, o: $t) { *self = *self + o } }
        impl std::ops::SubAssign for $t { fn sub_assign(&mut self, o: $t) { *self = *self - o } }
        impl std::ops::MulAssign for $t { fn mul_assign(&mut self, o: $t) { *self = *self * o } }
        impl num_traits::Zero for $t {
            fn zero() -> $t { $t::default() }
            fn is_zero(&self) -> bool { *self == $t::default() }
        }
        impl num_traits::One for $t { fn one() -> $t { $t::ONE } }
        impl sparsetools::Nonzero for $t {}
        impl Scalar for $t {}
    )* }
}
own_scalar!(W8, Q4);
impl std::fmt::Display for W8 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Display for Q4 {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}|{}|{}|{}", self.0[0], self.0[1], self.0[2], self.0[3])
    }
}
impl Ts for W8 {
    const NAME: &'static str = "W8";
    const SIGNED: bool = true;
    const COMPLEX: bool = false;
    const FLOAT: bool = false;
    fn mk(re: i16, _: i16, _: i32) -> Self {
        W8(int_of(re, 8) as u8)
    }
    fn from_f64(re: f64, _: f64) -> Self {
        W8(re as i64 as u8)
    }
    fn key(self) -> [u128; 2] {
        [self.0 as u128, 0]
    }
    fn mag(self) -> f64 {
        self.0 as f64
    }
}
impl Ts for Q4 {
    const NAME: &'static str = "Q4";
    const SIGNED: bool = true;
    const COMPLEX: bool = false;
    const FLOAT: bool = false;
    fn mk(re: i16, im: i16, _: i32) -> Self {
        let (a, b) = (int_of(re, 64) as i64, int_of(im, 64) as i64);
        Q4([a, b, a - b, if a == 0 { 0 } else { 1 + b % 3 }])
    }
    fn from_f64(re: f64, im: f64) -> Self {
        Q4([re as i64, im as i64, 0, re as i64])
    }
    fn key(self) -> [u128; 2] {
        let w = |a: i64, b: i64| (a as u64 as u128) << 64 | b as u64 as u128;
        [w(self.0[0], self.0[1]), w(self.0[2], self.0[3])]
    }
    fn mag(self) -> f64 {
        self.0.iter().map(|v| (*v as f64).abs()).fold(0.0, f64::max)
    }
}

/// Instantiates `$f::<I, T>(args)` for the type pair number `$ty`.
#[macro_export]
macro_rules! with_types {
    ($ty:expr, $f:ident, $($a:expr),*) => {{
        type C64 = num_complex::Complex<f64>;
        type C32 = num_complex::Complex<f32>;
        match $ty % $crate::types::N_TYPES {
            0 => $f::<usize, f64>($($a),*),
            1 => $f::<i32, i64>($($a),*),
            2 => $f::<u8, f64>($($a),*),
            3 => $f::<i8, i32>($($a),*),
            4 => $f::<u32, C64>($($a),*),
            5 => $f::<u16, i64>($($a),*),
            6 => $f::<i64, f32>($($a),*),
            7 => $f::<u64, u64>($($a),*),
            8 => $f::<i16, C32>($($a),*),
            9 => $f::<u128, i128>($($a),*),
            10 => $f::<isize, f64>($($a),*),
            11 => $f::<i128, f64>($($a),*),
            12 => $f::<usize, $crate::types::W8>($($a),*),
            _ => $f::<i16, $crate::types::Q4>($($a),*),
        }
    }};
}
/// The integer scalar types, most of them in no other list.
#[macro_export]
macro_rules! with_int_scalars {
    ($ty:expr, $f:ident, $($a:expr),*) => {{
        match $ty % 12 {
            0 => $f::<usize, u8>($($a),*),
            1 => $f::<i32, i8>($($a),*),
            2 => $f::<u16, u16>($($a),*),
            3 => $f::<usize, i16>($($a),*),
            4 => $f::<i64, u32>($($a),*),
            5 => $f::<u32, u64>($($a),*),
            6 => $f::<usize, usize>($($a),*),
            7 => $f::<i32, isize>($($a),*),
            8 => $f::<usize, u128>($($a),*),
            9 => $f::<i16, i32>($($a),*),
            10 => $f::<u8, i64>($($a),*),
            _ => $f::<usize, i128>($($a),*),
        }
    }};
}
/// As `with_types`, only scalars with negation.
#[macro_export]
macro_rules! with_signed_types {
    ($ty:expr, $f:ident, $($a:expr),*) => {{
        type C64 = num_complex::Complex<f64>;
        type C32 = num_complex::Complex<f32>;
        match $ty % $crate::types::N_TYPES {
            0 => $f::<usize, f64>($($a),*),
            1 => $f::<i32, i64>($($a),*),
            2 => $f::<u8, f64>($($a),*),
            3 => $f::<i8, i32>($($a),*),
            4 => $f::<u32, C64>($($a),*),
            5 => $f::<u16, i64>($($a),*),
            6 => $f::<i64, f32>($($a),*),
            7 => $f::<u64, i64>($($a),*),
            8 => $f::<i16, C32>($($a),*),
            9 => $f::<u128, i128>($($a),*),
            10 => $f::<isize, f64>($($a),*),
            11 => $f::<i128, f64>($($a),*),
            12 => $f::<usize, $crate::types::W8>($($a),*),
            _ => $f::<i16, $crate::types::Q4>($($a),*),
        }
    }};
}
/// As `with_types`, only scalars with an order.
#[macro_export]
macro_rules! with_ord_types {
    ($ty:expr, $f:ident, $($a:expr),*) => {{
        match $ty % $crate::types::N_TYPES {
            0 => $f::<usize, f64>($($a),*),
            1 => $f::<i32, i64>($($a),*),
            2 => $f::<u8, f64>($($a),*),
            3 => $f::<i8, i32>($($a),*),
            4 => $f::<u32, f64>($($a),*),
            5 => $f::<u16, i64>($($a),*),
            6 => $f::<i64, f32>($($a),*),
            7 => $f::<u64, i64>($($a),*),
            8 => $f::<i16, f32>($($a),*),
            9 => $f::<u128, i128>($($a),*),
            10 => $f::<isize, f64>($($a),*),
            11 => $f::<i128, f64>($($a),*),
            12 => $f::<usize, $crate::types::W8>($($a),*),
            _ => $f::<i16, $crate::types::Q4>($($a),*),
        }
    }};
}
/// Index types only.
#[macro_export]
macro_rules! with_ix {
    ($ty:expr, $f:ident, $($a:expr),*) => {{
        match $ty % 12 {
            0 => $f::<usize>($($a),*),
            1 => $f::<i32>($($a),*),
            2 => $f::<u8>($($a),*),
            3 => $f::<i8>($($a),*),
            4 => $f::<u32>($($a),*),
            5 => $f::<u16>($($a),*),
            6 => $f::<i64>($($a),*),
            7 => $f::<u64>($($a),*),
            8 => $f::<i16>($($a),*),
            9 => $f::<u128>($($a),*),
            10 => $f::<isize>($($a),*),
            _ => $f::<i128>($($a),*),
        }
    }};
}
pub const N_TYPES: u8 = 14;
pub const TYPE_NAMES: [&str; 14] = [
    "usize/f64", "i32/i64", "u8/f64", "i8/i32", "u32/C64", "u16/i64", "i64/f32", "u64/u64",
    "i16/C32", "u128/i128", "isize/f64", "i128/f64", "usize/W8", "i16/Q4",
];
