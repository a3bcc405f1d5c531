//! The fields the generic code of algeo is run over, and how their elements are written in traces.
//!
//! * `Gf<P>`: integers modulo a prime, defined here on top of the public `Field` trait; exact and
//!   free of overflow.  Trace field code `P`, elements are integers.
//! * `Rational`: trace field code 0, elements are `[numer, denom]`.
//! * `f64`/`f32`: trace field code 0, every finite value is written as the exact dyadic rational it is.

use algeo::core::num::{EpsilonEquality, Field, Integer, One, Rational, StabilityCmp, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

use crate::json::J;
use crate::rng::Rng;

/// JSON of an unbounded integer: `[sign, limb, ...]`, base 10000, least significant limb first.
pub fn enc_mag(neg: bool, mut m: u128) -> String {
    if m == 0 {
        return "[0]".into();
    }
    let mut s = String::from(if neg { "[-1" } else { "[1" });
    while m != 0 {
        s.push(',');
        s.push_str(&(m % 10000).to_string());
        m /= 10000;
    }
    s.push(']');
    s
}

pub fn enc_i64(x: i64) -> String {
    enc_mag(x < 0, x.unsigned_abs() as u128)
}

pub fn enc_rat(n: i64, d: i64) -> String {
    format!("[{},{}]", enc_i64(n), enc_i64(d))
}

/// the same of `m * 2^k`
fn enc_shifted(neg: bool, m: u64, k: u32) -> String {
    let mut limbs: Vec<u64> = Vec::new();
    let mut rest = m;
    while rest != 0 {
        limbs.push(rest % 10000);
        rest /= 10000;
    }
    let mut k = k;
    while k > 0 {
        let step = k.min(32);
        let mut carry = 0;
        for d in limbs.iter_mut() {
            let v = (*d << step) + carry;
            *d = v % 10000;
            carry = v / 10000;
        }
        while carry != 0 {
            limbs.push(carry % 10000);
            carry /= 10000;
        }
        k -= step;
    }
    let digits: Vec<String> = limbs.iter().map(|d| d.to_string()).collect();
    format!("[{},{}]", if neg { -1 } else { 1 }, digits.join(","))
}

/// exact value of a finite double as a canonical rational; `None` if it is not finite
pub fn enc_f64(x: f64) -> Option<String> {
    if !x.is_finite() {
        return None;
    }
    if x == 0.0 {
        return Some("[[0],[1,1]]".into());
    }
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let frac = bits & ((1u64 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (frac, -1074) } else { (frac | (1 << 52), e - 1075) };
    let tz = m.trailing_zeros();
    m >>= tz;
    e += tz as i32;
    let neg = x < 0.0;
    if e >= 0 {
        Some(format!("[{},[1,1]]", enc_shifted(neg, m, e as u32)))
    } else {
        Some(format!("[{},{}]", enc_mag(neg, m as u128), enc_shifted(false, 1, -e as u32)))
    }
}

pub trait Fe: Field + StabilityCmp + EpsilonEquality + 'static {
    /// field code in traces
    const CODE: u32;
    /// name of the Rust type
    const NAME: &'static str;
    fn enc(&self) -> Option<String>;
    /// what `enc` wrote
    fn dec(j: &J) -> Self;
    /// a small value, exactly representable; zero with probability about 1/5
    fn small(r: &mut Rng) -> Self;
    /// a wider value
    fn wide(r: &mut Rng) -> Self;
    fn int(i: i64) -> Self;
    /// small enough that a few operations are exact and do not overflow
    fn tame(&self) -> bool {
        true
    }
    fn nonzero(r: &mut Rng) -> Self {
        loop {
            let x = Self::small(r);
            if !x.is_zero() {
                return x;
            }
        }
    }
    fn wide_nonzero(r: &mut Rng) -> Self {
        loop {
            let x = Self::wide(r);
            if !x.is_zero() {
                return x;
            }
        }
    }
    /// a unit division by which is exact
    fn unit(r: &mut Rng) -> Self {
        Self::nonzero(r)
    }
}

impl Fe for Rational {
    const CODE: u32 = 0;
    const NAME: &'static str = "Rational";
    fn enc(&self) -> Option<String> {
        Some(enc_rat(self.numer.0, self.denom.0))
    }
    fn dec(j: &J) -> Self {
        Rational::new_i64(j.arr()[0].i64(), j.arr()[1].i64())
    }
    fn small(r: &mut Rng) -> Self {
        if r.chance(1, 5) {
            return Rational::ZERO;
        }
        Rational::new_i64(r.range(-4, 4), if r.chance(1, 2) { 1 } else { r.range(1, 4) })
    }
    fn wide(r: &mut Rng) -> Self {
        Rational::new_i64(r.range(-5000, 5000), r.range(1, 200))
    }
    fn int(i: i64) -> Self {
        Rational::new_i64(i, 1)
    }
    fn tame(&self) -> bool {
        self.numer.0.unsigned_abs() < 1 << 14 && self.denom.0.unsigned_abs() < 1 << 6
    }
}

impl Fe for f64 {
    const CODE: u32 = 0;
    const NAME: &'static str = "f64";
    fn enc(&self) -> Option<String> {
        enc_f64(*self)
    }
    fn dec(j: &J) -> Self {
        j.arr()[0].big() as f64 / j.arr()[1].big() as f64
    }
    fn small(r: &mut Rng) -> Self {
        if r.chance(1, 5) {
            return if r.chance(1, 2) { 0.0 } else { -0.0 };
        }
        r.range(-12, 12) as f64 / if r.chance(1, 2) { 1.0 } else { 4.0 }
    }
    fn wide(r: &mut Rng) -> Self {
        r.range(-4000, 4000) as f64 / 8.0
    }
    fn int(i: i64) -> Self {
        i as f64
    }
    fn tame(&self) -> bool {
        self.abs() < 256.0 && (self * 32.0).fract() == 0.0
    }
    fn unit(r: &mut Rng) -> Self {
        [1.0, -1.0, 2.0, -2.0, 0.5, -4.0][r.below(6)]
    }
}

impl Fe for f32 {
    const CODE: u32 = 0;
    const NAME: &'static str = "f32";
    fn enc(&self) -> Option<String> {
        enc_f64(*self as f64)
    }
    fn dec(j: &J) -> Self {
        (j.arr()[0].big() as f64 / j.arr()[1].big() as f64) as f32
    }
    fn small(r: &mut Rng) -> Self {
        if r.chance(1, 5) {
            return if r.chance(1, 2) { 0.0 } else { -0.0 };
        }
        r.range(-6, 6) as f32 / if r.chance(1, 2) { 1.0 } else { 2.0 }
    }
    fn wide(r: &mut Rng) -> Self {
        r.range(-100, 100) as f32 / 4.0
    }
    fn int(i: i64) -> Self {
        i as f32
    }
    fn tame(&self) -> bool {
        self.abs() < 64.0 && (self * 4.0).fract() == 0.0
    }
    fn unit(r: &mut Rng) -> Self {
        [1.0, -1.0, 2.0, -2.0, 0.5, -4.0][r.below(6)]
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Gf<const P: u32>(pub u32);

impl<const P: u32> Gf<P> {
    pub fn new(i: i64) -> Self {
        Gf(i.rem_euclid(P as i64) as u32)
    }
    fn pow(self, mut k: u32) -> Self {
        let mut b = self;
        let mut r = Gf(1 % P);
        while k > 0 {
            if k & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            k >>= 1;
        }
        r
    }
    fn recip(self) -> Self {
        assert!(self.0 != 0, "divide by zero in GF({})", P);
        self.pow(P - 2)
    }
}

impl<const P: u32> fmt::Debug for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u32> fmt::Display for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u32> Add for Gf<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Gf((self.0 + o.0) % P)
    }
}
impl<const P: u32> Sub for Gf<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Gf((self.0 + P - o.0) % P)
    }
}
impl<const P: u32> Mul for Gf<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Gf((self.0 as u64 * o.0 as u64 % P as u64) as u32)
    }
}
impl<const P: u32> Div for Gf<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.recip()
    }
}
impl<const P: u32> Neg for Gf<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Gf((P - self.0) % P)
    }
}
impl<const P: u32> AddAssign for Gf<P> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<const P: u32> SubAssign for Gf<P> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<const P: u32> MulAssign for Gf<P> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<const P: u32> DivAssign for Gf<P> {
    fn div_assign(&mut self, o: Self) {
        *self = *self / o
    }
}
impl<const P: u32> Sum for Gf<P> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Gf(0), |a, b| a + b)
    }
}
impl<const P: u32> Product for Gf<P> {
    fn product<I: Iterator<Item = Self>>(it: I) -> Self {
        it.fold(Gf(1), |a, b| a * b)
    }
}
impl<const P: u32> Zero for Gf<P> {
    const ZERO: Self = Gf(0);
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u32> One for Gf<P> {
    const ONE: Self = Gf(1);
    fn is_one(&self) -> bool {
        self.0 == 1
    }
}
impl<const P: u32> Field for Gf<P> {
    fn powi32(&self, p: i32) -> Self {
        if p >= 0 {
            self.pow(p as u32)
        } else {
            self.recip().pow(p.unsigned_abs())
        }
    }
}
impl<const P: u32> EpsilonEquality for Gf<P> {
    fn epsilon_equals(&self, o: &Self) -> bool {
        self == o
    }
}
impl<const P: u32> StabilityCmp for Gf<P> {
    fn stability_cmp(&self, o: &Self) -> Option<Ordering> {
        self.0.partial_cmp(&o.0)
    }
}
impl<const P: u32> Fe for Gf<P> {
    const CODE: u32 = P;
    const NAME: &'static str = "Gf";
    fn enc(&self) -> Option<String> {
        Some(self.0.to_string())
    }
    fn dec(j: &J) -> Self {
        Gf::new(j.int())
    }
    fn small(r: &mut Rng) -> Self {
        if r.chance(1, 5) {
            return Gf(0);
        }
        Gf::new(r.range(-4, 4))
    }
    fn wide(r: &mut Rng) -> Self {
        Gf(r.below(P as usize) as u32)
    }
    fn int(i: i64) -> Self {
        Gf::new(i)
    }
}

pub fn int(i: i64) -> Integer {
    Integer(i)
}
