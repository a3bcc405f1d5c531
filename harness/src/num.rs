//! Traces over Integer and Rational (properties C01-C04).

use crate::fields::*;
use crate::json::J;
use crate::rec::*;
use crate::rng::Rng;
use algeo::core::num::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn q(r: &Rational) -> Option<String> {
    Some(enc_rat(r.numer.0, r.denom.0))
}

pub fn ord(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

fn hash<H: Hash>(r: &H) -> u64 {
    let mut h = DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}

/// an i64 from one of several magnitude classes
pub fn any_i64(r: &mut Rng, class: usize) -> i64 {
    match class {
        0 => r.range(-3, 3),
        1 => r.range(-30, 30),
        2 => r.range(-(1 << 15), 1 << 15),
        3 => r.range(-(1 << 29), 1 << 29),
        4 => {
            // around a power of two
            let k = r.range(1, 62) as u32;
            let s = if r.chance(1, 2) { -1 } else { 1 };
            s * ((1i64 << k) + r.range(-2, 2).max(-(1i64 << k)))
        }
        5 => {
            // products of small primes: many common factors
            let mut x: i64 = if r.chance(1, 2) { -1 } else { 1 };
            for _ in 0..r.below(12) {
                x = x.saturating_mul(*r.pick(&[2, 2, 3, 3, 5, 7, 11, 13]));
                if x.abs() > 1 << 29 {
                    break;
                }
            }
            x
        }
        6 => r.next() as i64 >> r.below(40),
        8 => {
            // of any length
            let x = (r.next() >> 1 >> r.below(62)) as i64;
            if r.chance(1, 2) { -x } else { x }
        }
        9 => {
            // times a power of two
            let x = r.range(-99, 99);
            x << r.below(56)
        }
        _ => *r.pick(&[i64::MAX, i64::MAX - 1, i64::MIN + 1, 1 << 62, -(1 << 62), 0, 1, -1]),
    }
}

fn small_class(r: &mut Rng) -> usize {
    *r.pick(&[0, 0, 1, 1, 1, 2, 3, 5, 5, 4, 6, 8, 9])
}

const NREG: usize = 6;
const MIXED: usize = 99;

/// A history of operations over registers holding rationals.
struct Rats<'a> {
    rec: &'a mut Rec,
    reg: Vec<Rational>,
}

impl<'a> Rats<'a> {
    fn new(rec: &'a mut Rec) -> Self {
        rec.begin();
        // the registers start as 0/1, as in the specification's Init
        Rats { rec, reg: vec![Rational::ZERO; NREG] }
    }

    fn un(&mut self, name: &str, d: usize, a: usize, f: impl FnOnce(Rational) -> Rational) {
        let x = self.reg[a];
        let mut res = x;
        let head = format!("\"op\":\"r.{}\",\"d\":{},\"a\":{}", name, d, a);
        if self.rec.ev(&head, || {
            res = f(x);
            q(&res)
        }) {
            self.reg[d] = res;
        }
    }

    fn bin(&mut self, name: &str, d: usize, a: usize, b: usize, f: impl FnOnce(Rational, Rational) -> Rational) {
        let (x, y) = (self.reg[a], self.reg[b]);
        let mut res = x;
        let head = format!("\"op\":\"r.{}\",\"d\":{},\"a\":{},\"b\":{}", name, d, a, b);
        if self.rec.ev(&head, || {
            res = f(x, y);
            q(&res)
        }) {
            self.reg[d] = res;
        }
    }

    fn new_frac(&mut self, d: usize, n: i64, m: i64, alt: bool) {
        let mut res = Rational::ZERO;
        let head = format!("\"op\":\"r.new\",\"d\":{},\"n\":{},\"m\":{}", d, enc_i64(n), enc_i64(m));
        if self.rec.ev(&head, || {
            res = if alt {
                Rational::new(Integer(n), Integer(m))
            } else {
                Rational::new_i64(n, m)
            };
            q(&res)
        }) {
            self.reg[d] = res;
        }
    }

    fn from_int(&mut self, d: usize, n: i64, alt: bool) {
        let mut res = Rational::ZERO;
        let head = format!("\"op\":\"r.int\",\"d\":{},\"n\":{}", d, enc_i64(n));
        if self.rec.ev(&head, || {
            res = if alt { Rational::from(Integer(n)) } else { Rational::new_int(Integer(n)) };
            q(&res)
        }) {
            self.reg[d] = res;
        }
    }

    fn fold(&mut self, name: &str, d: usize, xs: &[usize]) {
        let v: Vec<Rational> = xs.iter().map(|&i| self.reg[i]).collect();
        let mut res = Rational::ZERO;
        let head = format!("\"op\":\"r.{}\",\"d\":{},\"xs\":{}", name, d, nums(xs));
        let sum = name == "sum";
        if self.rec.ev(&head, || {
            res = if sum { v.into_iter().sum() } else { v.into_iter().product() };
            q(&res)
        }) {
            self.reg[d] = res;
        }
    }

    fn pow(&mut self, d: usize, a: usize, e: i32, alt: usize) {
        let x = self.reg[a];
        let mut res = x;
        let head = format!("\"op\":\"r.pow\",\"d\":{},\"a\":{},\"e\":{}", d, a, e);
        if self.rec.ev(&head, || {
            res = match alt {
                0 => x.pow(Integer(e as i64)),
                1 => x.powi(e),
                _ => x.powi32(e),
            };
            q(&res)
        }) {
            self.reg[d] = res;
        }
    }

    fn op(&mut self, k: usize, d: usize, a: usize, b: usize, alt: bool) {
        match k {
            0 => self.bin("add", d, a, b, |mut x, y| if alt { x += y; x } else { x + y }),
            1 => self.bin("sub", d, a, b, |mut x, y| if alt { x -= y; x } else { x - y }),
            2 => self.bin("mul", d, a, b, |mut x, y| if alt { x *= y; x } else { x * y }),
            3 => self.bin("div", d, a, b, |mut x, y| if alt { x /= y; x } else { x / y }),
            4 => self.un("neg", d, a, |x| -x),
            _ => self.un("inv", d, a, |x| if alt { x.recip() } else { x.inv() }),
        }
    }

    /// everything that can be asked about a pair of registers
    fn obs(&mut self, a: usize, b: usize) {
        let (x, y) = (self.reg[a], self.reg[b]);
        let head = format!("\"op\":\"r.obs\",\"a\":{},\"b\":{}", a, b);
        self.rec.ev(&head, || {
            Some(format!(
                "{{\"cmp\":{},\"pcmp\":{},\"lt\":{},\"le\":{},\"gt\":{},\"ge\":{},\"max\":{},\"min\":{}}}",
                ord(x.cmp(&y)),
                ord(x.partial_cmp(&y).unwrap()),
                (x < y) as u8,
                (x <= y) as u8,
                (x > y) as u8,
                (x >= y) as u8,
                q(&x.max(y))?,
                q(&x.min(y))?,
            ))
        });
        self.eq(a, b);
        self.stab(a, b);
    }

    /// what equality rests on
    fn eq(&mut self, a: usize, b: usize) {
        let (x, y) = (self.reg[a], self.reg[b]);
        let head = format!("\"op\":\"r.eq\",\"a\":{},\"b\":{}", a, b);
        self.rec.ev(&head, || {
            Some(format!(
                "{{\"eq\":{},\"ne\":{},\"eps\":{},\"hash\":{},\"zero\":{},\"one\":{},\"sgn\":{}}}",
                (x == y) as u8,
                (x != y) as u8,
                x.epsilon_equals(&y) as u8,
                (hash(&x) == hash(&y)) as u8,
                x.is_zero() as u8,
                x.is_one() as u8,
                x.sgn().0,
            ))
        });
    }

    fn stab(&mut self, a: usize, b: usize) {
        let (x, y) = (self.reg[a], self.reg[b]);
        let c = (a + 3 * b + 1) % NREG;
        let z = self.reg[c];
        let head = format!("\"op\":\"r.stab\",\"a\":{},\"b\":{},\"c\":{}", a, b, c);
        self.rec.ev(&head, || {
            let s = |x: Rational, y: Rational| x.stability_cmp(&y).map_or(9, ord);
            Some(format!(
                "{{\"xy\":{},\"yx\":{},\"yz\":{},\"zy\":{},\"xz\":{},\"zx\":{}}}",
                s(x, y),
                s(y, x),
                s(y, z),
                s(z, y),
                s(x, z),
                s(z, x),
            ))
        });
    }
}

fn grid() -> Vec<(i64, i64)> {
    let mut v = vec![];
    for m in 1..=6i64 {
        for n in -6..=6i64 {
            if Integer::gcd(Integer(n), Integer(m)).0 == 1 {
                v.push((n, m));
            }
        }
    }
    v
}

fn float_stability(rec: &mut Rec, r: &mut Rng) {
    rec.begin();
    let mut v: Vec<f32> = vec![0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 1e-20, -1e-20, 1e20, -1e20, 3.0, f32::EPSILON];
    v.extend([f32::MAX, -f32::MAX, f32::MIN_POSITIVE, -f32::MIN_POSITIVE / 2.0, 1e-40, 1e-30, -2e-30, 3e30, -4e30]);
    for _ in 0..12 {
        let x = r.range(-1000000, 1000000) as f32 / (1 << r.below(20)) as f32;
        v.push(x);
        if r.chance(1, 3) {
            // one unit in the last place further
            v.push(f32::from_bits(x.to_bits() + 1));
        }
    }
    let mut w: Vec<f64> = v.iter().map(|&x| x as f64).collect();
    w.extend([1e200, -1e200, 2e200, 1e-200, -2e-200, f64::MAX / 4.0, 1e-300, 1.0 + f64::EPSILON, 1e16 + 2.0, 1e16]);
    for &x in &v {
        for &y in &v {
            let args = format!("\"x\":{},\"y\":{}", enc_f64(x as f64).unwrap(), enc_f64(y as f64).unwrap());
            rec.ev(&format!("\"op\":\"r.fstab\",\"T\":\"f32\",{}", args), || {
                Some(x.stability_cmp(&y).map_or(9, ord).to_string())
            });
        }
    }
    for &x in &w {
        for &y in &w {
            let args = format!("\"x\":{},\"y\":{}", enc_f64(x).unwrap(), enc_f64(y).unwrap());
            rec.ev(&format!("\"op\":\"r.fstab\",\"T\":\"f64\",{}", args), || {
                Some(x.stability_cmp(&y).map_or(9, ord).to_string())
            });
        }
    }
}

/// C01, C02: histories of constructions and arithmetic
pub fn rationals(rec: &mut Rec, r: &mut Rng, observe: bool) {
    // every fraction n/m with small n, m, including zero denominators and both signs
    {
        let mut s = Rats::new(rec);
        for n in -8..=8 {
            for m in -8..=8 {
                s.new_frac(0, n, m, (n + m) % 2 == 0);
            }
            s.from_int(1, n, n % 2 == 0);
        }
        for &(n, m) in &grid() {
            s.new_frac(0, n, m, false);
            s.un("neg", 1, 0, |x| -x);
            s.op(5, 1, 0, 0, false);
            s.op(5, 1, 0, 0, true);
            for e in -4..=4 {
                s.pow(1, 0, e, (e + 4) as usize % 3);
            }
        }
    }
    if observe {
        float_stability(rec, r);
    }
    // every operation on every pair of a grid
    let g = grid();
    for (i, &(n, m)) in g.iter().enumerate() {
        let mut s = Rats::new(rec);
        s.new_frac(0, n, m, false);
        for (j, &(n2, m2)) in g.iter().enumerate() {
            s.new_frac(1, n2, m2, true);
            for k in 0..4 {
                s.op(k, 2 + k, 0, 1, (i + j) % 2 == 0);
            }
            if observe {
                s.obs(0, 1);
            } else if (i + j) % 3 == 0 {
                s.eq(2, 4);
                s.eq(0, 1);
                // results of results
                s.op(0, 2, 2, 4, false);
                s.op(1, 3, 2, 4, true);
                s.fold("sum", 4, &[0, 1, 2, 3]);
                s.fold("product", 5, &[0, 1, 2, 3]);
            }
        }
        if s.rec.full() {
            return;
        }
    }
    // random histories over growing magnitudes
    let mut hist = 0;
    while !rec.full() {
        hist += 1;
        let mut s = Rats::new(rec);
        let class = if hist % 3 == 0 { MIXED } else { small_class(r) };
        for _ in 0..60 {
            let cl = if class == MIXED { r.below(10) } else { class };
            let (d, a, b) = (r.below(NREG), r.below(NREG), r.below(NREG));
            match r.below(16) {
                0 | 1 | 2 => {
                    let n = any_i64(r, cl);
                    let cl2 = if r.chance(1, 2) { cl } else { r.below(6) };
                    let m = any_i64(r, cl2);
                    s.new_frac(d, n, m, r.chance(1, 2))
                }
                3 => {
                    let n = any_i64(r, cl);
                    s.from_int(d, n, r.chance(1, 2))
                }
                4 => {
                    let e = r.range(-6, 6) as i32;
                    s.pow(d, a, e, r.below(3));
                    if r.chance(1, 3) {
                        // long powers of small numbers
                        let (n, m) = *r.pick(&[(0, 1), (1, 1), (-1, 1), (2, 1), (-2, 1), (1, 2), (-3, 2), (2, 5), (-10, 1), (1, -7)]);
                        s.new_frac(a, n, m, true);
                        let top = if r.chance(1, 2) { 70 } else { 20 };
                        let e = r.range(-top, top) as i32;
                        s.pow(d, a, e, r.below(3));
                        s.un("neg", 0, d, |x| -x);
                        // exponents of any size
                        let x = r.range(-1, 1);
                        s.new_frac(a, x, 1, true);
                        let e = (r.next() as i32 >> r.below(24)).max(-i32::MAX);
                        s.pow(d, a, if x == 0 { e.abs() } else { e }, r.below(3));
                    }
                }
                5 if r.chance(1, 3) => {
                    // two numbers that are next to each other
                    let top = 1i64 << r.range(3, 31);
                    let (n, m) = (r.range(-top, top), r.range(1, top));
                    let (n2, m2) = match r.below(5) {
                        0 => (n + 1, m),
                        1 => (n, m + 1),
                        2 => (n + 1, m + 1),
                        3 => (n - 1, m + 2),
                        _ => {
                            // n m2 - n2 m = +-1 or the greatest common divisor of n and m
                            let (mut a, mut c, mut p, mut q, mut u, mut v) = (n.abs(), m, 0i64, 1i64, 1i64, 0i64);
                            while c != 0 {
                                let k = a / c;
                                let t = a - k * c;
                                a = c;
                                c = t;
                                let (x, y) = (p + k * u, q + k * v);
                                p = u;
                                q = v;
                                u = x;
                                v = y;
                            }
                            (if n < 0 { -p } else { p }, if q == 0 { 1 } else { q })
                        }
                    };
                    s.new_frac(a, n, m, true);
                    s.new_frac(b, n2, m2, true);
                    if observe {
                        s.obs(a, b);
                        s.obs(b, a);
                    } else {
                        s.eq(a, b);
                        s.op(r.below(4), d, a, b, true);
                    }
                }
                5 => {
                    let n = r.below(6);
                    let xs: Vec<usize> = (0..n).map(|_| r.below(NREG)).collect();
                    let name = if r.chance(1, 2) { "sum" } else { "product" };
                    s.fold(name, d, &xs);
                    if r.chance(1, 4) {
                        // long sums and products
                        for i in 0..3 {
                            s.new_frac(i, r.range(-9, 9), r.range(1, 6), true);
                        }
                        let n = if r.chance(1, 8) { r.range(41, 300) } else { r.range(6, 40) };
                        let xs: Vec<usize> = (0..n).map(|_| r.below(3)).collect();
                        s.fold("sum", d, &xs);
                        s.new_frac(0, r.range(-1, 1), 1, true);
                        s.new_frac(1, *r.pick(&[2, -2, 1, -1]), 1, true);
                        s.new_frac(2, 1, *r.pick(&[2, -2, 1, -1]), true);
                        s.fold("product", d, &xs);
                    }
                }
                6 => s.op(4, d, a, b, false),
                7 => {
                    let alt = r.chance(1, 2);
                    s.op(5, d, a, b, alt)
                }
                8 if !observe => {
                    // sums sharing a denominator, and cancelling ones
                    let m = any_i64(r, 1).abs() + 1;
                    let (x, y) = (any_i64(r, 1), any_i64(r, 1));
                    s.new_frac(0, x, m, false);
                    s.new_frac(1, y, m, false);
                    s.op(r.below(2), d, 0, 1, r.chance(1, 2));
                    s.new_frac(0, x, 2 * m, false);
                    s.op(r.below(2), d, 0, 1, r.chance(1, 2));
                }
                k => {
                    let alt = r.chance(1, 2);
                    s.op(k % 4, d, a, b, alt)
                }
            }
            if !observe {
                let (x, y) = if r.chance(1, 2) { (d, a) } else { (r.below(NREG), r.below(NREG)) };
                s.eq(x, y);
            }
            if observe {
                if r.chance(1, 4) {
                    // nearly equal values
                    let n = any_i64(r, 3) | 1;
                    let m = any_i64(r, 3).abs() + 2;
                    s.new_frac(0, n, m, false);
                    s.new_frac(1, n + 1, m, false);
                    let (n2, m2) = (n.wrapping_mul(3) / 3 + 1, m + 1);
                    s.new_frac(2, n2, m2, false);
                    s.obs(0, 1);
                    s.obs(1, 2);
                    s.obs(0, 2);
                }
                s.obs(r.below(NREG), r.below(NREG));
                s.obs(d, d);
            }
        }
    }
}

fn z(i: Integer) -> Option<String> {
    Some(enc_i64(i.0))
}

fn int_event(rec: &mut Rec, name: &str, x: i64, y: i64) {
    let (a, c) = (Integer(x), Integer(y));
    let args = format!("\"a\":{},\"b\":{}", enc_i64(x), enc_i64(y));
    let head = format!("\"op\":\"i.{}\",{}", name, args);
    rec.ev(&head, || match name {
        "gcd" => z(Integer::gcd(a, c)),
        "lcm" => z(Integer::lcm(a, c)),
        "add" => z(a + c),
        "sub" => z(a - c),
        "mul" => z(a * c),
        "div" => z(a / c),
        "rem" => z(a % c),
        "neg" => z(-a),
        "abs" => z(a.abs()),
        "sgn" => z(a.sgn()),
        "from" => z(Integer::from(x)),
        "obs" => Some(format!(
            "{{\"pos\":{},\"neg\":{},\"zero\":{},\"one\":{},\"cmp\":{},\"eq\":{},\"lt\":{},\"le\":{},\"gt\":{},\"ge\":{},\"ne\":{},\"pcmp\":{},\"max\":{},\"min\":{},\"hash\":{}}}",
            b(a.is_pos()),
            b(a.is_neg()),
            b(a.is_zero()),
            b(a.is_one()),
            ord(a.cmp(&c)),
            b(a == c),
            b(a < c),
            b(a <= c),
            b(a > c),
            b(a >= c),
            b(a != c),
            a.partial_cmp(&c).map_or(9, ord),
            z(a.max(c))?,
            z(a.min(c))?,
            b(hash(&a) == hash(&c)),
        )),
        _ => unreachable!("{}", name),
    });
}

fn int_events(rec: &mut Rec, x: i64, y: i64, all: bool) {
    for name in ["gcd", "lcm"] {
        int_event(rec, name, x, y);
    }
    if all {
        for name in ["add", "sub", "mul", "div", "rem", "neg", "abs", "sgn", "from", "obs"] {
            int_event(rec, name, x, y);
        }
    }
}

/// C04
pub fn integers(rec: &mut Rec, r: &mut Rng) {
    for x in -24..=24 {
        rec.begin();
        for y in -24..=24 {
            int_events(rec, x, y, (x + y) % 5 == 0);
        }
        for e in 0..=20 {
            rec.ev(&format!("\"op\":\"i.pow\",\"a\":{},\"e\":{}", enc_i64(x), e), || {
                z(Integer(x).pow(Integer(e)))
            });
        }
    }
    while !rec.full() {
        rec.begin();
        for _ in 0..30 {
            let (x, y) = match r.below(6) {
                5 => {
                    // a large common factor of one kind
                    let p = *r.pick(&[2i64, 2, 2, 3, 5, 7, 10]);
                    let mut g = 1i64;
                    for _ in 0..r.below(60) {
                        if g > 1 << 52 {
                            break;
                        }
                        g *= p;
                    }
                    let (s, t) = (r.range(-200, 200), r.range(-200, 200));
                    (g * s, g * t)
                }
                0 => {
                    // consecutive Fibonacci numbers: the longest runs of Euclid's algorithm
                    let (mut a, mut b) = (0i64, 1i64);
                    for _ in 0..r.below(90) {
                        let c = a + b;
                        a = b;
                        b = c;
                    }
                    if r.chance(1, 2) { (a, b) } else { (b, -a) }
                }
                1 => {
                    let g = any_i64(r, 5);
                    let s = any_i64(r, 1);
                    let t = any_i64(r, 2);
                    (g.saturating_mul(s), g.saturating_mul(t))
                }
                2 => {
                    let x = any_i64(r, 3);
                    (x, x.saturating_mul(any_i64(r, 1)))
                }
                _ => {
                    let (c, c2) = (r.below(10), r.below(10));
                    (any_i64(r, c), any_i64(r, c2))
                }
            };
            let all = r.chance(1, 3);
            int_events(rec, x, y, all);
            let e = r.range(0, 70);
            let cl = r.below(3);
            let a = any_i64(r, cl);
            rec.ev(&format!("\"op\":\"i.pow\",\"a\":{},\"e\":{}", enc_i64(a), e), || {
                z(Integer(a).pow(Integer(e)))
            });
            if r.chance(1, 4) {
                let (a, e) = (r.range(-1, 1), (r.next() as i32 >> r.below(24)).max(-i32::MAX).abs() as i64);
                rec.ev(&format!("\"op\":\"i.pow\",\"a\":{},\"e\":{}", enc_i64(a), e), || {
                    z(Integer(a).pow(Integer(e)))
                });
            }
        }
    }
}

// -------------------------------------------------------------------- C23

macro_rules! units {
    ($rec:expr, $x:expr, $($t:ty)*) => {
        $(
            if let Ok(x) = <$t>::try_from($x) {
                let h = format!("\"op\":\"f.num\",\"T\":\"{}\",\"x\":{}", stringify!($t), enc_int($x));
                $rec.ev(&h, || {
                    Some(format!(
                        "{{\"zero\":{},\"one\":{},\"Z\":{},\"O\":{}}}",
                        b(x.is_zero()),
                        b(x.is_one()),
                        enc_int(<$t as Zero>::ZERO as i128),
                        enc_int(<$t as One>::ONE as i128)
                    ))
                });
            }
        )*
    };
}

fn enc_int(x: i128) -> String {
    enc_mag(x < 0, x.unsigned_abs())
}

/// zero and one of the machine integers
fn prim_units(rec: &mut Rec, x: i128) {
    units!(rec, x, usize u8 u16 u32 u64 u128 isize i8 i16 i32 i64 i128);
    if let Ok(k) = i64::try_from(x) {
        let x = Integer(k);
        let h = format!("\"op\":\"f.num\",\"T\":\"Integer\",\"x\":{}", enc_i64(k));
        rec.ev(&h, || {
            Some(format!(
                "{{\"zero\":{},\"one\":{},\"Z\":{},\"O\":{}}}",
                b(x.is_zero()),
                b(x.is_one()),
                enc_i64(<Integer as Zero>::ZERO.0),
                enc_i64(<Integer as One>::ONE.0)
            ))
        });
    }
}

fn field_units<F: Fe>(rec: &mut Rec, x: F) {
    let h = format!("\"op\":\"f.unit\",\"T\":\"{}\",\"x\":{}", F::NAME, x.enc().unwrap());
    rec.ev(&h, || Some(format!("{{\"zero\":{},\"one\":{},\"Z\":{},\"O\":{}}}", b(x.is_zero()), b(x.is_one()), F::ZERO.enc()?, F::ONE.enc()?)));
}

fn field_pow<F: Fe>(rec: &mut Rec, x: F, e: i32) {
    let h = format!("\"op\":\"f.pow\",\"T\":\"{}\",\"x\":{},\"e\":{}", F::NAME, x.enc().unwrap(), e);
    rec.ev(&h, || x.powi32(e).enc());
}

fn field_inv<F: Fe>(rec: &mut Rec, x: F) {
    let h = format!("\"op\":\"f.inv\",\"T\":\"{}\",\"x\":{}", F::NAME, x.enc().unwrap());
    rec.ev(&h, || x.inv().enc());
}

fn field_eps<F: Fe>(rec: &mut Rec, x: F, y: F) {
    let h = format!("\"op\":\"f.eps\",\"T\":\"{}\",\"x\":{},\"y\":{}", F::NAME, x.enc().unwrap(), y.enc().unwrap());
    rec.ev(&h, || Some(b(x.epsilon_equals(&y)).to_string()));
}

fn field_call<F: Fe>(rec: &mut Rec, e: &J) {
    let x = || F::dec(e.get("x"));
    match e.op() {
        "f.unit" => field_units(rec, x()),
        "f.pow" => field_pow(rec, x(), e.get("e").int() as i32),
        "f.inv" => field_inv(rec, x()),
        "f.eps" => field_eps(rec, x(), F::dec(e.get("y"))),
        op => panic!("unknown call {}", op),
    }
}

pub fn field_replay(rec: &mut Rec, calls: &[J]) {
    rec.begin();
    for e in calls {
        match (e.op(), e.get("T").str()) {
            ("f.num", _) => prim_units(rec, e.get("x").big()),
            (_, "Rational") => field_call::<Rational>(rec, e),
            (_, "f64") => field_call::<f64>(rec, e),
            (_, _) => field_call::<f32>(rec, e),
        }
    }
}

fn field_history<F: Fe>(rec: &mut Rec, r: &mut Rng, nudge: impl Fn(F, i64) -> F) {
    rec.begin();
    for _ in 0..12 {
        let x = match r.below(6) {
            0 => F::ZERO,
            1 => F::ONE,
            2 => F::ZERO - F::ONE,
            3 => F::wide(r),
            _ => F::small(r),
        };
        field_units(rec, x);
        field_units(rec, x - x);
        let d = r.range(-3, 3);
        field_units(rec, nudge(F::ONE, d));
        if !x.is_zero() {
            field_inv(rec, x);
        }
        let e = if r.chance(1, 6) { r.range(-60, 60) } else { r.range(-6, 6) };
        if !x.is_zero() || e >= 0 || F::NAME == "Rational" {
            field_pow(rec, x, e as i32);
        }
        field_pow(rec, F::ZERO - F::ONE, e as i32 * 3 + 1);
        // exponents beyond any table or narrower type
        let e = match r.below(4) {
            0 => *r.pick(&[i32::MAX, 1 << 30, 1 << 16, 1 << 15, 255, 256, 127, 128, 1000]) - r.below(3) as i32,
            1 => -*r.pick(&[i32::MAX, 1 << 30, 1 << 16, 1 << 15, 255, 256, 127, 128, 1000]) + r.below(3) as i32,
            2 => (r.next() as i32).max(-i32::MAX),
            _ => r.range(-300, 300) as i32,
        };
        let one = F::int(r.range(-1, 1));
        if !one.is_zero() || e >= 0 {
            field_pow(rec, one, e);
        }
        // zero of either sign
        field_units(rec, -(x - x));
        let y = if r.chance(1, 2) { x } else { F::small(r) };
        let d = r.range(-9, 9);
        field_eps(rec, x, nudge(y, d));
        field_eps(rec, nudge(y, d), x);
        field_eps(rec, nudge(F::ONE, d), F::ONE);
        field_eps(rec, nudge(F::ZERO, d), F::ZERO);
    }
}

pub fn fields(rec: &mut Rec, r: &mut Rng) {
    rec.begin();
    for x in -300..300 {
        prim_units(rec, x);
    }
    for k in 0..127 {
        for d in -1..=1 {
            prim_units(rec, (1i128 << k) + d);
            prim_units(rec, -(1i128 << k) + d);
        }
    }
    prim_units(rec, i128::MIN);
    prim_units(rec, i128::MAX);
    while !rec.full() {
        field_history::<Rational>(rec, r, |x, d| x + Rational::new_i64(d, 1 << 20));
        // steps of half the bound of approximate equality, which are exact near 1 and below
        field_history::<f64>(rec, r, |x, d| x + d as f64 * (f64::EPSILON / 2.0));
        field_history::<f32>(rec, r, |x, d| x + d as f32 * (f32::EPSILON / 2.0));
        rec.begin();
        for _ in 0..4 {
            // numerators and denominators that agree in their low bits
            let k = *r.pick(&[8, 16, 24, 31, 32, 33, 48]);
            let (cl, m) = (r.below(4), r.range(1, 9));
            let n = (any_i64(r, cl) % 64) << k;
            field_units(rec, Rational::new_i64(n, 1));
            field_units(rec, Rational::new_i64(n + m, m));
            field_units(rec, Rational::new_i64(m, (n.abs() + m).max(1)));
            field_units(rec, Rational::new_i64(n + 1, 1));
        }
        for _ in 0..4 {
            prim_units(rec, ((r.next() as i128) << 64 | r.next() as i128) >> r.below(128));
        }
    }
}

/// a script over rational registers, or of calls on integers
pub fn replay(rec: &mut Rec, calls: &[J]) {
    if calls[0].op().starts_with("i.") {
        rec.begin();
        for e in calls {
            if e.op() == "i.pow" {
                let (x, k) = (e.get("a").i64(), e.get("e").int());
                rec.ev(&format!("\"op\":\"i.pow\",\"a\":{},\"e\":{}", enc_i64(x), k), || z(Integer(x).pow(Integer(k))));
            } else {
                int_event(rec, e.op().strip_prefix("i.").unwrap(), e.get("a").i64(), e.get("b").i64());
            }
        }
        return;
    }
    let mut s = Rats::new(rec);
    for e in calls {
        let alt = e.u0("fm");
        match e.op() {
            "r.new" => s.new_frac(e.u("d"), e.get("n").i64(), e.get("m").i64(), alt == 1),
            "r.int" => s.from_int(e.u("d"), e.get("n").i64(), alt == 1),
            "r.add" => s.op(0, e.u("d"), e.u("a"), e.u("b"), alt == 1),
            "r.sub" => s.op(1, e.u("d"), e.u("a"), e.u("b"), alt == 1),
            "r.mul" => s.op(2, e.u("d"), e.u("a"), e.u("b"), alt == 1),
            "r.div" => s.op(3, e.u("d"), e.u("a"), e.u("b"), alt == 1),
            "r.neg" => s.op(4, e.u("d"), e.u("a"), 0, alt == 1),
            "r.inv" => s.op(5, e.u("d"), e.u("a"), 0, alt == 1),
            "r.pow" => s.pow(e.u("d"), e.u("a"), e.get("e").int() as i32, alt),
            "r.sum" => s.fold("sum", e.u("d"), &e.us("xs")),
            "r.product" => s.fold("product", e.u("d"), &e.us("xs")),
            "r.obs" => s.obs(e.u("a"), e.u("b")),
            op => panic!("unknown call {}", op),
        }
    }
}
