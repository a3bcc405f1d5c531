//! Traces of the enumeration helpers, of rendered text and of cones (C20-C22).

use crate::fields::*;
use crate::json::J;
use crate::mat::{dec_mat, enc_mat, rand_mat};
use crate::mono::enc_m;
use crate::poly::{enc_p, enc_t, mono, rand_poly};
use crate::rec::*;
use crate::replay::of_type;
use crate::rng::Rng;
use algeo::core::num::{Integer, Rational};
use algeo::linalg::cone::Cone;
use algeo::linalg::mat::Mat;
use algeo::linalg::util::*;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use std::cmp::Ordering;

// -------------------------------------------------------------------- C20

fn take<T>(it: impl Iterator<Item = T>, most: usize) -> Vec<T> {
    it.take(most + 2).collect()
}

fn mats<F: Fe>(rec: &mut Rec, m: usize, n: usize, values: &[F]) {
    let total = values.len().pow((m * n) as u32);
    let h = format!(
        "\"op\":\"u.mats\",\"F\":{},\"T\":\"{}\",\"m\":{},\"n\":{},\"vals\":{}",
        F::CODE,
        F::NAME,
        m,
        n,
        olist(values, |x| x.enc()).unwrap()
    );
    rec.ev(&h, || olist(take(mat_iterator(m, n, values), total).iter(), enc_mat));
}

fn distinct<F: Fe>(r: &mut Rng, k: usize) -> Vec<F> {
    let mut v: Vec<F> = vec![];
    for _ in 0..40 {
        let x = F::small(r);
        if v.len() < k && !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

fn boxed(rec: &mut Rec, m: usize, n: usize) {
    let h = format!("\"op\":\"u.box\",\"m\":{},\"n\":{}", m, n);
    rec.ev(&h, || Some(list(take(get_box_iter(m, n), m * n), |(i, j)| format!("[{},{}]", i, j))));
}

fn digits(rec: &mut Rec, n: usize, b: usize) {
    let h = format!("\"op\":\"u.digits\",\"n\":{},\"b\":{}", enc_mag(false, n as u128), enc_mag(false, b as u128));
    rec.ev(&h, || Some(list(take(num_to_seq(n, b), 64), |d| enc_mag(false, d as u128))));
}

fn max_index(rec: &mut Rec, s: &[i64]) {
    let h = format!("\"op\":\"u.max\",\"s\":{}", nums(s));
    rec.ev(&h, || Some(get_max_index(s.iter(), |a, b| a.partial_cmp(b)).to_string()));
    // by absolute value, as for pivots
    let abs: Vec<i64> = s.iter().map(|x| x.abs()).collect();
    let h = format!("\"op\":\"u.max\",\"s\":{}", nums(&abs));
    rec.ev(&h, || Some(get_max_index(s.iter(), |a, b| a.abs().partial_cmp(&b.abs())).to_string()));
    let back: Vec<i64> = s.iter().map(|x| -x).collect();
    let h = format!("\"op\":\"u.max\",\"s\":{}", nums(&back));
    rec.ev(&h, || Some(get_max_index(s.iter(), |a, b| b.partial_cmp(a)).to_string()));
}

pub fn helpers(rec: &mut Rec, r: &mut Rng) {
    rec.begin();
    for m in 0..12 {
        for n in 0..12 {
            boxed(rec, m, n);
        }
    }
    rec.begin();
    for b in 2..12 {
        for n in 0..130 {
            digits(rec, n, b);
        }
    }
    rec.begin();
    for m in 0..4 {
        for n in 0..4 {
            for k in 0..5usize {
                if k.pow((m * n) as u32) <= 700 {
                    mats(rec, m, n, &distinct::<Gf<101>>(r, k));
                    mats(rec, n, m, &distinct::<Rational>(r, k));
                }
            }
        }
    }
    for &(m, n, k) in &[(2, 5, 2), (10, 1, 2), (1, 11, 2), (2, 2, 6), (1, 1, 9), (1, 2, 9), (3, 2, 3)] {
        mats(rec, m, n, &distinct::<Gf<32003>>(r, k));
    }
    while !rec.full() {
        rec.begin();
        for _ in 0..40 {
            let b = *r.pick(&[2usize, 3, 7, 10, 16, 255, 256, 1 << 32, usize::MAX, (1 << 63) + 1]);
            let b = if r.chance(1, 3) { r.range(2, 5000) as usize } else { b };
            let x = r.next();
            let n = (x >> r.below(64)) as usize;
            digits(rec, n, b);
            // powers of the base, and their neighbours
            let p = (b as u128).checked_pow(r.below(4) as u32).unwrap_or(u128::MAX).min(usize::MAX as u128) as usize;
            digits(rec, p, b);
            digits(rec, p - 1, b);
            digits(rec, p.saturating_add(1), b);
            let len = if r.chance(1, 40) { r.range(60, 300) } else if r.chance(1, 6) { r.range(10, 60) } else { r.range(1, 9) } as usize;
            let top = *r.pick(&[1, 3, 100, 1000000]);
            let s: Vec<i64> = (0..len).map(|_| r.range(-top, top)).collect();
            max_index(rec, &s);
        }
        let (m, n) = (r.below(4), r.below(4));
        let k = r.below(5);
        if k.pow((m * n) as u32) <= 300 {
            mats(rec, m, n, &distinct::<Gf<32003>>(r, k));
            mats(rec, n, m, &distinct::<f64>(r, k));
        }
        let (m, n) = *r.pick(&[(1, 5), (5, 1), (1, 7), (4, 2), (2, 4), (8, 1)]);
        let k = r.range(1, 2) as usize + (m * n < 6) as usize;
        mats(rec, m, n, &distinct::<Gf<32003>>(r, k));
        let (m, n) = (r.below(8), r.below(8));
        boxed(rec, m * 13, n * 3);
        boxed(rec, n * 3, m);
    }
}

// -------------------------------------------------------------------- C21

fn some_mono(r: &mut Rng) -> MultiDegree {
    let n = *r.pick(&[0usize, 1, 1, 2, 2, 3, 4, 5, 5, 6, 6, 7, 9, 10, 11, 20]);
    mono((0..n).map(|_| if r.chance(1, 4) { 0 } else { *r.pick(&[0u8, 1, 1, 2, 3, 9, 10, 11, 19, 90, 99, 100, 101, 110, 200, 255]) }).collect())
}

fn term_text<F: Fe>(rec: &mut Rec, t: &Term<F>) {
    let h = format!("\"op\":\"d.term\",\"F\":{},\"T\":\"{}\",\"t\":{}", F::CODE, F::NAME, enc_t(t).unwrap());
    rec.ev(&h, || Some(text(&format!("{}", t))));
}

fn mat_text<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let (m, n) = if r.chance(1, 5) { (r.below(11), r.below(11)) } else { (r.below(5), r.below(5)) };
    // (no negative zeros)
    let a = rand_mat::<F>(r, m, n);
    let a = Mat::new(m, n, a.entries().iter().map(|&x| x + F::ZERO).collect());
    text_of_mat::<F>(rec, &a);
}

fn text_of_mat<F: Fe>(rec: &mut Rec, a: &Mat<F>) {
    let h = format!("\"op\":\"d.mat\",\"F\":{},\"T\":\"{}\",\"m\":{}", F::CODE, F::NAME, enc_mat(a).unwrap());
    rec.ev(&h, || Some(text(&format!("{}", a))));
}

fn coef<F: Fe>(r: &mut Rng) -> F {
    match r.below(5) {
        0 => F::ONE,
        1 => F::ZERO - F::ONE,
        2 => F::wide_nonzero(r),
        _ => F::nonzero(r),
    }
}

pub fn rendering(rec: &mut Rec, r: &mut Rng) {
    // every exponent in every place
    rec.begin();
    for i in 0..7 {
        for k in 0..256usize {
            if i > 0 && k % 7 != 3 {
                continue;
            }
            let mut v = vec![0u8; i + 1];
            v[i] = k as u8;
            let m = mono(v);
            text_mono(rec, &m);
        }
    }
    while !rec.full() {
        rec.begin();
        for _ in 0..20 {
            let x = match r.below(4) {
                0 => r.range(-12, 12),
                1 => *r.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, 10000, -10000, 99999, 100000000, 1000000000000]),
                _ => (r.next() as i64) >> r.below(64),
            };
            text_int(rec, x);
            let q = if r.chance(1, 2) { Rational::new_i64(r.range(-30, 30), r.range(1, 12)) } else { Rational::wide(r) };
            text_rat(rec, q);
            let m = some_mono(r);
            text_mono(rec, &m);
            match r.below(5) {
                0 => term_text(rec, &Term { coef: coef::<Gf<2>>(r), mdeg: m }),
                1 => term_text(rec, &Term { coef: coef::<Gf<7>>(r), mdeg: m }),
                2 => term_text(rec, &Term { coef: coef::<f64>(r), mdeg: m }),
                3 => term_text(rec, &Term { coef: coef::<f32>(r), mdeg: m }),
                _ => term_text(rec, &Term { coef: coef::<Rational>(r), mdeg: m }),
            }
            // polynomials, with unit coefficients and constants in every place
            let k = if r.chance(1, 6) { 24 } else { r.below(6) };
            let n = r.range(1, 7) as usize;
            let mut p: Polynomial<Rational> = rand_poly(r, n, 12, k);
            if r.chance(1, 2) {
                for t in p.terms.iter_mut() {
                    t.coef = coef(r);
                }
            }
            text_poly_q(rec, &p);
            let mut p: Polynomial<f64> = rand_poly(r, n, 3, k);
            if r.chance(1, 2) {
                for t in p.terms.iter_mut() {
                    t.coef = coef(r);
                }
            }
            text_poly_f(rec, &p);
            match r.below(3) {
                0 => mat_text::<Gf<7>>(rec, r),
                1 => mat_text::<f64>(rec, r),
                _ => mat_text::<Gf<32003>>(rec, r),
            }
        }
    }
}

fn text_int(rec: &mut Rec, x: i64) {
    let h = format!("\"op\":\"d.int\",\"x\":{}", enc_i64(x));
    rec.ev(&h, || Some(text(&format!("{}", Integer(x)))));
}
fn text_rat(rec: &mut Rec, q: Rational) {
    let h = format!("\"op\":\"d.rat\",\"x\":{}", q.enc().unwrap());
    rec.ev(&h, || Some(text(&format!("{}", q))));
}
fn text_mono(rec: &mut Rec, m: &MultiDegree) {
    let h = format!("\"op\":\"d.mono\",\"m\":{}", enc_m(m));
    rec.ev(&h, || Some(text(&format!("{}", m))));
}
fn text_poly_q(rec: &mut Rec, p: &Polynomial<Rational>) {
    let h = format!("\"op\":\"d.poly\",\"T\":\"Rational\",\"ts\":{}", enc_p(p).unwrap());
    rec.ev(&h, || Some(text(&format!("{}", p))));
}
fn text_poly_f(rec: &mut Rec, p: &Polynomial<f64>) {
    let h = format!("\"op\":\"d.poly\",\"T\":\"f64\",\"ts\":{}", enc_p(p).unwrap());
    rec.ev(&h, || Some(text(&format!("{}", p))));
}

// -------------------------------------------------------------------- C22

trait ConeField: Fe + PartialOrd {}
impl ConeField for Rational {}
impl ConeField for f64 {}

fn cone<F: ConeField>(rec: &mut Rec, n: usize, gs: &[Vec<i64>]) {
    let vs: Vec<Mat<F>> = gs.iter().map(|g| Mat::new(n, 1, g.iter().map(|&x| F::int(x)).collect())).collect();
    let h = format!(
        "\"op\":\"c.cone\",\"T\":\"{}\",\"n\":{},\"gs\":{}",
        F::NAME,
        n,
        olist(&vs, |v| olist(v.entries(), |x| x.enc())).unwrap()
    );
    rec.ev(&h, || {
        let c = Cone::new(vs);
        see(&c)
    });
}

#[cfg(algeo_verif)]
fn see<F: ConeField>(c: &Cone<F>) -> Option<String> {
    let vec = |v: &Mat<F>| olist(v.entries(), |x| x.enc());
    let (dim, ambient, facets, comp) = c.verif_parts();
    Some(format!(
        "{{\"seen\":1,\"dim\":{},\"ambient\":{},\"facets\":{},\"comp\":{}}}",
        dim,
        ambient,
        olist(facets, |(n, g)| Some(format!("{{\"n\":{},\"g\":{}}}", vec(n)?, olist(g, |v| vec(v))?)))?,
        olist(comp, |v| vec(v))?
    ))
}

#[cfg(not(algeo_verif))]
fn see<F: ConeField>(_c: &Cone<F>) -> Option<String> {
    Some("{\"seen\":0}".to_string())
}

pub fn cones(rec: &mut Rec, r: &mut Rng) {
    // every list of up to three vectors of the plane, with small coordinates
    let plane: Vec<Vec<i64>> = (0..9).map(|k| vec![k % 3 - 1, k / 3 - 1]).collect();
    rec.begin();
    for a in &plane {
        cone::<Rational>(rec, 2, &[a.clone()]);
        cone::<f64>(rec, 2, &[a.clone()]);
        for b in &plane {
            cone::<Rational>(rec, 2, &[a.clone(), b.clone()]);
        }
    }
    for a in &plane {
        rec.begin();
        for b in &plane {
            for c in &plane {
                cone::<Rational>(rec, 2, &[a.clone(), b.clone(), c.clone()]);
            }
        }
    }
    for x in -2..3 {
        for y in -2..3 {
            cone::<Rational>(rec, 1, &[vec![x], vec![y]]);
            cone::<f64>(rec, 1, &[vec![x], vec![y]]);
        }
    }
    while !rec.full() {
        rec.begin();
        for _ in 0..20 {
            let n = r.range(1, 4) as usize;
            let k = r.range(1, if n == 4 { 5 } else { 6 }) as usize;
            let top = *r.pick(&[1, 1, 2, 3]);
            let pointed = r.chance(1, 2);
            let mut gs: Vec<Vec<i64>> = (0..k)
                .map(|_| {
                    let mut g: Vec<i64> = (0..n).map(|_| r.range(-top, top)).collect();
                    if pointed {
                        // in a half space
                        g[0] = g[0].abs();
                        if r.chance(1, 2) {
                            g[n - 1] = g[n - 1].abs();
                        }
                    }
                    g
                })
                .collect();
            if r.chance(1, 3) && n > 1 {
                // in a hyperplane
                for g in gs.iter_mut() {
                    g[1] = g[0];
                }
            }
            if k > 1 && r.chance(1, 4) {
                // a repetition, a multiple, a sum
                let (i, j) = (r.below(k), r.below(k));
                let c = r.below(3) as i64;
                let sum: Vec<i64> = (0..n).map(|t| gs[i][t] + c * gs[j][t]).collect();
                if sum.iter().all(|x| x.abs() < 9) {
                    gs[i] = sum;
                }
            }
            if r.chance(1, 12) {
                // five dimensions, or many generators
                let (n, k) = *r.pick(&[(5, 5), (5, 6), (5, 7), (3, 8), (2, 12), (4, 7), (6, 6), (6, 3)]);
                let gs: Vec<Vec<i64>> = (0..k)
                    .map(|_| (0..n).map(|i| if i == 0 { r.range(0, 2) } else { r.range(-1, 1) }).collect())
                    .collect();
                cone::<Rational>(rec, n, &gs);
            }
            cone::<Rational>(rec, n, &gs);
            // the same generators in another order
            r.shuffle(&mut gs);
            cone::<Rational>(rec, n, &gs);
            if top == 1 {
                cone::<f64>(rec, n, &gs);
            }
        }
    }
}

// ----------------------------------------------------------------- scripts

fn typed<F: Fe>(rec: &mut Rec, e: &J) {
    match e.op() {
        "u.mats" => {
            let vals: Vec<F> = e.get("vals").arr().iter().map(F::dec).collect();
            mats(rec, e.u("m"), e.u("n"), &vals)
        }
        "d.term" => {
            let t = e.get("t").arr();
            term_text(rec, &Term { coef: F::dec(&t[0]), mdeg: mono(t[1].mono()) })
        }
        "d.mat" => text_of_mat::<F>(rec, &dec_mat(e.get("m"))),
        op => panic!("unknown call {}", op),
    }
}

fn dec_poly<F: Fe>(e: &J) -> Polynomial<F> {
    let terms = e.get("ts").arr().iter().map(|t| Term { coef: F::dec(&t.arr()[0]), mdeg: mono(t.arr()[1].mono()) });
    Polynomial { terms: terms.collect() }
}

pub fn replay(rec: &mut Rec, calls: &[J]) {
    rec.begin();
    for e in calls {
        match e.op() {
            "u.box" => boxed(rec, e.u("m"), e.u("n")),
            "u.digits" => digits(rec, e.get("n").big() as usize, e.get("b").big() as usize),
            "u.max" => max_index(rec, &e.get("s").arr().iter().map(|j| j.int()).collect::<Vec<_>>()),
            "d.int" => text_int(rec, e.get("x").i64()),
            "d.rat" => text_rat(rec, Rational::dec(e.get("x"))),
            "d.mono" => text_mono(rec, &mono(e.get("m").mono())),
            "d.poly" if e.get("T").str() == "f64" => text_poly_f(rec, &dec_poly(e)),
            "d.poly" => text_poly_q(rec, &dec_poly(e)),
            "c.cone" => {
                let gs: Vec<Vec<i64>> =
                    e.get("gs").arr().iter().map(|g| g.arr().iter().map(|q| q.arr()[0].i64()).collect()).collect();
                if e.get("T").str() == "f64" {
                    cone::<f64>(rec, e.u("n"), &gs)
                } else {
                    cone::<Rational>(rec, e.u("n"), &gs)
                }
            }
            _ => of_type!(e, typed, rec, e),
        }
    }
}
