//! Traces over multidegrees (C05) and monomial orders (C06).

use crate::json::J;
use crate::num::ord;
use crate::rec::*;
use crate::rng::Rng;
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::*;

const NREG: usize = 6;

pub fn enc_m(m: &MultiDegree) -> String {
    nums(m.0.iter())
}

struct Monos<'a> {
    rec: &'a mut Rec,
    reg: Vec<MultiDegree>,
}

impl<'a> Monos<'a> {
    fn new(rec: &'a mut Rec) -> Self {
        rec.begin();
        Monos { rec, reg: vec![MultiDegree::zero(); NREG] }
    }
    fn put(&mut self, head: &str, d: usize, f: impl FnOnce() -> MultiDegree) {
        let mut res = None;
        if self.rec.ev(&format!("{},\"d\":{}", head, d), || {
            let m = f();
            let s = enc_m(&m);
            res = Some(m);
            Some(s)
        }) {
            self.reg[d] = res.unwrap();
        }
    }
    fn new_raw(&mut self, d: usize, raw: Vec<u8>) {
        self.put(&format!("\"op\":\"m.new\",\"raw\":{}", nums(&raw)), d, || MultiDegree::from_vec(raw.clone()));
    }
    fn trim(&mut self, d: usize, raw: Vec<u8>) {
        self.put(&format!("\"op\":\"m.trim\",\"raw\":{}", nums(&raw)), d, || {
            let mut m = MultiDegree(raw.clone());
            m.trim_zeros();
            m
        });
    }
    fn zero(&mut self, d: usize, k: usize) {
        self.put("\"op\":\"m.zero\"", d, || match k % 3 {
            0 => MultiDegree::zero(),
            1 => MultiDegree::new(),
            _ => MultiDegree::default(),
        });
    }
    fn var(&mut self, d: usize, i: usize, k: u8) {
        self.put(&format!("\"op\":\"m.var\",\"i\":{},\"k\":{}", i, k), d, || MultiDegree::var(i, k));
    }
    fn add(&mut self, d: usize, a: usize, b: usize, form: usize) {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        self.put(&format!("\"op\":\"m.add\",\"a\":{},\"b\":{},\"fm\":{}", a, b, form), d, || match form {
            0 => &x + &y,
            1 => &x + y,
            2 => x + &y,
            _ => x + y,
        });
    }
    fn sub(&mut self, d: usize, a: usize, b: usize) {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        let mut res = None;
        let ok = self.rec.ev(&format!("\"op\":\"m.sub\",\"a\":{},\"b\":{},\"d\":{}", a, b, d), || {
            res = x.checked_sub(&y);
            Some(match &res {
                Some(m) => format!("[{}]", enc_m(m)),
                None => "[]".into(),
            })
        });
        if ok {
            if let Some(m) = res {
                self.reg[d] = m;
            }
        }
    }
    fn obs(&mut self, a: usize, b: usize) {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        self.rec.ev(&format!("\"op\":\"m.obs\",\"a\":{},\"b\":{}", a, b), || {
            let mut z = x.clone();
            let degs: Vec<u8> = z.degs_mut().map(|d| *d).collect();
            assert!(degs.iter().eq(x.degs()));
            Some(format!(
                "{{\"succ\":{},\"eq\":{},\"len\":{},\"zero\":{},\"degs\":{}}}",
                x.is_succ(&y) as u8,
                (x == y) as u8,
                x.len(),
                x.is_zero() as u8,
                nums(x.degs())
            ))
        });
        self.rec.ev(&format!("\"op\":\"m.total\",\"a\":{}", a), || Some(x.total_deg().to_string()));
    }
}

/// vectors of length `len` with entries below `base`
pub fn boxed(len: usize, base: u8) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for _ in 0..len {
        let mut next = vec![];
        for v in &out {
            for d in 0..base {
                let mut w = v.clone();
                w.push(d);
                next.push(w);
            }
        }
        out = next;
    }
    out
}

pub fn rand_raw(r: &mut Rng) -> Vec<u8> {
    let len = match r.below(40) {
        0 => *r.pick(&[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]),
        1..=5 => r.below(24),
        _ => r.below(6),
    };
    let style = r.below(6);
    (0..len)
        .map(|_| match style {
            0 => (r.below(2)) as u8,
            1 => (r.below(4)) as u8,
            2 => if r.chance(2, 3) { 0 } else { r.below(10) as u8 },
            3 => *r.pick(&[0, 0, 1, 100, 127, 128, 200, 254, 255]),
            4 => r.below(60) as u8,
            _ => if r.chance(1, 2) { 0 } else { 1 + r.below(3) as u8 },
        })
        .collect()
}

/// C05
pub fn monoid(rec: &mut Rec, r: &mut Rng) {
    // all pairs of a box, unsanitized vectors included
    let all = boxed(3, 3);
    for (i, v) in all.iter().enumerate() {
        let mut s = Monos::new(rec);
        s.trim(0, v.clone());
        s.zero(1, i);
        for k in 0..4 {
            s.var(2, k, v[0] * 50);
            s.obs(2, 0);
        }
        s.new_raw(0, v.clone());
        for (j, w) in all.iter().enumerate() {
            s.new_raw(1, w.clone());
            s.add(2, 0, 1, (i + j) % 4);
            s.sub(3, 0, 1);
            s.sub(4, 2, 1);
            s.obs(0, 1);
            s.obs(4, 0);
        }
    }
    // vectors with interior zero runs, of different lengths
    let shapes: Vec<Vec<u8>> = boxed(5, 2);
    for (i, v) in shapes.iter().enumerate() {
        let mut s = Monos::new(rec);
        let scale = |v: &Vec<u8>, k: u8| v.iter().map(|x| x * k).collect::<Vec<u8>>();
        s.new_raw(0, scale(v, 2));
        for w in &shapes {
            s.new_raw(1, scale(w, 1 + (i % 3) as u8));
            s.sub(2, 0, 1);
            s.add(3, 1, 0, i % 4);
            s.obs(1, 0);
        }
        if s.rec.full() {
            return;
        }
    }
    while !rec.full() {
        let mut s = Monos::new(rec);
        for _ in 0..60 {
            let (d, a, b) = (r.below(NREG), r.below(NREG), r.below(NREG));
            match r.below(10) {
                0 | 1 | 2 => {
                    let v = rand_raw(r);
                    s.new_raw(d, v)
                }
                3 => {
                    let v = rand_raw(r);
                    s.trim(d, v)
                }
                4 => {
                    let k = r.below(256) as u8;
                    let i = if r.chance(1, 12) { r.below(300) } else { r.below(12) };
                    s.var(d, i, if r.chance(1, 4) { 0 } else { k })
                }
                5 => s.zero(d, b),
                6 | 7 => s.add(d, a, b, r.below(4)),
                8 => s.sub(d, a, b),
                _ => {
                    // a multiple, and back
                    s.add(d, a, b, r.below(4));
                    s.obs(a, d);
                    s.sub((d + 1) % NREG, d, b);
                }
            }
            s.obs(a, b);
        }
    }
}

fn cmp_event(rec: &mut Rec, a: &MultiDegree, b: &MultiDegree) {
    rec.ev(&format!("\"op\":\"o.cmp\",\"a\":{},\"b\":{}", enc_m(a), enc_m(b)), || {
        Some(format!(
            "{{\"lex\":{},\"revlex\":{},\"grlex\":{},\"grevlex\":{},\"grad\":{}}}",
            ord(Lex::cmp(a, b)),
            ord(RevLex::cmp(a, b)),
            ord(GrLex::cmp(a, b)),
            ord(GRevLex::cmp(a, b)),
            ord(grad(a, b))
        ))
    });
}

fn clean(mut v: Vec<u8>) -> MultiDegree {
    while v.last() == Some(&0) {
        v.pop();
    }
    MultiDegree(v)
}

/// C06
pub fn orders(rec: &mut Rec, r: &mut Rng) {
    for all in [boxed(3, 4), boxed(5, 2)] {
        for v in &all {
            rec.begin();
            for w in &all {
                cmp_event(rec, &clean(v.clone()), &clean(w.clone()));
            }
        }
    }
    while !rec.full() {
        rec.begin();
        for _ in 0..60 {
            let a = rand_raw(r);
            let b = match r.below(5) {
                // a permutation, or a small change: ties until late
                0 => {
                    let mut b = a.clone();
                    r.shuffle(&mut b);
                    b
                }
                1 | 2 => {
                    let mut b = a.clone();
                    b.resize(b.len().max(1 + r.below(6)), 0);
                    if r.chance(1, 4) {
                        // the same total, spread otherwise
                        let n = b.len();
                        for _ in 0..r.below(12) {
                            let (i, j) = (r.below(n), r.below(n));
                            if b[i] > 0 && b[j] < 255 {
                                b[i] -= 1;
                                b[j] += 1;
                            }
                        }
                    }
                    let (i, j) = (r.below(b.len()), r.below(b.len()));
                    if b[i] > 0 && b[j] < 255 {
                        b[i] -= 1;
                        b[j] += 1;
                    } else {
                        b[i] = b[i].wrapping_add(1);
                    }
                    b
                }
                3 => a.iter().map(|&x| if r.chance(1, 4) { r.below(256) as u8 } else { x }).collect(),
                _ => rand_raw(r),
            };
            let (a, b) = (clean(a), clean(b));
            cmp_event(rec, &a, &b);
            cmp_event(rec, &b, &a);
        }
    }
}

/// a script over multidegree registers, or of comparisons
pub fn replay(rec: &mut Rec, calls: &[J]) {
    let mut s = Monos::new(rec);
    for e in calls {
        match e.op() {
            "m.new" => s.new_raw(e.u("d"), e.get("raw").mono()),
            "m.trim" => s.trim(e.u("d"), e.get("raw").mono()),
            "m.zero" => s.zero(e.u("d"), e.u0("k")),
            "m.var" => s.var(e.u("d"), e.u("i"), e.u("k") as u8),
            "m.add" => s.add(e.u("d"), e.u("a"), e.u("b"), e.u0("fm")),
            "m.sub" => s.sub(e.u("d"), e.u("a"), e.u("b")),
            "m.obs" => s.obs(e.u("a"), e.u("b")),
            "o.cmp" => cmp_event(s.rec, &clean(e.get("a").mono()), &clean(e.get("b").mono())),
            op => panic!("unknown call {}", op),
        }
    }
}
