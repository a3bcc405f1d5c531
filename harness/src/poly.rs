//! Traces over polynomials (C07-C14).

use crate::fields::*;
use crate::json::J;
use crate::mono::enc_m;
use crate::rec::*;
use crate::rng::Rng;
use algeo::core::num::Rational;
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::*;

pub const NREG: usize = 40;
/// registers that ring histories choose from
const RING: usize = 6;

pub trait Named: MonomialOrder {
    const ORD: &'static str;
}
impl Named for Lex {
    const ORD: &'static str = "lex";
}
impl Named for RevLex {
    const ORD: &'static str = "revlex";
}
impl Named for GrLex {
    const ORD: &'static str = "grlex";
}
impl Named for GRevLex {
    const ORD: &'static str = "grevlex";
}

pub fn enc_t<F: Fe>(t: &Term<F>) -> Option<String> {
    Some(format!("[{},{}]", t.coef.enc()?, enc_m(&t.mdeg)))
}

pub fn enc_p<F: Fe>(p: &Polynomial<F>) -> Option<String> {
    olist(p.terms.iter(), enc_t)
}

pub fn mono(mut v: Vec<u8>) -> MultiDegree {
    while v.last() == Some(&0) {
        v.pop();
    }
    MultiDegree(v)
}

/// a random exponent vector in n variables of total degree at most deg
pub fn rand_mono(r: &mut Rng, n: usize, deg: usize) -> MultiDegree {
    let mut v = vec![0u8; n];
    if n > 0 {
        for _ in 0..r.below(deg + 1) {
            v[r.below(n)] += 1;
        }
    }
    mono(v)
}

/// a clean polynomial with at most k terms, now and then of a special form
pub fn rand_poly<F: Fe>(r: &mut Rng, n: usize, deg: usize, k: usize) -> Polynomial<F> {
    let mut terms: Vec<Term<F>> = vec![];
    let form = r.below(20);
    let var = r.below(n.max(1));
    let c = F::nonzero(r);
    for i in 0..r.below(k + 1) {
        let m = match form {
            // homogeneous
            0 | 1 if n > 0 => {
                let mut v = vec![0u8; n];
                for _ in 0..deg {
                    v[r.below(n)] += 1;
                }
                mono(v)
            }
            // powers of variables
            2 if n > 0 => {
                let mut v = vec![0u8; n];
                v[r.below(n)] = r.below(deg + 1) as u8;
                mono(v)
            }
            // all powers of one of them
            3 if n > 0 => {
                let mut v = vec![0u8; n];
                v[var] = i.min(deg) as u8;
                mono(v)
            }
            // the same, and times a monomial
            4 if n > 0 => {
                let mut v = vec![0u8; n];
                v[var] = i.min(deg) as u8;
                v[n - 1 - var] += 1;
                mono(v)
            }
            // one variable does not occur
            5 if n > 1 => {
                let mut v = vec![0u8; n];
                for _ in 0..r.below(deg + 1) {
                    v[(var + 1 + r.below(n - 1)) % n] += 1;
                }
                mono(v)
            }
            _ => rand_mono(r, n, deg),
        };
        if terms.iter().all(|t| t.mdeg != m) {
            let coef = match form {
                1 | 3 | 6 => F::ONE,
                7 if r.chance(1, 2) => F::ONE,
                7 => -F::ONE,
                8 => c,
                9 | 10 if F::CODE > 5 => F::wide_nonzero(r),
                _ => F::nonzero(r),
            };
            terms.push(Term { coef, mdeg: m });
        }
    }
    match form {
        11 | 3 => terms.sort_by(|s, t| t.mdeg.0.cmp(&s.mdeg.0)),
        12 => terms.sort_by(|s, t| s.mdeg.0.cmp(&t.mdeg.0)),
        13 => terms.sort_by_key(|t| total(&t.mdeg)),
        14 => terms.sort_by_key(|t| usize::MAX - total(&t.mdeg)),
        _ => {}
    }
    Polynomial { terms }
}

fn rand_term<F: Fe>(r: &mut Rng, n: usize, deg: usize) -> Term<F> {
    if r.chance(1, 8) {
        return Term::zero();
    }
    Term { coef: F::nonzero(r), mdeg: rand_mono(r, n, deg) }
}

/// the polynomial of a term the library made; a zero that is not the zero term stays visible
fn lift<F: Fe>(t: Term<F>) -> Polynomial<F> {
    Polynomial { terms: if t == Term::zero() { vec![] } else { vec![t] } }
}

fn total(m: &MultiDegree) -> usize {
    m.0.iter().map(|&d| d as usize).sum()
}

macro_rules! forms {
    ($op:tt, $x:expr, $y:expr, $fm:expr) => {
        match $fm % 4 {
            0 => &$x $op &$y,
            1 => &$x $op $y.clone(),
            2 => $x.clone() $op &$y,
            _ => $x.clone() $op $y.clone(),
        }
    };
}

/// A history over polynomial registers.
pub struct Polys<'a, F: Fe> {
    pub rec: &'a mut Rec,
    pub reg: Vec<Polynomial<F>>,
    pub basis: Vec<Polynomial<F>>,
    dead: bool,
}

impl<'a, F: Fe> Polys<'a, F> {
    pub fn new(rec: &'a mut Rec) -> Self {
        rec.begin();
        Polys { rec, reg: vec![Polynomial::zero(); NREG], basis: vec![], dead: false }
    }

    fn head(&self, op: &str, rest: &str) -> String {
        format!("\"op\":\"{}\",\"F\":{},\"T\":\"{}\",{}", op, F::CODE, F::NAME, rest)
    }

    /// an operation whose result goes to register d
    fn put(&mut self, op: &str, rest: &str, d: usize, f: impl FnOnce() -> Polynomial<F>) -> bool {
        let head = self.head(op, &format!("{}\"d\":{}", if rest.is_empty() { String::new() } else { format!("{},", rest) }, d));
        let mut res = None;
        let ok = self.rec.ev(&head, || {
            let p = f();
            let s = enc_p(&p)?;
            res = Some(p);
            Some(s)
        });
        if ok {
            self.reg[d] = res.unwrap();
        }
        ok
    }

    /// sets a register (a constructor call of the library)
    pub fn set(&mut self, d: usize, p: &Polynomial<F>) {
        let ts = enc_p(p).unwrap();
        let terms = p.terms.clone();
        self.put("p.new", &format!("\"ts\":{}", ts), d, move || Polynomial::new(terms));
    }

    /// the constructor given zero terms as well
    fn set_dirty(&mut self, r: &mut Rng, d: usize, p: &Polynomial<F>, n: usize) {
        let mut terms = p.terms.clone();
        for _ in 0..r.below(3) {
            let m = rand_mono(r, n, 5);
            if terms.iter().all(|t| t.mdeg != m) {
                let i = r.below(terms.len() + 1);
                terms.insert(i, Term { coef: F::ZERO, mdeg: m });
            }
        }
        let ts = olist(terms.iter(), enc_t).unwrap();
        self.put("p.new", &format!("\"ts\":{}", ts), d, move || Polynomial::new(terms));
    }

    pub fn pp(&mut self, k: usize, d: usize, a: usize, b: usize, fm: usize) -> bool {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        let rest = format!("\"a\":{},\"b\":{},\"fm\":{}", a, b, fm);
        match k {
            0 => self.put("p.add", &rest, d, || forms!(+, x, y, fm)),
            1 => self.put("p.sub", &rest, d, || forms!(-, x, y, fm)),
            _ => self.put("p.mul", &rest, d, || forms!(*, x, y, fm)),
        }
    }

    fn pt(&mut self, k: usize, d: usize, a: usize, t: &Term<F>, fm: usize) {
        let x = self.reg[a].clone();
        let rest = format!("\"a\":{},\"t\":{},\"fm\":{}", a, enc_t(t).unwrap(), fm);
        match k {
            0 => self.put("p.addt", &rest, d, || if fm < 4 { forms!(+, x, t.clone(), fm) } else { forms!(+, t.clone(), x, fm) }),
            1 => self.put("p.subt", &rest, d, || forms!(-, x, t.clone(), fm)),
            2 => self.put("p.tsub", &rest, d, || forms!(-, t.clone(), x, fm)),
            _ => self.put("p.tmul", &rest, d, || if fm < 4 { forms!(*, x, t.clone(), fm) } else { forms!(*, t.clone(), x, fm) }),
        };
    }

    fn tt(&mut self, k: usize, d: usize, s: &Term<F>, t: &Term<F>, fm: usize) {
        let rest = format!("\"s\":{},\"t\":{},\"fm\":{}", enc_t(s).unwrap(), enc_t(t).unwrap(), fm);
        match k {
            0 => self.put("t.add", &rest, d, || forms!(+, s.clone(), t.clone(), fm)),
            1 => self.put("t.sub", &rest, d, || forms!(-, s.clone(), t.clone(), fm)),
            _ => self.put("t.mul", &rest, d, || lift(forms!(*, s.clone(), t.clone(), fm))),
        };
    }

    fn unary(&mut self, k: usize, d: usize, a: usize, fm: usize) {
        let x = self.reg[a].clone();
        let rest = format!("\"a\":{},\"fm\":{}", a, fm);
        match k {
            0 => self.put("p.neg", &rest, d, || if fm % 2 == 0 { -x } else { -&x }),
            _ => self.put("p.copy", &rest, d, || x.clone()),
        };
    }

    fn scalar(&mut self, k: usize, d: usize, a: usize, c: F, fm: usize) {
        let x = self.reg[a].clone();
        let rest = format!("\"a\":{},\"c\":{},\"fm\":{}", a, c.enc().unwrap(), fm);
        match k {
            0 => self.put("p.scale", &rest, d, || if fm % 2 == 0 { &x * c } else { x * c }),
            _ => self.put("p.div", &rest, d, || if fm % 2 == 0 { &x / c } else { x / c }),
        };
    }

    fn consts(&mut self, r: &mut Rng, d: usize, n: usize) {
        let t = rand_term::<F>(r, n, 4);
        let fm = r.below(2);
        match r.below(8) {
            0 => {
                let c = F::small(r);
                let k = r.below(4);
                self.put("p.const", &format!("\"c\":{}", c.enc().unwrap()), d, || match k {
                    0 if !c.is_zero() => Polynomial::constant_unchecked(c),
                    1 if !c.is_zero() => Polynomial::term_unchecked(Term::constant_unchecked(c)),
                    2 => Polynomial::from(Term::from(c)),
                    _ => Polynomial::from(c),
                });
            }
            1 => self.of_term("p.fromt", d, t, fm),
            2 => self.unit("p.zero", d, fm),
            3 => self.unit("p.one", d, fm),
            4 => {
                let (i, k) = (r.below(n + 1), r.below(5) as u8);
                if r.chance(1, 2) {
                    self.var(d, i, k)
                } else {
                    let fm = r.below(3);
                    self.put("p.var", &format!("\"i\":{},\"k\":{}", i, k), d, || match fm {
                        0 => Polynomial::from(Term::var(i, k)),
                        1 => Polynomial::term_unchecked(Term::monic(MultiDegree::var(i, k))),
                        _ => Polynomial::new_unchecked(vec![Term::new_unchecked(F::ONE, MultiDegree::var(i, k))]),
                    });
                }
            }
            5 => {
                let mut t = t;
                if r.chance(1, 3) {
                    t.coef = F::ZERO;
                }
                self.of_term("t.new", d, t, fm)
            }
            6 => self.of_term("t.neg", d, t, fm),
            _ if r.chance(1, 2) => self.unit("t.one", d, fm),
            _ => {
                // in place, through the mutable view of the terms
                let a = r.below(RING);
                let mut x = self.reg[a].clone();
                self.put("p.neg", &format!("\"a\":{},\"fm\":2", a), d, || {
                    for t in x.terms_mut() {
                        t.coef = -t.coef;
                    }
                    Polynomial::new_unchecked(x.terms().cloned().collect())
                });
            }
        }
    }

    fn make_const(&mut self, d: usize, c: F) {
        self.put("p.const", &format!("\"c\":{}", c.enc().unwrap()), d, || Polynomial::from(c));
    }

    fn var(&mut self, d: usize, i: usize, k: u8) {
        self.put("p.var", &format!("\"i\":{},\"k\":{}", i, k), d, || Polynomial::var(i, k));
    }

    fn unit(&mut self, op: &str, d: usize, fm: usize) {
        self.put(op, "\"x\":0", d, || match op {
            "p.zero" => {
                if fm == 0 {
                    Polynomial::zero()
                } else {
                    Polynomial::default()
                }
            }
            "p.one" => Polynomial::one(),
            _ => Polynomial::from(Term::one()),
        });
    }

    fn of_term(&mut self, op: &str, d: usize, t: Term<F>, fm: usize) {
        self.put(op, &format!("\"t\":{}", enc_t(&t).unwrap()), d, || match (op, fm % 2) {
            ("p.fromt", 0) => Polynomial::from(t),
            ("p.fromt", _) => Polynomial::from(&t),
            ("t.new", 0) => lift(Term::new(t.coef, t.mdeg)),
            ("t.new", _) => Polynomial::from(Term::new(t.coef, t.mdeg)),
            (_, 0) => lift(-t),
            _ => lift(-&t),
        });
    }

    pub fn obs(&mut self, a: usize) {
        let x = self.reg[a].clone();
        let h = self.head("p.obs", &format!("\"a\":{}", a));
        self.rec.ev(&h, || Some(format!("{{\"zero\":{},\"n\":{}}}", x.is_zero() as u8, x.terms().count())));
    }

    fn term_obs(&mut self, s: &Term<F>, t: &Term<F>) {
        let h = self.head("t.obs", &format!("\"s\":{},\"t\":{}", enc_t(s).unwrap(), enc_t(t).unwrap()));
        self.rec.ev(&h, || {
            Some(format!("{{\"eq\":{},\"zero\":{},\"divides\":{}}}", (s == t) as u8, s.is_zero() as u8, s.divides(t) as u8))
        });
    }

    fn eval(&mut self, a: usize, x: &[F], tame: bool) {
        let p = self.reg[a].clone();
        let h = self.head("p.eval", &format!("\"a\":{},\"x\":{},\"tame\":{}", a, olist(x, |c| c.enc()).unwrap(), tame as u8));
        self.rec.ev(&h, || p.eval(x).enc());
    }

    fn term_eval(&mut self, t: &Term<F>, x: &[F], tame: bool) {
        let h = self.head(
            "t.eval",
            &format!("\"t\":{},\"x\":{},\"tame\":{}", enc_t(t).unwrap(), olist(x, |c| c.enc()).unwrap(), tame as u8),
        );
        self.rec.ev(&h, || t.eval(x).enc());
    }

    pub fn sort<O: Named>(&mut self, a: usize) {
        let p = self.reg[a].clone();
        let h = self.head("p.sort", &format!("\"ord\":\"{}\",\"a\":{}", O::ORD, a));
        self.rec.ev(&h, || enc_p(&Computer::<F, O>::sort_terms(&p)));
    }

    pub fn lead<O: Named>(&mut self, a: usize) {
        let p = self.reg[a].clone();
        let h = self.head("p.lead", &format!("\"ord\":\"{}\",\"a\":{}", O::ORD, a));
        self.rec.ev(&h, || {
            Some(format!(
                "{{\"lt\":{},\"lc\":{}}}",
                olist(Computer::<F, O>::leading_term(&p).into_iter(), enc_t)?,
                olist(Computer::<F, O>::leading_coef(&p).into_iter(), |c| c.enc())?
            ))
        });
    }

    fn lcm<O: Named>(&mut self, s: &Term<F>, t: &Term<F>) {
        let h = self.head("t.lcm", &format!("\"ord\":\"{}\",\"s\":{},\"t\":{}", O::ORD, enc_t(s).unwrap(), enc_t(t).unwrap()));
        self.rec.ev(&h, || enc_t(&Computer::<F, O>::monic_lcm(s, t)));
    }

    fn try_div(&mut self, s: &Term<F>, t: &Term<F>, tame: bool) {
        let h = self.head("t.div", &format!("\"tame\":{},\"s\":{},\"t\":{}", tame as u8, enc_t(s).unwrap(), enc_t(t).unwrap()));
        self.rec.ev(&h, || olist(s.try_div(t).iter(), enc_t));
    }

    pub fn spoly<O: Named>(&mut self, a: usize, b: usize, tame: bool) {
        let (f, g) = (self.reg[a].clone(), self.reg[b].clone());
        let h = self.head("p.spoly", &format!("\"ord\":\"{}\",\"tame\":{},\"a\":{},\"b\":{}", O::ORD, tame as u8, a, b));
        self.rec.ev(&h, || olist(Computer::<F, O>::try_reduce(&f, &g).iter(), enc_p));
    }

    pub fn divide<O: Named>(&mut self, d: usize, a: usize, gs: &[usize], tame: bool) {
        let f = self.reg[a].clone();
        let divs: Vec<_> = gs.iter().map(|&i| self.reg[i].clone()).collect();
        let h = self.head(
            "p.divide",
            &format!("\"ord\":\"{}\",\"tame\":{},\"d\":{},\"a\":{},\"gs\":{}", O::ORD, tame as u8, d, a, nums(gs)),
        );
        let mut res = None;
        let ok = self.rec.ev(&h, || {
            let (r, q) = Computer::<F, O>::divide(&f, &divs);
            let s = format!("{{\"r\":{},\"q\":{}}}", enc_p(&r)?, olist(q.iter(), enc_p)?);
            res = Some(r);
            Some(s)
        });
        if ok {
            self.reg[d] = res.unwrap();
        }
    }

    pub fn crit<O: Named>(&mut self, gs: &[usize]) {
        let g: Vec<_> = gs.iter().map(|&i| self.reg[i].clone()).collect();
        let h = self.head("g.crit", &format!("\"ord\":\"{}\",\"gs\":{}", O::ORD, nums(gs)));
        self.rec.ev(&h, || Some((Computer::<F, O>::buchberger_criterion(&g) as u8).to_string()));
    }

    pub fn basis<O: Named>(&mut self, gs: &[usize]) -> bool {
        let mut g: Vec<_> = gs.iter().map(|&i| self.reg[i].clone()).collect();
        let h = self.head("g.basis", &format!("\"ord\":\"{}\",\"gs\":{}", O::ORD, nums(gs)));
        let mut res = vec![];
        let ok = self.rec.ev(&h, || {
            Computer::<F, O>::buchberger_algorithm(&mut g);
            let s = olist(g.iter(), enc_p)?;
            res = g;
            Some(s)
        });
        if ok {
            self.basis = res;
        } else {
            self.dead = true;
        }
        ok
    }

    pub fn nf<O: Named>(&mut self, r: &mut Rng, d: usize, a: usize) {
        let mut g = self.basis.clone();
        r.shuffle(&mut g);
        self.nf_by::<O>(d, a, g);
    }

    pub fn nf_by<O: Named>(&mut self, d: usize, a: usize, g: Vec<Polynomial<F>>) {
        let f = self.reg[a].clone();
        let h = self.head("g.nf", &format!("\"ord\":\"{}\",\"d\":{},\"a\":{}", O::ORD, d, a));
        let mut res = None;
        let ok = self.rec.ev(&h, || {
            let (rem, _) = Computer::<F, O>::divide(&f, &g);
            let s = enc_p(&rem)?;
            res = Some(rem);
            Some(s)
        });
        if ok {
            self.reg[d] = res.unwrap();
        }
    }

    /// keeps a register small
    fn trim(&mut self, r: &mut Rng, d: usize, n: usize) {
        let p = &self.reg[d];
        if p.terms.len() > 10 || p.terms.iter().any(|t| total(&t.mdeg) > 10 || !t.coef.tame()) {
            let q = rand_poly(r, n, 3, 4);
            self.set(d, &q);
        }
    }
}

/// instantiates a driver for a coefficient type chosen at random
macro_rules! over_fields {
    ($r:expr, $k:expr, $f:ident, $($arg:expr),*) => {
        match $k {
            0 => $f::<Gf<2>>($($arg),*),
            1 => $f::<Gf<3>>($($arg),*),
            2 => $f::<Gf<5>>($($arg),*),
            3 => $f::<Gf<101>>($($arg),*),
            4 => $f::<Gf<32003>>($($arg),*),
            5 => $f::<Rational>($($arg),*),
            6 => $f::<f64>($($arg),*),
            _ => $f::<f32>($($arg),*),
        }
    };
}
macro_rules! over_exact_fields {
    ($k:expr, $f:ident, $($arg:expr),*) => {
        match $k {
            0 => $f::<Gf<2>>($($arg),*),
            1 => $f::<Gf<3>>($($arg),*),
            2 => $f::<Gf<5>>($($arg),*),
            3 => $f::<Gf<101>>($($arg),*),
            4 => $f::<Gf<32003>>($($arg),*),
            _ => $f::<Rational>($($arg),*),
        }
    };
}
macro_rules! over_orders {
    ($s:expr, $k:expr, $m:ident, $($arg:expr),*) => {
        match $k % 4 {
            0 => $s.$m::<Lex>($($arg),*),
            1 => $s.$m::<RevLex>($($arg),*),
            2 => $s.$m::<GrLex>($($arg),*),
            _ => $s.$m::<GRevLex>($($arg),*),
        }
    };
}

/// like a: a copy with some terms negated, dropped or changed, so that sums cancel
fn similar<F: Fe>(r: &mut Rng, p: &Polynomial<F>, n: usize) -> Polynomial<F> {
    let mut terms = p.terms.clone();
    match r.below(10) {
        // the same, its negative, a multiple, in this or another order
        k @ 0..=3 => {
            let c = match k {
                0 => F::ONE,
                1 => -F::ONE,
                _ => F::nonzero(r),
            };
            for t in terms.iter_mut() {
                t.coef *= c;
            }
            match r.below(3) {
                0 => terms.reverse(),
                1 => r.shuffle(&mut terms),
                _ => {}
            }
            return Polynomial { terms };
        }
        // the same monomials
        4 => {
            for t in terms.iter_mut() {
                t.coef = F::nonzero(r);
            }
            return Polynomial { terms };
        }
        // the same leading part
        5 => {
            let k = r.below(terms.len() + 1);
            terms.truncate(k);
            let q = rand_poly::<F>(r, n, 4, 3);
            for t in q.terms {
                if terms.iter().all(|u| u.mdeg != t.mdeg) {
                    terms.push(t);
                }
            }
            return Polynomial { terms };
        }
        _ => {}
    }
    for t in terms.iter_mut() {
        match r.below(4) {
            0 => t.coef = -t.coef,
            1 => t.coef = F::nonzero(r),
            _ => {}
        }
    }
    if !terms.is_empty() && r.chance(1, 3) {
        terms.remove(r.below(terms.len()));
    }
    let m = rand_mono(r, n, 3);
    if r.chance(1, 3) && terms.iter().all(|t| t.mdeg != m) {
        let i = r.below(terms.len() + 1);
        terms.insert(i, Term { coef: F::nonzero(r), mdeg: m });
    }
    r.shuffle(&mut terms);
    Polynomial { terms }
}

// ------------------------------------------------------------ C07 and C08

fn ring_history<F: Fe>(rec: &mut Rec, r: &mut Rng, len: usize) {
    let mut s = Polys::<F>::new(rec);
    let n = r.range(1, 3) as usize + if r.chance(1, 6) { 3 } else { 0 };
    for d in 0..3 {
        let p = rand_poly(r, n, 3, 4);
        s.set(d, &p);
    }
    for _ in 0..len {
        let (d, a, b) = (r.below(RING), r.below(RING), r.below(RING));
        let fm = r.below(8);
        match r.below(20) {
            0 | 1 | 2 => {
                s.pp(0, d, a, b, fm);
            }
            3 | 4 | 5 => {
                s.pp(1, d, a, b, fm);
            }
            6 | 7 => {
                s.pp(2, d, a, b, fm);
            }
            8 => {
                // sums of a polynomial and one like it, in both directions
                let p = similar(r, &s.reg[a].clone(), n);
                s.set(b, &p);
                s.pp(r.below(2), d, a, b, fm);
                s.obs(d);
                s.pp(r.below(2), d, b, a, fm);
            }
            9 | 10 => {
                // a term that hits one of the polynomial
                let x = s.reg[a].clone();
                let mut t = rand_term::<F>(r, n, 3);
                if !x.terms.is_empty() && r.chance(3, 4) {
                    let u = &x.terms[r.below(x.terms.len())];
                    t.mdeg = u.mdeg.clone();
                    match r.below(4) {
                        0 => t.coef = u.coef,
                        1 => t.coef = -u.coef,
                        _ => {}
                    }
                }
                s.pt(r.below(4), d, a, &t, fm)
            }
            11 => {
                let t = rand_term::<F>(r, n, 3);
                s.pt(3, d, a, &t, fm)
            }
            12 => {
                let t1 = rand_term::<F>(r, n, 3);
                let mut t2 = rand_term::<F>(r, n, 3);
                match r.below(4) {
                    0 => t2 = -t1.clone(),
                    1 => t2 = t1.clone(),
                    2 => t2.mdeg = t1.mdeg.clone(),
                    _ => {}
                }
                s.tt(r.below(3), d, &t1, &t2, fm);
                s.term_obs(&t1, &t2);
            }
            13 => s.unary(r.below(2), d, a, fm),
            14 => {
                let c = if r.chance(1, 4) { F::ONE } else { F::small(r) };
                s.scalar(0, d, a, c, fm)
            }
            15 => {
                let c = if F::NAME == "Gf" || F::NAME == "Rational" {
                    if r.chance(1, 10) { F::ZERO } else { F::nonzero(r) }
                } else {
                    F::unit(r)
                };
                s.scalar(1, d, a, c, fm)
            }
            16 => s.consts(r, d, n),
            17 => {
                let p = rand_poly(r, n, 3, 5);
                s.set_dirty(r, d, &p, n)
            }
            18 => {
                // exponents near the limit
                let m = mono((0..n).map(|_| *r.pick(&[0u8, 0, 1, 126, 128, 200, 255])).collect());
                let t = Term { coef: F::nonzero(r), mdeg: m };
                if r.chance(1, 2) {
                    s.pt(3, d, a, &t, fm);
                } else {
                    let t2 = Term { coef: F::nonzero(r), mdeg: mono((0..n).map(|_| *r.pick(&[0u8, 1, 127, 128, 55])).collect()) };
                    s.tt(2, d, &t, &t2, fm);
                }
            }
            _ => {
                // (x - y)(x + y) = x x - y y, built from the same registers
                let (a, b) = (a % 3, b % 3);
                s.pp(1, 3, a, b, fm);
                s.pp(0, 4, a, b, fm);
                s.pp(2, 5, 3, 4, fm);
                s.pp(2, 3, a, a, fm);
                s.pp(2, 4, b, b, fm);
                s.pp(1, 3, 3, 4, fm);
                s.pp(1, 4, 3, 5, fm);
                s.obs(4);
            }
        }
        s.obs(d);
        for d in 0..RING {
            s.trim(r, d, n);
        }
    }
}

/// a clean polynomial with exactly k terms (or as many as were found), exponents up to deg in each variable
fn long_poly<F: Fe>(r: &mut Rng, n: usize, deg: usize, k: usize) -> Polynomial<F> {
    let mut terms: Vec<Term<F>> = vec![];
    let sparse = r.below(4);
    for _ in 0..3 * k {
        if terms.len() == k {
            break;
        }
        let m = mono((0..n).map(|_| if r.below(4) < sparse { 0 } else { r.below(deg + 1) as u8 }).collect());
        if terms.iter().all(|t| t.mdeg != m) {
            terms.push(Term { coef: F::nonzero(r), mdeg: m });
        }
    }
    Polynomial { terms }
}

/// the polynomial with the exponent of one variable in one of its terms replaced
fn high<F: Fe>(r: &mut Rng, p: &Polynomial<F>, var: usize, exp: u8) -> Polynomial<F> {
    let mut terms = p.terms.clone();
    if !terms.is_empty() {
        let k = r.below(terms.len());
        let mut v = terms[k].mdeg.0.clone();
        v.resize(v.len().max(var + 1), 0);
        v[var] = exp;
        let m = mono(v);
        if terms.iter().all(|t| t.mdeg != m) {
            terms[k].mdeg = m;
        }
    }
    Polynomial { terms }
}

/// sums, differences and products of long polynomials in many variables
fn long_ring_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let mut s = Polys::<F>::new(rec);
    for _ in 0..3 {
        let (n, deg) = *r.pick(&[(1, 60), (1, 250), (2, 12), (3, 5), (6, 2), (9, 1), (12, 3), (20, 1)]);
        let k = if r.chance(1, 5) { *r.pick(&[65, 100, 129, 260]) } else { *r.pick(&[7, 9, 15, 16, 17, 24, 31, 33, 40]) };
        let p = long_poly::<F>(r, n, deg, k);
        s.set(0, &p);
        let q = if r.chance(1, 2) { similar(r, &p, n) } else { long_poly(r, n, deg, k) };
        s.set(1, &q);
        s.obs(0);
        let fm = r.below(8);
        s.pp(0, 2, 0, 1, fm);
        s.pp(1, 3, 0, 1, fm);
        s.obs(3);
        s.pp(1, 4, 0, 0, fm);
        s.obs(4);
        s.unary(0, 4, 0, fm);
        s.pp(0, 4, 0, 4, fm);
        s.obs(4);
        let c = F::nonzero(r);
        s.scalar(0, 4, 0, c, fm);
        s.scalar(1, 4, 4, c, fm);
        for _ in 0..2 {
            let mut t = p.terms.get(r.below(k)).cloned().unwrap_or(Term::one());
            t.coef = if r.chance(1, 3) { -t.coef } else { F::nonzero(r) };
            s.pt(r.below(3), 5, 0, &t, fm);
            s.obs(5);
            let u = rand_term::<F>(r, n, 3);
            s.pt(3, 5, 1, &u, fm);
        }
        // products, and squares, that collapse or do not
        let (ka, kb) = *r.pick(&[(3, 30), (12, 12), (1, 40), (20, 5), (8, 9), (1, 140), (70, 2), (17, 17)]);
        let a = if n == 1 && r.chance(1, 2) {
            Polynomial { terms: (0..ka).map(|i| Term { coef: F::nonzero(r), mdeg: mono(vec![i as u8]) }).collect() }
        } else {
            long_poly(r, n, deg.min(100), ka)
        };
        let b = if n == 1 && r.chance(1, 2) {
            Polynomial { terms: (0..kb).map(|i| Term { coef: F::nonzero(r), mdeg: mono(vec![i as u8]) }).collect() }
        } else {
            long_poly(r, n, deg.min(100), kb)
        };
        s.set(2, &a);
        s.set(3, &b);
        s.pp(2, 4, 2, 3, fm);
        s.pp(2, 5, 3, 2, fm + 1);
        s.pp(1, 4, 4, 5, fm);
        s.obs(4);
        if ka < 13 {
            s.pp(2, 4, 2, 2, fm);
        }
        // few of the products of terms reach the limit of the exponents, or exceed it
        if n <= 6 && ka * kb < 200 {
            let v = r.below(n);
            let top = *r.pick(&[255u8, 254, 200, 130, 128]);
            let a = high(r, &a, v, top);
            let most = b.terms.iter().map(|t| t.mdeg.0.get(v).copied().unwrap_or(0)).max().unwrap_or(0);
            let low = (255 - top).saturating_add(r.below(3) as u8);
            let b = if r.chance(1, 2) { high(r, &b, v, most.max(low)) } else { b };
            s.set(2, &a);
            s.set(3, &b);
            s.pp(2, 4, 2, 3, fm);
            s.pp(2, 4, 3, 2, fm + 1);
            if ka < 13 {
                s.pp(2, 5, 2, 2, fm);
            }
            if kb < 13 {
                s.pp(2, 5, 3, 3, fm + 1);
            }
        }
    }
}

/// all polynomials over GF(p) with monomials from a list
fn all_polys<F: Fe>(p: i64, monos: &[Vec<u8>]) -> Vec<Polynomial<F>> {
    let mut out = vec![Polynomial { terms: vec![] }];
    for m in monos {
        let mut next = vec![];
        for q in &out {
            for c in 0..p {
                let mut q = q.clone();
                if c != 0 {
                    q.terms.push(Term { coef: F::int(c), mdeg: mono(m.clone()) });
                }
                next.push(q);
            }
        }
        out = next;
    }
    out
}

fn ring_exhaustive<F: Fe>(rec: &mut Rec, p: i64, monos: &[Vec<u8>]) {
    let all = all_polys::<F>(p, monos);
    for (i, f) in all.iter().enumerate() {
        let mut s = Polys::<F>::new(rec);
        s.set(0, f);
        for (j, g) in all.iter().enumerate() {
            s.set(1, g);
            s.pp(0, 2, 0, 1, i + j);
            s.obs(2);
            s.pp(1, 3, 0, 1, i + j + 1);
            s.obs(3);
            s.pp(2, 4, 0, 1, i + j + 2);
            s.obs(4);
        }
    }
}

pub fn ring(rec: &mut Rec, r: &mut Rng) {
    ring_exhaustive::<Gf<2>>(rec, 2, &[vec![], vec![1], vec![0, 1], vec![1, 1]]);
    ring_exhaustive::<Gf<3>>(rec, 3, &[vec![], vec![1], vec![2]]);
    let mut k = 0;
    while !rec.full() {
        k += 1;
        over_fields!(r, k % 8, ring_history, rec, r, 30);
        if k % 2 == 0 {
            over_exact_fields!(k / 2 % 6, clean_history, rec, r);
        }
        if k % 6 == 0 {
            over_exact_fields!(k / 6 % 6, long_ring_history, rec, r);
        }
    }
}

/// C07: cleanliness through division, S-polynomials, sorting and bases
fn clean_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let mut s = Polys::<F>::new(rec);
    let n = r.range(1, 3) as usize;
    for d in 0..4 {
        let p = rand_poly(r, n, 3, 4);
        s.set(d, &p);
    }
    for _ in 0..8 {
        let k = r.below(4);
        let (d, a, b) = (r.below(RING), r.below(RING), r.below(RING));
        match r.below(4) {
            0 => over_orders!(s, k, spoly, a, b, false),
            1 => over_orders!(s, k, sort, a),
            2 => {
                let gs = [a, b];
                over_orders!(s, k, divide, d, r.below(4), &gs, false)
            }
            _ => {
                s.pp(r.below(2), d, a, b, k);
            }
        }
        s.obs(d);
        s.trim(r, d, n);
    }
    let k = 2 + r.below(2);
    for d in 0..2 {
        let p = rand_poly(r, n.min(2), 2, 3);
        s.set(d, &p);
    }
    over_orders!(s, k, basis, &[0, 1]);
}

// -------------------------------------------------------------------- C09

fn eval_history<F: Fe>(rec: &mut Rec, r: &mut Rng, len: usize) {
    let mut s = Polys::<F>::new(rec);
    let n = r.range(1, 3) as usize;
    let float = F::CODE == 0 && F::NAME != "Rational";
    for _ in 0..len {
        // a point, and everything built here is evaluated at it
        let extra = r.below(3);
        let x: Vec<F> = (0..n + extra)
            .map(|_| {
                if F::NAME == "f32" {
                    F::int(r.range(-2, 2))
                } else if F::CODE == 0 {
                    if r.chance(1, 2) { F::int(r.range(-3, 3)) } else { F::int(r.range(-3, 3)) / F::int(2) }
                } else {
                    F::wide(r)
                }
            })
            .collect();
        for d in 0..2 {
            let p = rand_poly(r, n, 3, 4);
            s.set(d, &p);
            s.eval(d, &x, true);
        }
        s.pp(0, 2, 0, 1, 0);
        s.pp(1, 3, 0, 1, 0);
        s.pp(2, 4, 0, 1, 0);
        for d in 2..5 {
            let tame = d < 4 && !float;
            s.eval(d, &x, tame);
        }
        let c = F::small(r);
        s.scalar(0, 5, 0, c, 0);
        s.eval(5, &x, !float);
        s.consts(r, 5, n);
        if s.reg[5].terms.iter().all(|t| t.mdeg.0.len() <= n && total(&t.mdeg) <= 4) {
            s.eval(5, &x, !float);
        }
        let mut t = rand_term::<F>(r, n, 4);
        s.term_eval(&t, &x, !float);
        // 0^0, high degrees, too few coordinates, the empty point
        let z: Vec<F> = vec![F::ZERO; n];
        s.eval(0, &z, true);
        s.eval(1, &x[..r.below(n + 1)], true);
        s.eval(0, &[], true);
        t.mdeg = mono((0..n).map(|_| r.below(256) as u8).collect());
        let y: Vec<F> = (0..n).map(|_| if F::CODE == 0 { F::int(r.range(-1, 1)) } else { F::wide(r) }).collect();
        s.term_eval(&t, &y, true);
        s.term_eval(&t, &y[..n - 1], true);
    }
}

/// many variables, long polynomials, high degrees, at points where the values stay small
fn long_eval_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let mut s = Polys::<F>::new(rec);
    for _ in 0..4 {
        let n = *r.pick(&[1usize, 2, 5, 6, 8, 9, 12, 17, 33, 65]);
        let deg = *r.pick(&[1, 2, 7, 30, 255]);
        let k = *r.pick(&[1, 6, 12, 16, 25, 40, 70, 130]);
        let p = long_poly::<F>(r, n, deg, k);
        s.set(0, &p);
        for round in 0..3 {
            let extra = r.below(4);
            let x: Vec<F> = (0..n + extra)
                .map(|i| {
                    if F::CODE != 0 {
                        F::wide(r)
                    } else if i >= n {
                        F::int(r.range(-90, 90))
                    } else if round == 0 && i + 1 == n && deg <= 7 {
                        F::int(r.range(-3, 3))
                    } else {
                        F::int(r.range(-1, 1))
                    }
                })
                .collect();
            // few and small coefficients: every partial sum is small as well
            s.eval(0, &x, true);
            if let Some(t) = p.terms.first() {
                s.term_eval(&t.clone(), &x, true);
            }
            let cut = r.below(n + 1);
            s.eval(0, &x[..cut], true);
        }
    }
}

pub fn evaluation(rec: &mut Rec, r: &mut Rng) {
    let mut k = 0;
    while !rec.full() {
        k += 1;
        over_fields!(r, k % 8, eval_history, rec, r, 4);
        if k % 4 == 0 {
            over_fields!(r, k / 4 % 8, long_eval_history, rec, r);
        }
    }
}

// -------------------------------------------------------------------- C10

fn divide_history<F: Fe>(rec: &mut Rec, r: &mut Rng, len: usize) {
    let mut s = Polys::<F>::new(rec);
    let n = r.range(1, 3) as usize;
    let float = F::CODE == 0 && F::NAME != "Rational";
    for _ in 0..len {
        let k = r.below(4);
        let deg = if n == 1 { 8 } else if n == 2 { 6 } else { 4 };
        let f = rand_poly::<F>(r, n, deg, 6);
        s.set(0, &f);
        let m = r.below(4);
        for i in 0..m {
            let gdeg = 1 + r.below(3);
            let mut g = rand_poly::<F>(r, n, gdeg, 3);
            if float {
                // dividing by the leading coefficient is exact
                for t in g.terms.iter_mut() {
                    t.coef = F::unit(r);
                }
            }
            if F::NAME == "Rational" && r.chance(2, 3) {
                for t in g.terms.iter_mut() {
                    t.coef = F::int(r.range(1, 3));
                }
            }
            if r.chance(1, 10) {
                g.terms.clear();
            }
            if r.chance(1, 12) {
                g = Polynomial { terms: vec![Term { coef: F::unit(r), mdeg: mono(vec![]) }] };
            }
            s.set(1 + i, &g);
        }
        let gs: Vec<usize> = (0..m).map(|i| if r.chance(1, 8) { 1 } else { i + 1 }).collect();
        if r.chance(1, 3) && m > 0 {
            // a multiple of a divisor, plus something
            s.pp(2, 4, 0, gs[0], 0);
            s.pp(0, 0, 4, gs[m - 1], 0);
            if s.reg[0].terms.len() > 14 || (F::CODE == 0 && s.reg[0].terms.iter().any(|t| !t.coef.tame())) {
                s.set(0, &f);
            }
        }
        over_orders!(s, k, divide, 5, 0, &gs, true);
        // dividing the remainder again, and by the divisors in another order
        over_orders!(s, k, divide, 4, 5, &gs, true);
        let mut gs2 = gs.clone();
        r.shuffle(&mut gs2);
        over_orders!(s, k, divide, 4, 0, &gs2, true);
        if float {
            // arbitrary coefficients: up to rounding
            for i in 1..=m {
                let mut g = s.reg[i].clone();
                for t in g.terms.iter_mut() {
                    t.coef = F::int(r.range(1, 60)) / if F::NAME == "f64" { F::int(r.range(1, 60)) } else { F::ONE };
                }
                s.set(i, &g);
            }
            if F::NAME == "f64" {
                over_orders!(s, k, divide, 5, 0, &gs, false);
            }
        }
    }
}

/// long dividends, many divisors, high degrees
fn long_divide_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let mut s = Polys::<F>::new(rec);
    let small = |r: &mut Rng, p: Polynomial<F>| {
        let mut p = p;
        if F::CODE == 0 {
            for t in p.terms.iter_mut() {
                t.coef = F::int(*r.pick(&[-2, -1, 1, 1, 2]));
            }
        }
        p
    };
    for _ in 0..3 {
        let k = r.below(4);
        let n = *r.pick(&[1usize, 1, 2, 3, 4, 5, 6]);
        let (f, m) = if n == 1 {
            let deg = *r.pick(&[10, 20, 40, 200]);
            let terms = if deg == 200 { 6 } else { 20 };
            (long_poly::<F>(r, 1, deg, terms), *r.pick(&[1usize, 1, 2, 5, 8]))
        } else {
            let deg = *r.pick(&[4, 6, 8]);
            let mut f = rand_poly::<F>(r, n, deg, 24);
            if r.chance(1, 4) {
                f = rand_poly(r, n, deg, 12);
            }
            (f, r.below(9))
        };
        let f = small(r, f);
        s.set(0, &f);
        for i in 0..m {
            let g = if n == 1 {
                // keep the number of steps in check: divisors of high degree dominate
                let deg = if f.terms.iter().any(|t| total(&t.mdeg) > 60) { r.range(40, 120) } else { r.range(3, 30) } as u8;
                let mut ts = vec![Term { coef: F::int(1), mdeg: mono(vec![deg]) }];
                for _ in 0..r.below(4) {
                    let e = r.below(deg as usize) as u8;
                    let mdeg = mono(vec![e]);
                    if ts.iter().all(|t| t.mdeg != mdeg) {
                        ts.push(Term { coef: F::nonzero(r), mdeg });
                    }
                }
                r.shuffle(&mut ts);
                Polynomial { terms: ts }
            } else {
                let gdeg = 1 + r.below(4);
                let (vars, len) = (1 + r.below(n), 1 + r.below(6));
                rand_poly(r, vars, gdeg, len)
            };
            let mut g = small(r, g);
            if F::CODE == 0 {
                // exact quotients
                for t in g.terms.iter_mut() {
                    if !t.coef.is_one() {
                        t.coef = F::int(-1);
                    }
                }
            }
            s.set(1 + i, &g);
        }
        let mut gs: Vec<usize> = (1..=m).collect();
        if r.chance(1, 4) {
            r.shuffle(&mut gs);
        }
        // without a graded order, the degrees grow with every variable
        let k = if n > 2 && k < 2 { k + 2 } else { k };
        over_orders!(s, k, divide, 10, 0, &gs, true);
        over_orders!(s, k, divide, 11, 10, &gs, true);
        if m > 1 {
            gs.rotate_left(1);
            over_orders!(s, k, divide, 11, 0, &gs, true);
            over_orders!(s, k, divide, 11, 0, &gs[1..], true);
        }
    }
}

fn divide_exhaustive(rec: &mut Rec) {
    // every f of a box by every pair of small divisors, over GF(2)
    let fs = all_polys::<Gf<2>>(2, &[vec![], vec![1], vec![0, 1], vec![1, 1], vec![2]]);
    let gs = all_polys::<Gf<2>>(2, &[vec![], vec![1], vec![0, 1]]);
    for (i, g1) in gs.iter().enumerate() {
        for (j, g2) in gs.iter().enumerate() {
            let mut s = Polys::<Gf<2>>::new(rec);
            s.set(1, g1);
            s.set(2, g2);
            for f in &fs {
                s.set(0, f);
                over_orders!(s, i + j, divide, 5, 0, &[1, 2], true);
            }
        }
    }
}

pub fn division(rec: &mut Rec, r: &mut Rng) {
    divide_exhaustive(rec);
    // over floats, a residue of an eliminated leading term
    let mut s = Polys::<f64>::new(rec);
    for c in 1..200 {
        let x = |c: f64, k: u8| Term { coef: c, mdeg: mono(vec![k]) };
        s.set(0, &Polynomial { terms: vec![x(1.0, 2), x(3.0, 0)] });
        s.set(1, &Polynomial { terms: vec![x(c as f64, 1), x(0.1, 0)] });
        s.divide::<Lex>(5, 0, &[1], false);
    }
    let mut k = 0;
    while !rec.full() {
        k += 1;
        over_fields!(r, k % 8, divide_history, rec, r, 8);
        if k % 3 == 0 {
            over_fields!(r, k / 3 % 8, long_divide_history, rec, r);
        }
    }
}

// -------------------------------------------------------------------- C11

fn lead_history<F: Fe>(rec: &mut Rec, r: &mut Rng, len: usize) {
    let mut s = Polys::<F>::new(rec);
    let float = F::CODE == 0 && F::NAME != "Rational";
    for _ in 0..len {
        let n = r.range(1, 4) as usize;
        let k = r.below(4);
        for d in 0..3 {
            let deg = if r.chance(1, 3) { 12 } else { 4 };
            let p = rand_poly(r, n, deg, 5);
            s.set(d, &p);
            over_orders!(s, k, lead, d);
            over_orders!(s, k + 1, lead, d);
            over_orders!(s, k, sort, d);
        }
        if float {
            for d in 0..2 {
                let mut p = s.reg[d].clone();
                for t in p.terms.iter_mut() {
                    t.coef = F::unit(r);
                }
                s.set(d, &p);
            }
        }
        over_orders!(s, k, spoly, 0, 1, true);
        over_orders!(s, k, spoly, 1, 0, true);
        over_orders!(s, k + 1, spoly, 0, 0, true);
        if float {
            // arbitrary coefficients: the leading terms cancel
            for d in 0..2 {
                let mut p = s.reg[d].clone();
                for t in p.terms.iter_mut() {
                    t.coef = F::int(r.range(1, 99));
                }
                s.set(d, &p);
            }
            over_orders!(s, k, spoly, 0, 1, false);
        }
        over_orders!(s, k, spoly, 0, 4, true);
        over_orders!(s, k, spoly, 4, 1, true);
        for _ in 0..4 {
            let mut t1 = rand_term::<F>(r, n, 6);
            let mut t2 = rand_term::<F>(r, n, 3);
            if float {
                t2.coef = if t2.coef.is_zero() { t2.coef } else { F::unit(r) };
            }
            match r.below(6) {
                0 => {
                    // a multiple
                    t1.mdeg = mono((0..n).map(|i| t2.mdeg.0.get(i).copied().unwrap_or(0) + r.below(3) as u8).collect())
                }
                1 => t1.mdeg = t2.mdeg.clone(),
                2 => t1.mdeg = mono((0..n).map(|_| r.below(256) as u8).collect()),
                3 => t2.mdeg = mono((0..n).map(|_| r.below(256) as u8).collect()),
                _ => {}
            }
            s.term_obs(&t1, &t2);
            s.term_obs(&t2, &t1);
            s.try_div(&t1, &t2, true);
            over_orders!(s, k, lcm, &t1, &t2);
        }
    }
}

/// long polynomials in many variables with high exponents
fn long_lead_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let mut s = Polys::<F>::new(rec);
    for _ in 0..3 {
        let (n, deg) = *r.pick(&[(1, 255), (2, 120), (3, 80), (5, 50), (8, 20), (12, 1), (30, 1), (70, 3)]);
        for d in 0..3 {
            let k = *r.pick(&[2, 7, 12, 20, 35, 50, 65, 130]);
            let p = long_poly::<F>(r, n, deg, k);
            s.set(d, &p);
            let o = r.below(4);
            over_orders!(s, o, lead, d);
            over_orders!(s, o + 1, lead, d);
            over_orders!(s, o, sort, d);
            over_orders!(s, o + 2, sort, d);
        }
        let o = r.below(4);
        over_orders!(s, o, spoly, 0, 1, false);
        over_orders!(s, o + 1, spoly, 2, 1, false);
        over_orders!(s, o, spoly, 2, 2, false);
        for _ in 0..6 {
            let mut t1 = Term { coef: F::unit(r), mdeg: mono((0..n).map(|_| r.below(deg + 1) as u8).collect()) };
            let mut t2 = Term { coef: F::unit(r), mdeg: mono((0..n).map(|_| r.below(deg / 2 + 1) as u8).collect()) };
            match r.below(4) {
                // a multiple, or one up to a single variable
                0 | 1 => {
                    let mut v: Vec<u8> = (0..n)
                        .map(|i| (t2.mdeg.0.get(i).copied().unwrap_or(0)).saturating_add(r.below(3) as u8))
                        .collect();
                    if r.chance(1, 2) {
                        let i = r.below(n);
                        v[i] = v[i].saturating_sub(1 + r.below(3) as u8);
                    }
                    t1.mdeg = mono(v)
                }
                2 => {
                    // few variables, far out
                    let i = r.below(n);
                    t2.mdeg = mono((0..=i).map(|j| if j == i { r.below(deg + 1) as u8 } else { 0 }).collect());
                }
                _ => {}
            }
            s.term_obs(&t1, &t2);
            s.term_obs(&t2, &t1);
            s.try_div(&t1, &t2, true);
            let o = r.below(4);
            over_orders!(s, o, lcm, &t1, &t2);
            over_orders!(s, o, lcm, &t2, &t1);
        }
    }
}

pub fn leading(rec: &mut Rec, r: &mut Rng) {
    let mut k = 0;
    while !rec.full() {
        k += 1;
        over_fields!(r, k % 8, lead_history, rec, r, 5);
        if k % 3 == 0 {
            over_fields!(r, k / 3 % 8, long_lead_history, rec, r);
        }
    }
}

// ---------------------------------------------------------------- C12-C14

/// generators whose basis computation stays small
fn rand_gens<F: Fe>(r: &mut Rng) -> Vec<Polynomial<F>> {
    let t = |c: i64, v: &[u8]| Term { coef: F::int(c), mdeg: mono(v.to_vec()) };
    let p = |ts: Vec<Term<F>>| Polynomial { terms: ts.into_iter().filter(|t| !t.coef.is_zero()).collect() };
    match r.below(14) {
        // textbook systems
        0 => vec![p(vec![t(1, &[3]), t(-2, &[1, 1])]), p(vec![t(1, &[2, 1]), t(-2, &[0, 2]), t(1, &[1])])],
        1 => vec![p(vec![t(1, &[2]), t(1, &[0, 1])]), p(vec![t(1, &[1, 1]), t(-1, &[])])],
        2 => vec![
            p(vec![t(1, &[1]), t(1, &[0, 1]), t(1, &[0, 0, 1])]),
            p(vec![t(1, &[1, 1]), t(1, &[0, 1, 1]), t(1, &[1, 0, 1])]),
            p(vec![t(1, &[1, 1, 1]), t(-1, &[])]),
        ],
        3 => vec![
            p(vec![t(1, &[2]), t(1, &[0, 1]), t(1, &[0, 0, 1]), t(-1, &[])]),
            p(vec![t(1, &[1]), t(1, &[0, 2]), t(1, &[0, 0, 1]), t(-1, &[])]),
        ],
        // linear systems
        4 => {
            let n = r.range(1, 4) as usize;
            (0..r.range(1, 4)).map(|_| rand_poly(r, n, 1, 4)).collect()
        }
        // monomial ideals
        5 => (0..r.range(1, 5)).map(|_| p(vec![Term { coef: F::nonzero(r), mdeg: rand_mono(r, 3, 4) }])).collect(),
        // binomials
        6 => (0..r.range(1, 3))
            .map(|_| {
                let (a, b) = (rand_mono(r, 2, 4), rand_mono(r, 2, 3));
                if a == b {
                    p(vec![Term { coef: F::ONE, mdeg: a }])
                } else {
                    p(vec![Term { coef: F::nonzero(r), mdeg: a }, Term { coef: F::nonzero(r), mdeg: b }])
                }
            })
            .collect(),
        // one variable: greatest common divisors
        7 => (0..r.range(1, 3)).map(|_| rand_poly(r, 1, 6, 4)).collect(),
        // principal
        8 => vec![rand_poly(r, 3, 4, 5)],
        // three variables, sparse quadrics
        9 => (0..r.range(1, 3)).map(|_| rand_poly(r, 3, 2, 2)).collect(),
        // with zeros and repetitions
        10 => {
            let f = rand_poly::<F>(r, 2, 2, 3);
            vec![Polynomial::zero(), f.clone(), f, Polynomial::zero()]
        }
        11 => vec![],
        _ => {
            let deg = r.range(1, 3) as usize;
            (0..r.range(1, 3)).map(|_| rand_poly(r, 2, deg, 3)).collect()
        }
    }
}

/// more generators, more variables, higher degrees, of kinds whose bases stay manageable
fn many_gens<F: Fe>(r: &mut Rng) -> Vec<Polynomial<F>> {
    let t = |c: i64, v: &[u8]| Term { coef: F::int(c), mdeg: mono(v.to_vec()) };
    let p = |ts: Vec<Term<F>>| {
        let mut out: Vec<Term<F>> = vec![];
        for t in ts {
            if !t.coef.is_zero() && out.iter().all(|u| u.mdeg != t.mdeg) {
                out.push(t)
            }
        }
        Polynomial { terms: out }
    };
    let unit = |i: usize, e: u8| {
        let mut v = vec![0u8; i + 1];
        v[i] = e;
        mono(v)
    };
    match r.below(13) {
        // long polynomials few of whose terms can be reduced
        10 | 11 => {
            let e = r.range(7, 20) as u8;
            let k = *r.pick(&[5, 7, 8, 9, 12, 16, 17, 24]);
            let mut ts = vec![Term { coef: F::ONE, mdeg: unit(0, e) }];
            for i in 0..k {
                let m = if i == 0 || r.chance(1, 10) {
                    mono(vec![r.below(e as usize - 4) as u8, 2])
                } else {
                    mono(vec![r.below(e as usize) as u8])
                };
                if ts.iter().all(|t| t.mdeg != m) {
                    ts.push(Term { coef: F::small(r), mdeg: m });
                }
            }
            match r.below(3) {
                0 => ts.reverse(),
                1 => r.shuffle(&mut ts),
                _ => {
                    let t = ts.remove(1);
                    ts.push(t);
                }
            }
            let mut v = vec![p(ts), p(vec![t(1, &[0, 2]), Term { coef: F::small(r), mdeg: mono(vec![]) }])];
            if r.chance(1, 2) {
                v.push(p(vec![t(1, &[0, 0, 3]), t(r.range(-1, 1), &[0, 0, 1]), t(1, &[])]));
            }
            r.shuffle(&mut v);
            v
        }
        // many generators
        9 => match r.below(4) {
            0 => (0..r.range(12, 34)).map(|_| p(vec![Term { coef: F::nonzero(r), mdeg: mono((0..6).map(|_| r.below(4) as u8).collect()) }])).collect(),
            1 => {
                let n = r.range(9, 18) as usize;
                (0..r.range(9, 20))
                    .map(|_| {
                        let mut v: Vec<_> = (0..3).map(|_| Term { coef: F::int(*r.pick(&[1, -1])), mdeg: unit(r.below(n), 1) }).collect();
                        v.push(t(r.range(0, 1), &[]));
                        p(v)
                    })
                    .collect()
            }
            2 => {
                let n = r.range(9, 30) as usize;
                (0..n).map(|i| p(vec![Term { coef: F::ONE, mdeg: unit(i, r.range(1, 3) as u8) }, Term { coef: F::small(r), mdeg: mono(vec![]) }])).collect()
            }
            _ => {
                // all monomials of a degree
                let deg = r.range(2, 5) as usize;
                let mut v = vec![];
                for i in 0..=deg {
                    for j in 0..=deg - i {
                        v.push(p(vec![Term { coef: F::nonzero(r), mdeg: mono(vec![i as u8, j as u8, (deg - i - j) as u8]) }]));
                    }
                }
                v
            }
        },
        // linear systems, with dependent equations
        0 => {
            let n = r.range(3, 7) as usize;
            let m = r.range(3, 9);
            (0..m)
                .map(|_| {
                    let mut v: Vec<_> = (0..n).map(|i| Term { coef: F::int(r.range(-1, 1)), mdeg: unit(i, 1) }).collect();
                    v.push(t(r.range(0, 1), &[]));
                    p(v)
                })
                .collect()
        }
        // monomial ideals, high degrees
        1 => {
            let deg = *r.pick(&[3, 9, 60]);
            (0..r.range(4, 11)).map(|_| p(vec![Term { coef: F::nonzero(r), mdeg: mono((0..5).map(|_| r.below(deg) as u8).collect()) }])).collect()
        }
        // one variable
        2 => {
            (0..r.range(3, 6)).map(|_| rand_poly(r, 1, 12, 5)).collect()
        }
        // powers of the variables: a basis already, whatever the order; and one polynomial more
        3 => {
            let n = r.range(3, 8) as usize;
            let mut v: Vec<_> = (0..n).map(|i| p(vec![Term { coef: F::ONE, mdeg: unit(i, r.range(1, 3) as u8) }, Term { coef: F::small(r), mdeg: mono(vec![]) }])).collect();
            if r.chance(1, 2) {
                v.push(p(vec![Term { coef: F::ONE, mdeg: mono(vec![1, 1]) }, t(-1, &[])]));
            }
            v
        }
        // boolean variables
        4 => {
            let n = r.range(2, 4) as usize;
            let mut v: Vec<_> = (0..n).map(|i| p(vec![Term { coef: F::ONE, mdeg: unit(i, 2) }, Term { coef: -F::ONE, mdeg: unit(i, 1) }])).collect();
            let mut ts: Vec<_> = (0..n).map(|i| Term { coef: F::small(r), mdeg: unit(i, 1) }).collect();
            ts.push(t(r.range(-2, 2), &[]));
            v.push(p(ts));
            v
        }
        // differences of monomials
        5 => (0..r.range(2, 4))
            .map(|_| p(vec![Term { coef: F::ONE, mdeg: rand_mono(r, 4, 3) }, Term { coef: -F::ONE, mdeg: rand_mono(r, 4, 2) }]))
            .collect(),
        // minors of a 2 x 3 matrix of variables
        6 => vec![
            p(vec![t(1, &[1, 0, 0, 0, 1]), t(-1, &[0, 1, 0, 1])]),
            p(vec![t(1, &[1, 0, 0, 0, 0, 1]), t(-1, &[0, 0, 1, 1])]),
            p(vec![t(1, &[0, 1, 0, 0, 0, 1]), t(-1, &[0, 0, 1, 0, 1])]),
        ],
        // symmetric functions in four variables, homogenized differently
        7 => vec![
            p(vec![t(1, &[1]), t(1, &[0, 1]), t(1, &[0, 0, 1]), t(1, &[0, 0, 0, 1])]),
            p(vec![t(1, &[1, 1]), t(1, &[0, 1, 1]), t(1, &[0, 0, 1, 1]), t(1, &[1, 0, 0, 1])]),
            p(vec![t(1, &[2]), t(1, &[0, 2]), t(-1, &[])]),
        ],
        // katsura
        _ => vec![
            p(vec![t(1, &[1]), t(2, &[0, 1]), t(2, &[0, 0, 1]), t(-1, &[])]),
            p(vec![t(1, &[2]), t(2, &[0, 2]), t(2, &[0, 0, 2]), t(-1, &[1])]),
            p(vec![t(2, &[1, 1]), t(2, &[0, 1, 1]), t(-1, &[0, 1])]),
        ],
    }
}

/// another list of generators of the same ideal, made with the harness's own term arithmetic on
/// values only where that is trivial: permuted, scaled, repeated, with zeros
fn disguise<F: Fe>(r: &mut Rng, gens: &[Polynomial<F>]) -> Vec<Polynomial<F>> {
    let mut g: Vec<Polynomial<F>> = gens
        .iter()
        .map(|p| {
            let c = F::nonzero(r);
            Polynomial { terms: p.terms.iter().map(|t| Term { coef: t.coef * c, mdeg: t.mdeg.clone() }).collect() }
        })
        .collect();
    if !g.is_empty() && r.chance(1, 2) {
        g.push(g[r.below(g.len())].clone());
    }
    if r.chance(1, 4) {
        g.push(Polynomial::zero());
    }
    r.shuffle(&mut g);
    for p in g.iter_mut() {
        r.shuffle(&mut p.terms);
    }
    g.truncate(NREG);
    g
}

fn load<F: Fe>(s: &mut Polys<F>, gens: &[Polynomial<F>]) -> Vec<usize> {
    for (i, g) in gens.iter().take(NREG).enumerate() {
        s.set(i, g);
    }
    (0..gens.len().min(NREG)).collect()
}

fn criterion_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let gens = if r.chance(1, 6) { many_gens::<F>(r) } else { rand_gens::<F>(r) };
    let k = r.below(4);
    let mut s = Polys::<F>::new(rec);
    let is = load(&mut s, &gens);
    over_orders!(s, k, crit, &is);
    // the basis the library computes (whatever it is), and variations of it
    if over_orders!(s, k, basis, &is) {
        let g = s.basis.clone();
        if g.len() > NREG {
            return;
        }
        let v = disguise(r, &g);
        let is = load(&mut s, &v);
        over_orders!(s, k, crit, &is);
        over_orders!(s, k + 1 + r.below(3), crit, &is);
        // without one of them
        if v.len() > 1 {
            over_orders!(s, k, crit, &is[1..]);
        }
        // with a generator of the ideal more
        if v.len() < NREG && !gens.is_empty() {
            let f = gens[r.below(gens.len())].clone();
            s.set(v.len(), &f);
            let mut is = is.clone();
            is.push(v.len());
            r.shuffle(&mut is);
            over_orders!(s, k, crit, &is);
        }
        // with a changed coefficient or term
        if !v.is_empty() {
            let i = r.below(v.len());
            let f = similar(r, &v[i], 2);
            s.set(i, &f);
            over_orders!(s, k, crit, &is);
        }
    }
}

fn basis_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let gens = if r.chance(1, 6) { many_gens::<F>(r) } else { rand_gens::<F>(r) };
    let k = r.below(4);
    let mut s = Polys::<F>::new(rec);
    let is = load(&mut s, &gens);
    if !over_orders!(s, k, basis, &is) {
        return;
    }
    let b = s.basis.clone();
    // again, from the result
    if b.len() <= NREG {
        let mut v = b.clone();
        r.shuffle(&mut v);
        let is = load(&mut s, &v);
        if !over_orders!(s, k, basis, &is) {
            return;
        }
    }
    // from other generators of the same ideal
    let v = disguise(r, &gens);
    let is = load(&mut s, &v);
    over_orders!(s, k, basis, &is);
    // and with a redundant one: a combination of two
    if !s.dead && gens.len() >= 1 && gens.len() < 10 {
        let is = load(&mut s, &gens);
        let t = rand_term::<F>(r, 2, 2);
        s.pt(3, 10, 0, &t, 0);
        s.pp(0, 11, 10, gens.len() - 1, 0);
        let mut is2 = is.clone();
        is2.push(11);
        r.shuffle(&mut is2);
        over_orders!(s, k, basis, &is2);
    }
}

fn normal_form_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let gens = if r.chance(1, 6) { many_gens::<F>(r) } else { rand_gens::<F>(r) };
    let k = r.below(4);
    let mut s = Polys::<F>::new(rec);
    let is = load(&mut s, &gens);
    if !over_orders!(s, k, basis, &is) {
        return;
    }
    let n = *r.pick(&[3, 3, 2, 5]);
    for round in 0..4 {
        // two polynomials, their sum, and an element of the ideal
        let f = rand_poly(r, n, 4, 4);
        let g = rand_poly(r, n, 3, 3);
        s.set(0, &f);
        s.set(1, &g);
        s.pp(0, 2, 0, 1, 0);
        let h = if gens.is_empty() { Polynomial::zero() } else { gens[r.below(gens.len())].clone() };
        s.set(3, &h);
        if round % 2 == 0 {
            let q = rand_poly(r, n, 2, 2);
            s.set(4, &q);
            s.pp(2, 3, 3, 4, 0);
        }
        s.pp(0, 4, 0, 3, 0);
        over_orders!(s, k, nf, r, 3, 3);
        over_orders!(s, k, nf, r, 4, 4);
        over_orders!(s, k, nf, r, 2, 2);
        over_orders!(s, k, nf, r, 0, 0);
        over_orders!(s, k, nf, r, 1, 1);
        // f + g and NF f + NF g; idempotence
        s.pp(0, 5, 0, 1, 0);
        over_orders!(s, k, nf, r, 5, 5);
        over_orders!(s, k, nf, r, 0, 0);
        // products of normal forms
        s.pp(2, 5, 0, 1, 0);
        over_orders!(s, k, nf, r, 5, 5);
    }
}

/// C12, C13, C14
pub fn bases(rec: &mut Rec, r: &mut Rng, prop: &str) {
    if prop == "C13" {
        // every pair of polynomials over GF(2) on four monomials, two orders
        let all = all_polys::<Gf<2>>(2, &[vec![1], vec![0, 1], vec![1, 1], vec![]]);
        for (i, f) in all.iter().enumerate() {
            let mut s = Polys::<Gf<2>>::new(rec);
            s.set(0, f);
            for (j, g) in all.iter().enumerate() {
                s.set(1, g);
                if !over_orders!(s, i + j, basis, &[0, 1]) {
                    break;
                }
            }
        }
    }
    if prop == "C12" {
        let all = all_polys::<Gf<2>>(2, &[vec![2], vec![1], vec![0, 1], vec![]]);
        for (i, f) in all.iter().enumerate() {
            let mut s = Polys::<Gf<2>>::new(rec);
            s.set(0, f);
            for (j, g) in all.iter().enumerate() {
                s.set(1, g);
                over_orders!(s, i + j, crit, &[0, 1]);
            }
        }
    }
    let mut k = 0;
    while !rec.full() {
        k += 1;
        match prop {
            "C12" => over_exact_fields!(k % 6, criterion_history, rec, r),
            "C13" => over_exact_fields!(k % 6, basis_history, rec, r),
            _ => over_exact_fields!(k % 6, normal_form_history, rec, r),
        }
    }
}

fn dec_t<F: Fe>(j: &J) -> Term<F> {
    Term { coef: F::dec(&j.arr()[0]), mdeg: mono(j.arr()[1].mono()) }
}

impl<'a, F: Fe> Polys<'a, F> {
    fn ordered<O: Named>(&mut self, e: &J) {
        let tame = e.u0("tame") == 1;
        match e.op() {
            "p.sort" => self.sort::<O>(e.u("a")),
            "p.lead" => self.lead::<O>(e.u("a")),
            "p.spoly" => self.spoly::<O>(e.u("a"), e.u("b"), tame),
            "p.divide" => self.divide::<O>(e.u("d"), e.u("a"), &e.us("gs"), tame),
            "t.lcm" => self.lcm::<O>(&dec_t(e.get("s")), &dec_t(e.get("t"))),
            "g.crit" => self.crit::<O>(&e.us("gs")),
            "g.basis" => {
                self.basis::<O>(&e.us("gs"));
            }
            "g.nf" => {
                let mut g = self.basis.clone();
                let n = g.len().max(1);
                g.rotate_left(e.u("a") % n);
                self.nf_by::<O>(e.u("d"), e.u("a"), g)
            }
            op => panic!("unknown call {}", op),
        }
    }

    fn call(&mut self, e: &J) {
        let fm = e.u0("fm");
        if let Some(o) = e.opt("ord") {
            return match o.str() {
                "lex" => self.ordered::<Lex>(e),
                "revlex" => self.ordered::<RevLex>(e),
                "grlex" => self.ordered::<GrLex>(e),
                "grevlex" => self.ordered::<GRevLex>(e),
                o => panic!("unknown order {}", o),
            };
        }
        let t = |k: &str| dec_t::<F>(e.get(k));
        match e.op() {
            "p.new" => {
                let terms: Vec<Term<F>> = e.get("ts").arr().iter().map(dec_t).collect();
                let ts = olist(terms.iter(), enc_t).unwrap();
                self.put("p.new", &format!("\"ts\":{}", ts), e.u("d"), move || Polynomial::new(terms));
            }
            "p.add" => {
                self.pp(0, e.u("d"), e.u("a"), e.u("b"), fm);
            }
            "p.sub" => {
                self.pp(1, e.u("d"), e.u("a"), e.u("b"), fm);
            }
            "p.mul" => {
                self.pp(2, e.u("d"), e.u("a"), e.u("b"), fm);
            }
            "p.addt" => self.pt(0, e.u("d"), e.u("a"), &t("t"), fm),
            "p.subt" => self.pt(1, e.u("d"), e.u("a"), &t("t"), fm),
            "p.tsub" => self.pt(2, e.u("d"), e.u("a"), &t("t"), fm),
            "p.tmul" => self.pt(3, e.u("d"), e.u("a"), &t("t"), fm),
            "t.add" => self.tt(0, e.u("d"), &t("s"), &t("t"), fm),
            "t.sub" => self.tt(1, e.u("d"), &t("s"), &t("t"), fm),
            "t.mul" => self.tt(2, e.u("d"), &t("s"), &t("t"), fm),
            "p.neg" => self.unary(0, e.u("d"), e.u("a"), fm),
            "p.copy" => self.unary(1, e.u("d"), e.u("a"), fm),
            "p.scale" => self.scalar(0, e.u("d"), e.u("a"), F::dec(e.get("c")), fm),
            "p.div" => self.scalar(1, e.u("d"), e.u("a"), F::dec(e.get("c")), fm),
            "p.const" => self.make_const(e.u("d"), F::dec(e.get("c"))),
            "p.var" => self.var(e.u("d"), e.u("i"), e.u("k") as u8),
            "p.zero" | "p.one" | "t.one" => self.unit(e.op(), e.u("d"), fm),
            "p.fromt" | "t.new" | "t.neg" => self.of_term(e.op(), e.u("d"), t("t"), fm),
            "p.obs" => self.obs(e.u("a")),
            "t.obs" => self.term_obs(&t("s"), &t("t")),
            "t.div" => self.try_div(&t("s"), &t("t"), e.u0("tame") == 1),
            "p.eval" | "t.eval" => {
                let x: Vec<F> = e.get("x").arr().iter().map(F::dec).collect();
                let tame = e.u0("tame") == 1;
                if e.op() == "p.eval" {
                    self.eval(e.u("a"), &x, tame)
                } else {
                    self.term_eval(&t("t"), &x, tame)
                }
            }
            op => panic!("unknown call {}", op),
        }
    }
}

/// a script over polynomial registers
pub fn replay<F: Fe>(rec: &mut Rec, calls: &[J]) {
    let mut s = Polys::<F>::new(rec);
    for e in calls {
        s.call(e);
        if s.dead {
            return;
        }
    }
}
