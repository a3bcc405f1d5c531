//! Traces over matrices (C15-C19).

use crate::fields::*;
use crate::json::J;
use crate::rec::*;
use crate::rng::Rng;
use algeo::core::num::Rational;
use algeo::linalg::mat::Mat;
use algeo::core::num::EpsilonEquality;

pub const NREG: usize = 6;

const VIEWS: [&str; 6] = ["v.row", "v.col", "v.rowlist", "v.collist", "v.rowmut", "v.colmut"];

pub fn enc_mat<F: Fe>(m: &Mat<F>) -> Option<String> {
    Some(format!("{{\"r\":{},\"c\":{},\"e\":{}}}", m.rows(), m.cols(), olist(m.entries(), |x| x.enc())?))
}

pub struct Mats<'a, F: Fe> {
    rec: &'a mut Rec,
    pub reg: Vec<Mat<F>>,
}

impl<'a, F: Fe> Mats<'a, F> {
    pub fn new(rec: &'a mut Rec) -> Self {
        rec.begin();
        Mats { rec, reg: vec![Mat::new(0, 0, vec![]); NREG] }
    }

    fn head(&self, op: &str, rest: &str) -> String {
        format!("\"op\":\"{}\",\"F\":{},\"T\":\"{}\",{}", op, F::CODE, F::NAME, rest)
    }

    fn put(&mut self, op: &str, rest: &str, d: usize, f: impl FnOnce() -> Mat<F>) -> bool {
        let head = self.head(op, &format!("{},\"d\":{}", rest, d));
        let mut res = None;
        let ok = self.rec.ev(&head, || {
            let m = f();
            let s = enc_mat(&m)?;
            res = Some(m);
            Some(s)
        });
        if ok {
            self.reg[d] = res.unwrap();
        }
        ok
    }

    pub fn set(&mut self, d: usize, m: &Mat<F>) {
        let rest = format!("\"m\":{}", enc_mat(m).unwrap());
        let (r, c, e) = (m.rows(), m.cols(), m.entries().to_vec());
        self.put("m.new", &rest, d, || Mat::new(r, c, e));
    }

    fn add(&mut self, d: usize, a: usize, b: usize, fm: usize) {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        self.put("m.add", &format!("\"a\":{},\"b\":{},\"fm\":{}", a, b, fm), d, || match fm % 4 {
            0 => &x + &y,
            1 => &x + y,
            2 => x + &y,
            _ => x + y,
        });
    }

    fn mul(&mut self, d: usize, a: usize, b: usize, fm: usize) -> bool {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        self.put("m.mul", &format!("\"a\":{},\"b\":{},\"fm\":{}", a, b, fm), d, || match fm % 4 {
            0 => &x * &y,
            1 => &x * y,
            2 => x * &y,
            _ => x * y,
        })
    }

    fn scal(&mut self, d: usize, a: usize, c: F, fm: usize) {
        let mut x = self.reg[a].clone();
        self.put("m.scal", &format!("\"a\":{},\"x\":{},\"fm\":{}", a, c.enc().unwrap(), fm), d, || match fm % 4 {
            0 => &x * c,
            1 => x * c,
            2 => {
                x *= c;
                x
            }
            _ => {
                x.scale(c);
                x
            }
        });
    }

    fn transpose(&mut self, d: usize, a: usize) {
        let x = self.reg[a].clone();
        self.put("m.tr", &format!("\"a\":{}", a), d, || x.transpose());
    }

    fn constants(&mut self, r: &mut Rng, d: usize, top: usize) {
        match r.below(4) {
            0 => self.identity(d, r.below(top)),
            1 => self.zero(d, r.below(top), r.below(top)),
            2 => {
                let n = 1 + r.below(top);
                self.basis_vec(d, n, r.below(n))
            }
            _ => {
                let es: Vec<F> = (0..r.below(2 * top)).map(|_| F::small(r)).collect();
                self.of_iter(d, es)
            }
        }
    }
    fn identity(&mut self, d: usize, n: usize) {
        self.put("m.id", &format!("\"n\":{}", n), d, || Mat::identity(n));
    }
    fn zero(&mut self, d: usize, n: usize, k: usize) {
        self.put("m.zero", &format!("\"n\":{},\"k\":{}", n, k), d, || Mat::zero(n, k));
    }
    fn basis_vec(&mut self, d: usize, n: usize, k: usize) {
        self.put("m.e", &format!("\"n\":{},\"k\":{}", n, k), d, || Mat::e(k, n));
    }
    fn of_iter(&mut self, d: usize, es: Vec<F>) {
        let rest = format!("\"es\":{}", olist(&es, |x| x.enc()).unwrap());
        self.put("m.iter", &rest, d, || Mat::from(es.into_iter()));
    }

    /// registers that hold vectors, as rows or columns
    fn stack(&mut self, d: usize, regs: &[usize], rows: bool) {
        let vs: Vec<Mat<F>> = regs.iter().map(|&i| self.reg[i].clone()).collect();
        let rest = format!("\"as\":{}", nums(regs));
        if rows {
            self.put("m.rows", &rest, d, || Mat::from_row_vectors(&vs));
        } else {
            self.put("m.cols", &rest, d, || Mat::from_col_vectors(&vs));
        }
    }

    fn set_entry(&mut self, a: usize, i: usize, j: usize, x: F, fm: usize) {
        let mut m = self.reg[a].clone();
        self.put("m.set", &format!("\"a\":{},\"i\":{},\"j\":{},\"x\":{}", a, i, j, x.enc().unwrap()), a, || {
            if fm % 2 == 0 {
                m[(i, j)] = x;
            } else {
                *m.get_mut_unchecked(i, j) = x;
            }
            m
        });
    }

    fn get(&mut self, a: usize, i: usize, j: usize) {
        let m = self.reg[a].clone();
        let h = self.head("m.get", &format!("\"a\":{},\"i\":{},\"j\":{}", a, i, j));
        self.rec.ev(&h, || Some(format!("[{},{}]", m[(i, j)].enc()?, m.get_unchecked(i, j).enc()?)));
    }

    fn dot(&mut self, a: usize, b: usize) {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        let h = self.head("m.dot", &format!("\"a\":{},\"b\":{}", a, b));
        self.rec.ev(&h, || x.dot(&y).enc());
    }

    fn frob(&mut self, a: usize) {
        let x = self.reg[a].clone();
        let h = self.head("m.frob", &format!("\"a\":{}", a));
        self.rec.ev(&h, || x.frobenius_norm().enc());
    }

    fn obs(&mut self, a: usize, b: usize) {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        let h = self.head("m.obs", &format!("\"a\":{},\"b\":{}", a, b));
        self.rec.ev(&h, || {
            Some(format!(
                "{{\"eq\":{},\"up\":{},\"low\":{},\"idx\":{}}}",
                (x == y) as u8,
                x.is_upper_triangular() as u8,
                x.is_lower_triangular() as u8,
                list(x.index_iter(), |(i, j)| format!("[{},{}]", i, j))
            ))
        });
        self.mat_eps(a, b);
    }

    fn mat_eps(&mut self, a: usize, b: usize) {
        let (x, y) = (self.reg[a].clone(), self.reg[b].clone());
        let h = self.head("m.eps", &format!("\"a\":{},\"b\":{}", a, b));
        self.rec.ev(&h, || Some((x.epsilon_equals(&y) as u8).to_string()));
    }

    fn eps(&mut self, x: F, y: F) {
        let h = self.head("f.eps", &format!("\"x\":{},\"y\":{}", x.enc().unwrap(), y.enc().unwrap()));
        self.rec.ev(&h, || Some((x.epsilon_equals(&y) as u8).to_string()));
    }

    // ------------------------------------------------------------- rows

    fn row_op(&mut self, k: usize, d: usize, a: usize, i: usize, j: usize, x: F) {
        let mut m = self.reg[a].clone();
        let rest = format!("\"a\":{},\"i\":{},\"j\":{},\"x\":{}", a, i, j, x.enc().unwrap());
        match k {
            0 => self.put("r.scale", &rest, d, || {
                m.scale_row(i, x);
                m
            }),
            1 => self.put("r.swap", &rest, d, || {
                m.permute_rows(i, j);
                m
            }),
            _ => self.put("r.add", &rest, d, || {
                m.replace_row(i, j, x);
                m
            }),
        };
    }

    fn elem(&mut self, k: usize, d: usize, n: usize, i: usize, j: usize, x: F) {
        let rest = format!("\"n\":{},\"i\":{},\"j\":{},\"x\":{}", n, i, j, x.enc().unwrap());
        match k {
            0 => self.put("e.scale", &rest, d, || Mat::scale_mat(n, i, x)),
            1 => self.put("e.swap", &rest, d, || Mat::permutation(n, i, j)),
            _ => self.put("e.add", &rest, d, || Mat::replacement(n, i, j, x)),
        };
    }

    fn perm(&mut self, r: &mut Rng, d: usize, n: usize) {
        let mut p: Vec<usize> = (0..n).collect();
        r.shuffle(&mut p);
        self.perm_of(d, p);
    }

    fn perm_of(&mut self, d: usize, p: Vec<usize>) {
        self.put("e.perm", &format!("\"p\":{}", nums(&p)), d, || Mat::permutation_from_vec(p));
    }

    fn entry_swap(&mut self, a: usize, i: usize, j: usize, k: usize, l: usize) {
        let mut m = self.reg[a].clone();
        self.put("m.swap", &format!("\"a\":{},\"i\":{},\"j\":{},\"k\":{},\"l\":{}", a, i, j, k, l), a, || {
            m.swap((i, j), (k, l));
            m
        });
    }

    fn views(&mut self, r: &mut Rng, d: usize, a: usize, i: usize, j: usize) {
        let k = r.below(6);
        let n = if k == 4 { self.reg[a].cols() } else { self.reg[a].rows() };
        let es = (0..n).map(|_| F::small(r)).collect();
        self.view(VIEWS[k], d, a, i, j, es)
    }

    /// `es` is what is written through the mutable views
    fn view(&mut self, op: &str, d: usize, a: usize, i: usize, j: usize, es: Vec<F>) {
        let mut m = self.reg[a].clone();
        let rest = format!("\"a\":{},\"i\":{},\"j\":{}", a, i, j);
        let with = format!("{},\"es\":{}", rest, olist(&es, |x| x.enc()).unwrap());
        match op {
            "v.row" => {
                self.put(op, &rest, d, || m.get_row(i));
            }
            "v.col" => {
                self.put(op, &rest, d, || m.get_col(j));
            }
            "v.rowlist" => {
                let h = self.head(op, &rest);
                self.rec.ev(&h, || olist(m.get_row_iter(i), |x| x.enc()));
            }
            "v.collist" => {
                let h = self.head(op, &rest);
                self.rec.ev(&h, || olist(m.get_col_iter(j), |x| x.enc()));
            }
            "v.rowmut" => {
                self.put(op, &with, d, || {
                    // every entry of the row, and no other, is handed out, in order
                    let mut n = 0;
                    for (k, x) in m.get_row_iter_mut(i).enumerate() {
                        *x = es[k];
                        n += 1;
                    }
                    assert_eq!(n, es.len());
                    m
                });
            }
            _ => {
                self.put(op, &with, d, || {
                    let mut n = 0;
                    for (k, x) in m.get_col_iter_mut(j).enumerate() {
                        *x = es[k];
                        n += 1;
                    }
                    assert_eq!(n, es.len());
                    m
                });
            }
        }
    }

    // ------------------------------------------------------ elimination

    pub fn lu(&mut self, a: usize) {
        let m = self.reg[a].clone();
        let h = self.head("l.lu", &format!("\"a\":{}", a));
        self.rec.ev(&h, || {
            let d = m.lu();
            Some(format!("{{\"p\":{},\"l\":{},\"u\":{}}}", enc_mat(&d.p)?, enc_mat(&d.l)?, enc_mat(&d.u)?))
        });
    }

    pub fn forms(&mut self, a: usize) {
        self.echelon(a);
        self.rref(a);
    }

    fn echelon(&mut self, a: usize) {
        let m = self.reg[a].clone();
        let h = self.head("l.ech", &format!("\"a\":{}", a));
        self.rec.ev(&h, || {
            let f = m.row_echelon();
            #[cfg(algeo_verif)]
            let (p, b) = {
                let (p, b) = f.verif_parts();
                (format!("[{}]", enc_mat(p)?), format!("[{}]", enc_mat(b)?))
            };
            #[cfg(not(algeo_verif))]
            let (p, b) = ("[]", "[]");
            Some(format!("{{\"rank\":{},\"nullity\":{},\"p\":{},\"b\":{}}}", f.rank(), f.nullity(), p, b))
        });
    }

    fn rref(&mut self, a: usize) {
        let m = self.reg[a].clone();
        let h = self.head("l.rref", &format!("\"a\":{}", a));
        self.rec.ev(&h, || {
            let f = m.row_echelon().to_rref();
            #[cfg(algeo_verif)]
            let (p, b) = {
                let (p, b) = f.verif_parts();
                (format!("[{}]", enc_mat(p)?), format!("[{}]", enc_mat(b)?))
            };
            #[cfg(not(algeo_verif))]
            let (p, b) = ("[]", "[]");
            Some(format!("{{\"rank\":{},\"nullity\":{},\"p\":{},\"b\":{}}}", f.rank(), f.nullity(), p, b))
        });
    }

    fn pivot(&mut self, a: usize, i: usize, j: usize) {
        let m = self.reg[a].clone();
        let h = self.head("l.piv", &format!("\"a\":{},\"i\":{},\"j\":{}", a, i, j));
        self.rec.ev(&h, || {
            olist(m.get_stable_column_index_under_row(j, i).iter(), |(k, x)| Some(format!("[{},{}]", k, x.enc()?)))
        });
    }

    fn zero_rows(&mut self, a: usize) {
        let m = self.reg[a].clone();
        let h = self.head("l.zrows", &format!("\"a\":{}", a));
        self.rec.ev(&h, || Some(m.zero_rows().to_string()));
    }

    /// all pivot searches of a matrix, if it is small
    fn pivots(&mut self, a: usize) {
        self.zero_rows(a);
        let (m, n) = (self.reg[a].rows(), self.reg[a].cols());
        let step = 1 + m * n / 12;
        for k in (0..m * n).step_by(step) {
            self.pivot(a, k / n, k % n);
        }
    }

    pub fn bases(&mut self, a: usize) {
        let m = self.reg[a].clone();
        let h = self.head("l.bases", &format!("\"a\":{}", a));
        self.rec.ev(&h, || {
            let f = m.row_echelon().to_rref();
            Some(format!(
                "{{\"ker\":{},\"ran\":{}}}",
                olist(f.compute_kernel().iter(), enc_mat)?,
                olist(f.compute_range().iter(), enc_mat)?
            ))
        });
    }
}

macro_rules! over_types {
    ($k:expr, $f:ident, $($arg:expr),*) => {
        match $k {
            0 => $f::<Gf<2>>($($arg),*),
            1 => $f::<Gf<3>>($($arg),*),
            2 => $f::<Gf<7>>($($arg),*),
            3 => $f::<Gf<32003>>($($arg),*),
            4 => $f::<Rational>($($arg),*),
            5 => $f::<f64>($($arg),*),
            _ => $f::<f32>($($arg),*),
        }
    };
}

fn shape(r: &mut Rng) -> usize {
    match r.below(12) {
        0 => 0,
        1 | 2 => 1,
        3..=5 => 2,
        6..=8 => 3,
        9 | 10 => 4,
        _ => 5,
    }
}

/// beyond what hand-written cases reach
fn large(r: &mut Rng) -> usize {
    *r.pick(&[1, 4, 5, 6, 7, 8, 9, 11])
}

pub fn rand_mat<F: Fe>(r: &mut Rng, m: usize, n: usize) -> Mat<F> {
    let mut a = Mat::new(m, n, (0..m * n).map(|_| F::small(r)).collect());
    if r.chance(1, 2) {
        return a;
    }
    // of a special form: only some entries may differ from zero, or rows and columns are related
    let form = r.below(9);
    let band = r.below(3);
    for i in 0..m {
        for j in 0..n {
            let keep = match form {
                0 => i <= j,
                1 => i >= j,
                2 => i == j,
                3 => i.max(j) - i.min(j) <= band,
                4 => i + j == n,
                5 => r.chance(1, 4),
                _ => true,
            };
            if !keep {
                a[(i, j)] = F::ZERO;
            }
        }
    }
    match form {
        2 if r.chance(1, 2) => {
            for i in 0..m.min(n) {
                a[(i, i)] = F::ONE;
            }
        }
        6 => {
            // symmetric
            for i in 0..m.min(n) {
                for j in 0..i {
                    a[(i, j)] = a[(j, i)];
                }
            }
        }
        7 => {
            // one row is another one
            if m > 1 {
                let (i, k) = (r.below(m), r.below(m));
                for j in 0..n {
                    a[(i, j)] = a[(k, j)];
                }
            }
        }
        8 => {
            // constant
            let c = F::small(r);
            for i in 0..m {
                for j in 0..n {
                    a[(i, j)] = c;
                }
            }
        }
        _ => {}
    }
    a
}

// ---------------------------------------------------------------- C15, C16

fn algebra_history<F: Fe>(rec: &mut Rec, r: &mut Rng, len: usize) {
    let mut s = Mats::<F>::new(rec);
    let mut dims = [shape(r), shape(r), shape(r)];
    let big = r.chance(1, 6);
    let room = if big { 130 } else { 25 };
    if big {
        dims = [large(r), large(r), shape(r)];
    }
    if r.chance(1, 3) {
        dims[1] = dims[0];
    }
    for d in 0..NREG {
        let (m, n) = (dims[r.below(3)], dims[r.below(3)]);
        s.set(d, &rand_mat(r, m, n));
    }
    for _ in 0..len {
        let (d, a, b) = (r.below(NREG), r.below(NREG), r.below(NREG));
        let fm = r.below(12);
        let x = F::small(r);
        match r.below(14) {
            0 | 1 => s.add(d, a, b, fm),
            2 | 3 => {
                s.mul(d, a, b, fm);
            }
            4 => {
                // shapes that fit
                let (m, n) = (s.reg[a].cols(), if big { large(r) } else { shape(r) });
                let v = rand_mat(r, m, n);
                s.set(b, &v);
                s.mul(d, a, b, fm);
            }
            5 => s.scal(d, a, x, fm),
            6 => s.transpose(d, a),
            7 => s.constants(r, d, if big { 12 } else { 5 }),
            8 => {
                let n = if big { large(r) } else { r.range(1, 4) as usize };
                let k = r.range(1, NREG as i64) as usize;
                for i in 0..k {
                    let v = rand_mat(r, n, 1);
                    s.set(i, &v);
                }
                let regs: Vec<usize> = (0..r.range(1, if big { 9 } else { 4 })).map(|_| r.below(k)).collect();
                let rows = r.chance(1, 2);
                s.stack(d, &regs, rows);
            }
            9 => {
                let (m, n) = (s.reg[a].rows(), s.reg[a].cols());
                if m * n > 0 {
                    let (i, j) = (r.below(m), r.below(n));
                    s.set_entry(a, i, j, x, fm);
                    s.get(a, i, j);
                    let (i, j) = (r.below(m), r.below(n));
                    s.get(a, i, j);
                }
            }
            10 => {
                let (m, n) = (s.reg[a].rows(), s.reg[a].cols());
                let v = rand_mat(r, m, n);
                s.set(b, &v);
                s.dot(a, b);
                s.frob(a);
                s.obs(a, b);
                s.add(d, a, b, fm);
            }
            11 => {
                // equal but for one entry, or one shape
                let mut v = s.reg[a].clone();
                if v.rows() * v.cols() > 0 && r.chance(1, 2) {
                    let (i, j) = (r.below(v.rows()), r.below(v.cols()));
                    v[(i, j)] = F::small(r);
                } else if r.chance(1, 2) {
                    v = Mat::new(v.cols(), v.rows(), v.entries().to_vec());
                }
                s.set(b, &v);
                s.obs(a, b);
                s.obs(b, a);
            }
            12 => {
                // triangular, but for one entry
                let (m, n) = if big { (large(r), large(r)) } else { (shape(r), shape(r)) };
                let mut v = rand_mat::<F>(r, m, n);
                let lower = r.chance(1, 2);
                for i in 0..m {
                    for j in 0..n {
                        if if lower { j > i } else { j < i } {
                            v[(i, j)] = F::ZERO;
                        }
                    }
                }
                if m * n > 0 && r.chance(1, 2) {
                    let (i, j) = (r.below(m), r.below(n));
                    v[(i, j)] = F::small(r);
                }
                s.set(a, &v);
                s.obs(a, b);
            }
            _ => {
                // (A B)^T = B^T A^T, from the same registers
                if s.mul(4, a, b, fm) {
                    s.transpose(5, 4);
                    s.transpose(2, a);
                    s.transpose(3, b);
                    s.mul(4, 3, 2, fm + 1);
                    s.obs(4, 5);
                }
            }
        }
        if F::CODE == 0 && r.chance(1, 6) {
            // rounding is judged elsewhere
            let y = F::small(r);
            s.eps(x, y);
            s.eps(x, x);
            let e = (1..*r.pick(&[1, 4, 9, 10, 30, 60])).fold(F::ONE, |e, _| e / F::int(2));
            if F::NAME != "Rational" {
                s.eps(x, x + e);
                s.eps(e, F::ZERO);
                s.eps(-e, F::ZERO);
            }
        }
        for d in 0..NREG {
            let v = &s.reg[d];
            if v.rows() * v.cols() > room || v.entries().iter().any(|x| !x.tame() || (F::NAME == "Rational" && !small_rat(x))) {
                let v = rand_mat(r, dims[0], dims[1]);
                s.set(d, &v);
            }
        }
    }
}

fn small_rat<F: Fe>(x: &F) -> bool {
    // judged by the text: numerators and denominators of at most two digits
    let t = format!("{}", x);
    t.trim_start_matches('-').split('/').all(|p| p.len() <= 2)
}

pub fn algebra(rec: &mut Rec, r: &mut Rng) {
    let mut k = 0;
    while !rec.full() {
        k += 1;
        over_types!(k % 7, algebra_history, rec, r, 25);
        if k % 9 == 0 {
            over_types!(k / 9 % 7, huge_algebra_history, rec, r);
        }
    }
}

/// sizes at which a clever implementation might change its ways
fn huge(r: &mut Rng) -> (usize, usize) {
    *r.pick(&[(12, 12), (16, 16), (17, 17), (18, 14), (20, 20), (3, 33), (33, 3), (40, 6), (1, 65), (65, 1), (64, 4), (2, 70), (130, 1), (1, 130), (0, 40), (40, 0)])
}

/// a few operations on large matrices
fn huge_algebra_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let mut s = Mats::<F>::new(rec);
    let fm = r.below(12);
    let (m, n) = huge(r);
    s.set(0, &rand_mat(r, m, n));
    let mut v = if r.chance(1, 2) { rand_mat(r, m, n) } else { s.reg[0].clone() };
    if m * n > 0 && r.chance(1, 2) {
        v[(r.below(m), r.below(n))] = F::small(r);
    }
    s.set(1, &v);
    s.obs(0, 1);
    s.add(2, 0, 1, fm);
    s.dot(0, 1);
    s.frob(0);
    let x = F::small(r);
    s.scal(2, 2, x, fm);
    s.transpose(3, 0);
    s.mul(2, 3, 1, fm);
    if m <= 40 {
        s.mul(3, 1, 3, fm);
    }
    let k = *r.pick(&[1, 2, 5, 17]);
    s.set(2, &rand_mat(r, n, k));
    s.mul(3, 0, 2, fm + 1);
    if m * n > 0 {
        for _ in 0..4 {
            let (i, j) = (r.below(m), r.below(n));
            let x = F::small(r);
            s.set_entry(0, i, j, x, fm);
            s.get(0, i, j);
            s.get(0, r.below(m), r.below(n));
        }
        let es = (0..r.range(30, 140)).map(|_| F::small(r)).collect();
        s.of_iter(2, es);
        let k = r.range(1, 4) as usize;
        for i in 0..k {
            s.set(i, &rand_mat(r, m.max(n), 1));
        }
        let regs: Vec<usize> = (0..r.range(1, 40)).map(|_| r.below(k)).collect();
        let rows = r.chance(1, 2);
        s.stack(3, &regs, rows);
        s.identity(3, m.min(40));
        s.basis_vec(3, n, r.below(n));
        // triangular, but for one entry
        let lower = r.chance(1, 2);
        let mut v = rand_mat::<F>(r, m, n);
        for i in 0..m {
            for j in 0..n {
                if if lower { j > i } else { j < i } {
                    v[(i, j)] = F::ZERO;
                }
            }
        }
        s.set(3, &v);
        s.obs(3, 3);
        v[(r.below(m), r.below(n))] = F::small(r);
        s.set(3, &v);
        s.obs(3, 3);
    }
}

fn rows_history<F: Fe>(rec: &mut Rec, r: &mut Rng, len: usize) {
    let mut s = Mats::<F>::new(rec);
    let big = r.chance(1, 5);
    let dim = |r: &mut Rng| if big { large(r) } else { shape(r).max(1) };
    let (m, n) = (dim(r), dim(r));
    s.set(0, &rand_mat(r, m, n));
    for _ in 0..len {
        let (m, n) = (s.reg[0].rows(), s.reg[0].cols());
        let (i, j) = (r.below(m), if r.chance(1, 5) { r.below(m) } else { (r.below(m) + 1) % m });
        let j = if r.chance(1, 6) { i } else { j };
        let x = F::small(r);
        match r.below(7) {
            0 | 1 | 2 => {
                // in place, and by the elementary matrix
                let k = r.below(3);
                s.row_op(k, 1, 0, i, j, x);
                s.elem(k, 2, m, i, j, x);
                s.mul(3, 2, 0, r.below(4));
                s.obs(1, 3);
                // and go on with it
                s.row_op(k, 0, 0, i, j, x);
            }
            3 => {
                s.perm(r, 2, m);
                s.mul(0, 2, 0, r.below(4));
            }
            4 => {
                let (c1, c2) = (r.below(n), r.below(n));
                s.entry_swap(0, i, c1, j, c2)
            }
            5 => {
                let c = r.below(n);
                s.views(r, 4, 0, i, c)
            }
            _ => {
                let c = r.below(n);
                let d = 0;
                // mutable views go back into the matrix
                s.views(r, 5, d, i, c);
                if s.reg[5].rows() == m && s.reg[5].cols() == n {
                    let v = s.reg[5].clone();
                    s.set(0, &v);
                }
            }
        }
        if r.chance(1, 8) || s.reg[0].entries().iter().any(|x| !x.tame() || (F::NAME == "Rational" && !small_rat(x))) {
            let (m, n) = (dim(r), dim(r));
            s.set(0, &rand_mat(r, m, n));
        }
    }
}

pub fn rows(rec: &mut Rec, r: &mut Rng) {
    let mut k = 0;
    while !rec.full() {
        k += 1;
        over_types!(k % 7, rows_history, rec, r, 25);
        if k % 9 == 0 {
            over_types!(k / 9 % 7, huge_rows_history, rec, r);
        }
    }
}

/// row operations and views of large matrices
fn huge_rows_history<F: Fe>(rec: &mut Rec, r: &mut Rng) {
    let mut s = Mats::<F>::new(rec);
    let (m, n) = huge(r);
    let (m, n) = (m.max(1).min(65), n.max(1));
    s.set(0, &rand_mat(r, m, n));
    for k in 0..3 {
        let (i, j, x) = (r.below(m), r.below(m), F::small(r));
        s.row_op(k, 1, 0, i, j, x);
        if m <= 40 {
            s.elem(k, 2, m, i, j, x);
            s.mul(3, 2, 0, r.below(4));
            s.obs(1, 3);
        }
        let (c1, c2) = (r.below(n), r.below(n));
        s.entry_swap(0, i, c1, j, c2);
        let c = r.below(n);
        s.views(r, 4, 0, i, c);
    }
    if m <= 40 {
        s.perm(r, 2, m);
        s.mul(0, 2, 0, 0);
    }
}

// ------------------------------------------------------------ C17, C18, C19

fn int_mat<F: Fe>(m: usize, n: usize, e: &[i64]) -> Mat<F> {
    Mat::new(m, n, e.iter().map(|&x| F::int(x)).collect())
}

/// matrices of every rank and shape; over floats, such that exact arithmetic is possible or such
/// that nothing is nearly singular, most of the time
fn any_mat<F: Fe>(r: &mut Rng) -> Mat<F> {
    let float = F::CODE == 0 && F::NAME != "Rational";
    let big = !float && r.chance(1, 5);
    let (m, n) = if big { (large(r), large(r)) } else { (shape(r), shape(r)) };
    if r.chance(1, 12) {
        // long and narrow, with few entries
        let (m, n) = (r.range(6, 14) as usize, r.range(1, 3) as usize);
        let (m, n) = if r.chance(1, 3) { (n, m) } else { (m, n) };
        let mut a = int_mat::<F>(m, n, &vec![0; m * n]);
        for _ in 0..r.range(0, 4) {
            a[(r.below(m), r.below(n))] = F::int(*r.pick(&[1, -1, 2, 3]));
        }
        return a;
    }
    let top = if F::CODE != 0 { 40 } else if big { 1 } else { 4 };
    let mut e: Vec<i64> = vec![];
    match r.below(10) {
        0 | 1 => e.extend((0..m * n).map(|_| r.range(-top, top))),
        2 => e.extend((0..m * n).map(|_| r.range(-1, 1))),
        3 | 4 => {
            // of rank at most k
            let k = r.below(m.min(n) + 1);
            let a: Vec<i64> = (0..m * k).map(|_| r.range(-1, 1)).collect();
            let b: Vec<i64> = (0..k * n).map(|_| r.range(-1, 1)).collect();
            for i in 0..m {
                for j in 0..n {
                    e.push((0..k).map(|t| a[i * k + t] * b[t * n + j]).sum());
                }
            }
        }
        5 => e.extend((0..m * n).map(|_| if r.chance(1, 4) { r.range(-top, top) } else { 0 })),
        6 => {
            // rows and columns of zeros or repeated
            e.extend((0..m * n).map(|_| r.range(-top, top)));
            if m > 1 && n > 1 {
                let (a, b) = (r.below(m), r.below(m));
                let (c, d) = (r.below(n), r.below(n));
                for j in 0..n {
                    e[a * n + j] = e[b * n + j];
                }
                for i in 0..m {
                    e[i * n + c] = if a % 2 == 0 { 0 } else { e[i * n + d] };
                }
            }
        }
        _ => {
            // at most one 1 and one -1 in a column: all minors are 0, 1 or -1
            e = vec![0; m * n];
            if m > 0 {
                for j in 0..n {
                    match r.below(4) {
                        0 => e[r.below(m) * n + j] = 1,
                        1 => e[r.below(m) * n + j] = -1,
                        2 => {
                            e[r.below(m) * n + j] = 1;
                            e[r.below(m) * n + j] = -1;
                        }
                        _ => {
                            let k = r.below(m);
                            e[k * n + j] = 1;
                            e[(k + 1) % m * n + j] = if m > 1 { -1 } else { 1 };
                        }
                    }
                }
            }
            let mut a: Mat<F> = int_mat(m, n, &e);
            if F::CODE == 0 && r.chance(2, 3) {
                // rows and columns by powers of two
                for i in 0..m {
                    let c = F::int(*r.pick(&[1, 2, 4, -1, -2]));
                    for j in 0..n {
                        a[(i, j)] = a[(i, j)] * c;
                    }
                }
                for j in 0..n {
                    let c = F::int(*r.pick(&[1, 2, 4, -1]));
                    for i in 0..m {
                        a[(i, j)] = a[(i, j)] / c;
                    }
                }
            }
            return if r.chance(1, 3) { Mat::new(n, m, (0..m * n).map(|k| a[(k % m, k / m)]).collect()) } else { a };
        }
    }
    let a = int_mat(m, n, &e);
    if F::NAME == "Rational" && r.chance(1, 4) {
        // fractions
        return Mat::new(m, n, a.entries().iter().map(|&x| x / F::int(r.range(1, 4))).collect());
    }
    a
}

/// 2^-k
fn tiny<F: Fe>(k: usize) -> F {
    (0..k).fold(F::ONE, |x, _| x / F::int(2))
}

/// a float matrix with entries of very different magnitude
fn graded_mat<F: Fe>(r: &mut Rng) -> Mat<F> {
    let n = r.range(1, 4) as usize;
    let (m, n) = if r.chance(1, 4) { (r.range(1, 4) as usize, n) } else { (n, n) };
    let top = *r.pick(&[1, 1, 2, 5]);
    let mut a: Mat<F> = Mat::new(m, n, (0..m * n).map(|_| F::int(r.range(-top, top))).collect());
    let small = if F::NAME == "f32" { [4, 12, 18, 22, 23, 24, 40] } else { [8, 20, 30, 40, 51, 52, 54] };
    for _ in 0..r.below(4) {
        let (i, j) = (r.below(m), r.below(n));
        a[(i, j)] = F::int(*r.pick(&[1, -1, 3])) * tiny::<F>(*r.pick(&small));
    }
    if r.chance(1, 3) {
        // the first column, from which the first pivot is taken
        a[(0, 0)] = tiny::<F>(*r.pick(&small));
    }
    if r.chance(1, 4) {
        let (i, c) = (r.below(m), tiny::<F>(*r.pick(&[1, 3, 6])));
        for j in 0..n {
            a[(i, j)] = a[(i, j)] * c;
        }
    }
    a
}

fn elimination_history<F: Fe>(rec: &mut Rec, r: &mut Rng, prop: &str, len: usize) {
    let mut s = Mats::<F>::new(rec);
    for _ in 0..len {
        let a = if F::CODE == 0 && F::NAME != "Rational" && r.chance(1, 3) {
            graded_mat(r)
        } else if F::NAME == "f64" && r.chance(1, 6) {
            let (m, n) = (r.range(1, 3) as usize, r.range(1, 3) as usize);
            let e: Vec<i64> = (0..m * n).map(|_| r.range(-99, 99)).collect();
            int_mat(m, n, &e)
        } else {
            any_mat::<F>(r)
        };
        s.set(0, &a);
        s.one(prop);
    }
}

impl<'a, F: Fe> Mats<'a, F> {
    fn one(&mut self, prop: &str) {
        match prop {
            "C17" => self.lu(0),
            "C18" => self.forms(0),
            "C24" => self.pivots(0),
            _ => self.bases(0),
        }
    }
}

/// every matrix of a shape with entries from a list
fn every<F: Fe>(rec: &mut Rec, prop: &str, m: usize, n: usize, values: &[i64], step: usize) {
    let total = values.len().pow((m * n) as u32);
    let mut k = 0;
    while k < total {
        let mut s = Mats::<F>::new(rec);
        for _ in 0..64 {
            if k >= total {
                break;
            }
            let mut q = k;
            let e: Vec<i64> = (0..m * n)
                .map(|_| {
                    let v = values[q % values.len()];
                    q /= values.len();
                    v
                })
                .collect();
            s.set(0, &int_mat(m, n, &e));
            s.one(prop);
            k += step;
        }
    }
}

pub fn elimination(rec: &mut Rec, r: &mut Rng, prop: &str) {
    if prop == "C24" {
        // one matrix means many calls; the small ones are replayed from the specification
        every::<Gf<3>>(rec, prop, 2, 3, &[0, 1, 2], 17);
        every::<f32>(rec, prop, 3, 2, &[0, 1, -1], 17);
    } else {
        every_small(rec, prop);
    }
    let mut k = 0;
    while !rec.full() {
        k += 1;
        over_types!(k % 7, elimination_history, rec, r, prop, 12);
        if k % 50 == 0 && prop != "C24" {
            match k / 50 % 4 {
                0 => huge_elimination_history::<Gf<2>>(rec, r, prop),
                1 => huge_elimination_history::<Gf<3>>(rec, r, prop),
                2 => huge_elimination_history::<Gf<101>>(rec, r, prop),
                _ => huge_elimination_history::<Gf<32003>>(rec, r, prop),
            }
        }
    }
}

/// large matrices of any rank over finite fields
fn huge_elimination_history<F: Fe>(rec: &mut Rec, r: &mut Rng, prop: &str) {
    let mut s = Mats::<F>::new(rec);
    let (m, n) = *r.pick(&[(12, 12), (16, 16), (17, 17), (18, 10), (10, 18), (4, 33), (33, 4), (40, 2), (2, 66), (65, 1), (1, 130)]);
    let top = F::CODE as i64;
    let a = if r.chance(1, 2) {
        rand_mat(r, m, n)
    } else {
        let k = r.below(m.min(n) + 1);
        let a: Mat<F> = int_mat(m, k, &(0..m * k).map(|_| r.range(0, top)).collect::<Vec<_>>());
        let b: Mat<F> = int_mat(k, n, &(0..k * n).map(|_| r.range(0, top)).collect::<Vec<_>>());
        let mut c = int_mat(m, n, &vec![0; m * n]);
        for i in 0..m {
            for j in 0..n {
                for t in 0..k {
                    c[(i, j)] = c[(i, j)] + a[(i, t)] * b[(t, j)];
                }
            }
        }
        c
    };
    s.set(0, &a);
    s.one(prop);
}

fn every_small(rec: &mut Rec, prop: &str) {
    for m in 0..3 {
        for n in 0..4 {
            every::<Gf<2>>(rec, prop, m, n, &[0, 1], 1);
            every::<Gf<3>>(rec, prop, n, m, &[0, 1, 2], if m * n > 4 { 3 } else { 1 });
        }
    }
    every::<Gf<2>>(rec, prop, 3, 3, &[0, 1], 1);
    every::<Gf<2>>(rec, prop, 3, 4, &[0, 1], 7);
    every::<Rational>(rec, prop, 2, 3, &[0, 1, -2], 1);
    every::<Rational>(rec, prop, 3, 2, &[0, 2, -1], 1);
    every::<Rational>(rec, prop, 3, 3, &[0, 1, -1], 23);
    every::<f64>(rec, prop, 2, 2, &[0, 1, -2, 3], 1);
    every::<f64>(rec, prop, 3, 3, &[0, 1, 2], 29);
}

pub fn dec_mat<F: Fe>(j: &J) -> Mat<F> {
    Mat::new(j.u("r"), j.u("c"), j.get("e").arr().iter().map(F::dec).collect())
}

/// a script over matrix registers
pub fn replay<F: Fe>(rec: &mut Rec, calls: &[J]) {
    let mut s = Mats::<F>::new(rec);
    for e in calls {
        let fm = e.u0("fm");
        let x = || F::dec(e.get("x"));
        match e.op() {
            "m.new" => s.set(e.u("d"), &dec_mat(e.get("m"))),
            "m.add" => s.add(e.u("d"), e.u("a"), e.u("b"), fm),
            "m.mul" => {
                s.mul(e.u("d"), e.u("a"), e.u("b"), fm);
            }
            "m.scal" => s.scal(e.u("d"), e.u("a"), x(), fm),
            "m.tr" => s.transpose(e.u("d"), e.u("a")),
            "m.id" => s.identity(e.u("d"), e.u("n")),
            "m.zero" => s.zero(e.u("d"), e.u("n"), e.u("k")),
            "m.e" => s.basis_vec(e.u("d"), e.u("n"), e.u("k")),
            "m.iter" => s.of_iter(e.u("d"), e.get("es").arr().iter().map(F::dec).collect()),
            "m.rows" => s.stack(e.u("d"), &e.us("as"), true),
            "m.cols" => s.stack(e.u("d"), &e.us("as"), false),
            "m.set" => s.set_entry(e.u("a"), e.u("i"), e.u("j"), x(), fm),
            "m.get" => s.get(e.u("a"), e.u("i"), e.u("j")),
            "m.dot" => s.dot(e.u("a"), e.u("b")),
            "m.frob" => s.frob(e.u("a")),
            "m.obs" => s.obs(e.u("a"), e.u("b")),
            "m.eps" => s.mat_eps(e.u("a"), e.u("b")),
            "m.swap" => s.entry_swap(e.u("a"), e.u("i"), e.u("j"), e.u("k"), e.u("l")),
            "r.scale" => s.row_op(0, e.u("d"), e.u("a"), e.u("i"), e.u("j"), x()),
            "r.swap" => s.row_op(1, e.u("d"), e.u("a"), e.u("i"), e.u("j"), x()),
            "r.add" => s.row_op(2, e.u("d"), e.u("a"), e.u("i"), e.u("j"), x()),
            "e.scale" => s.elem(0, e.u("d"), e.u("n"), e.u("i"), e.u("j"), x()),
            "e.swap" => s.elem(1, e.u("d"), e.u("n"), e.u("i"), e.u("j"), x()),
            "e.add" => s.elem(2, e.u("d"), e.u("n"), e.u("i"), e.u("j"), x()),
            "e.perm" => s.perm_of(e.u("d"), e.us("p")),
            "l.lu" => s.lu(e.u("a")),
            "l.ech" => s.echelon(e.u("a")),
            "l.rref" => s.rref(e.u("a")),
            "l.bases" => s.bases(e.u("a")),
            "l.piv" => s.pivot(e.u("a"), e.u("i"), e.u("j")),
            "l.zrows" => s.zero_rows(e.u("a")),
            op if op.starts_with("v.") => {
                let es = e.opt("es").map_or(vec![], |j| j.arr().iter().map(F::dec).collect());
                s.view(op, e.u0("d"), e.u("a"), e.u("i"), e.u("j"), es)
            }
            op => panic!("unknown call {}", op),
        }
    }
}
