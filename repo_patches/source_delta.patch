From 86cdc3465d1e470f536fa9c3dddb740127a1c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 01/17] fix: keep sums and differences of rationals in simplest
 form

1/2 + 1/2 was 4/4, which compared unequal to 1.
---
 src/core/num/rat.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 2c94151..f7cf101 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -81,11 +81,7 @@ impl Add for Rational {
     fn add(self, other: Self) -> Self {
         let numer = self.numer * other.denom + other.numer * self.denom;
 
-        if numer.is_zero() {
-            Rational::ZERO
-        } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
-        }
+        Rational::new(numer, self.denom * other.denom)
     }
 }
 
@@ -101,11 +97,7 @@ impl Sub for Rational {
     fn sub(self, other: Self) -> Self {
         let numer = self.numer * other.denom - other.numer * self.denom;
 
-        if numer.is_zero() {
-            Rational::ZERO
-        } else {
-            Rational::new_unchecked(numer, self.denom * other.denom)
-        }
+        Rational::new(numer, self.denom * other.denom)
     }
 }
 
-- 
2.43.0


From 469e2730c39e75b5b8eb5fa4ad6df8e308d1644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 02/17] fix: normalize the sign of negative powers of rationals

(-1/2)^-1 was 2/-1, and 0^-1 was 1/0 instead of a panic.
---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index f7cf101..33a4123 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -47,7 +47,7 @@ impl Rational {
 
     pub fn pow(&self, exp: Integer) -> Self {
         if exp.is_neg() {
-            Self::new_unchecked(self.denom.pow(-exp), self.numer.pow(-exp))
+            Self::new(self.denom.pow(-exp), self.numer.pow(-exp))
         } else {
             Self::new_unchecked(self.numer.pow(exp), self.denom.pow(exp))
         }
-- 
2.43.0


From 7f221f70dd0ee900abd6c6d7ef7964b5b895caaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 03/17] fix: panic on the reciprocal of the rational zero

It was 0/0, as opposed to the panic of a division by zero.
---
 src/core/num/rat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/num/rat.rs b/src/core/num/rat.rs
index 33a4123..ce83546 100644
--- a/src/core/num/rat.rs
+++ b/src/core/num/rat.rs
@@ -64,7 +64,7 @@ impl Rational {
     }
 
     pub fn recip(&self) -> Self {
-        Self::new_unchecked(self.sgn() * self.denom, self.sgn() * self.numer)
+        Self::new(self.denom, self.numer)
     }
 }
 
-- 
2.43.0


From 121afbdd8f55a147b4c19cc885292020e93ad0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 04/17] fix: nonnegative lcm, and lcm(0, 0) = 0

lcm(-4, 6) was -12 and lcm(0, 0) divided by zero.
---
 src/core/num/int.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/num/int.rs b/src/core/num/int.rs
index e1d1617..3720b08 100644
--- a/src/core/num/int.rs
+++ b/src/core/num/int.rs
@@ -81,7 +81,14 @@ impl Integer {
     /// 
     /// That is, the smallest nonnegative integer which both divide.
     pub fn lcm(a: Integer, b: Integer) -> Integer {
-        a / Self::gcd(a, b) * b
+        let gcd = Self::gcd(a, b);
+
+        if gcd == Integer(0) {
+            // `a` and `b` are both zero
+            gcd
+        } else {
+            (a / gcd * b).abs()
+        }
     }
 }
 
-- 
2.43.0


From c8c3d2681025658d3d53df4120b950c60e55215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 05/17] fix: trim_zeros empties an all-zero multidegree

---
 src/poly/mdeg.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/poly/mdeg.rs b/src/poly/mdeg.rs
index ac36512..fcb9275 100644
--- a/src/poly/mdeg.rs
+++ b/src/poly/mdeg.rs
@@ -33,9 +33,8 @@ impl MultiDegree {
     /// Should be avoided if possible; prefer clean operations.
     #[inline]
     pub fn trim_zeros(&mut self) {
-        if let Some(idx) = self.degs().rposition(|deg| *deg != 0) {
-            self.0.truncate(idx + 1);
-        }
+        let len = self.degs().rposition(|deg| *deg != 0).map_or(0, |idx| idx + 1);
+        self.0.truncate(len);
     }
 
     /// Returns the multidegree wrapping the given vector, after truncating off
-- 
2.43.0


From 719e9baa70f0e1ceca65a58d5c772037899cd4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 06/17] fix: graded orders on total degrees above 255

The total degree overflowed its u8: comparing x^200*y^100 by a graded
order panicked, or wrapped around in release builds.
---
 src/poly/ord.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/poly/ord.rs b/src/poly/ord.rs
index 2dd3cbc..cf7046e 100644
--- a/src/poly/ord.rs
+++ b/src/poly/ord.rs
@@ -78,7 +78,10 @@ impl MonomialOrder for RevLex {
 /// Important note: this is not a 'monomial order' as it is not antisymmetric;
 /// should probably be moved or hidden to avoid confusion
 pub fn grad(a: &MultiDegree, b: &MultiDegree) -> Ordering {
-    a.total_deg().cmp(&b.total_deg())
+    // the total degree does not have to fit in the type of the single degrees
+    let total = |mdeg: &MultiDegree| mdeg.degs().map(|&deg| u64::from(deg)).sum::<u64>();
+
+    total(a).cmp(&total(b))
 }
 
 /// The [Graded Lexicographic Order](https://w.wiki/3zwp) on multidegrees.
-- 
2.43.0


From 2c9ff4a1d63548a4426422f6cb51c34b276e97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 07/17] fix: get_col_iter_mut on matrices that are not square

---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index ab64e7c..119db55 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -237,7 +237,7 @@ impl<F: Field> Mat<F> {
         // the more simple (0..self.rows).map(move |r| entries.get_mut(r,c))
         // has weird lifetime issues. This works though, so sicko mode
         self.entries
-            .chunks_exact_mut(self.rows)
+            .chunks_exact_mut(self.cols)
             .map(move |row| &mut row[c])
     }
 
-- 
2.43.0


From def0a129c4270190046b61b52a46505d8573c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 08/17] fix: replacement matrix of a row added to itself

Multiplying by it did not agree with replace_row.
---
 src/linalg/mat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mat.rs b/src/linalg/mat.rs
index 119db55..24c9c5c 100644
--- a/src/linalg/mat.rs
+++ b/src/linalg/mat.rs
@@ -144,7 +144,7 @@ impl<F: Field> Mat<F> {
             get_box_iter(rows, rows)
                 .map(|(r, c)| {
                     if c == source && r == target {
-                        scalar
+                        if r == c { F::ONE + scalar } else { scalar }
                     } else if r == c {
                         F::ONE
                     } else {
-- 
2.43.0


From afc940e1673adeb9bceae1bd63bc7a465bdb00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 09/17] fix: polynomial division over floats terminates

Dividing x by 49x over f64 did not: 1.0/49.0*49.0 is not 1.0, so a
residue of the leading term was left, until it underflowed to a quotient
of zero.
---
 src/poly/comp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index b8f3c12..4254cc8 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -83,6 +83,9 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
                         // eliminate `lt_f == a * lt_g` from `f`
                         f = f - a * g;
 
+                        // with inexact coefficients a residue may be left of it
+                        f.terms.retain(|t| t.mdeg != lt_f.mdeg);
+
                         continue 'outer;
                     }
                 }
-- 
2.43.0


From e3ba28117fae34bc45c0ac1be6c9a17b3d7e9a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 10/17] fix: S-polynomials over floats cancel their leading
 terms

That of 49x + y and 3x + 1 over f64 had a term in x.
---
 src/poly/comp.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index 4254cc8..fd7f08d 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -152,7 +152,12 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
         let lt_g = Self::leading_term(g)?;
         let lcm = Self::monic_lcm(&lt_f, &lt_g);
 
-        Some(lcm.try_div(&lt_f)? * f - lcm.try_div(&lt_g)? * g)
+        let mut h = lcm.try_div(&lt_f)? * f - lcm.try_div(&lt_g)? * g;
+
+        // with inexact coefficients a residue may be left of the leading terms
+        h.terms.retain(|t| t.mdeg != lcm.mdeg);
+
+        Some(h)
     }
 
     /// Test whether `generators` is a Gröbner basis using Buchberger's criterion
-- 
2.43.0


From e656c0e87666adf306865d1c180c2fcba6c639c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 11/17] fix: allow zero among the generators of an ideal

buchberger_criterion and buchberger_algorithm panicked.
---
 src/poly/comp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index fd7f08d..2309bfb 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -177,9 +177,8 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
 
                     return false;
                 }
-            } else {
-                panic!("should not happen. yeah i know, joseph, 'parse don't validate'");
             }
+            // otherwise one of them is zero, and there is nothing to check
         }
 
         true
@@ -265,6 +264,9 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
 
     /// Turns `generator` into a reduced Gröbner basis, using Buchberger's algorithm.
     pub fn buchberger_algorithm(generators: &mut Vec<Polynomial<F>>) {
+        // zero generators do not contribute to the ideal
+        generators.retain(|g| !g.is_zero());
+
         Self::buchberger_extend(generators);
         Self::buchberger_minimize(generators);
         Self::buchberger_reduce(generators);
-- 
2.43.0


From 2bd6f3653d64499305f36b9aebda717628efa472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 12/17] fix: reduced Groebner bases are monic

The basis computed for {2x} was {2x}, so it depended on the generators
and not just on the ideal.
---
 src/poly/comp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/poly/comp.rs b/src/poly/comp.rs
index 2309bfb..cb1fd8b 100644
--- a/src/poly/comp.rs
+++ b/src/poly/comp.rs
@@ -237,7 +237,7 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
 
     /// Modifies the elements in a Gröbner basis so that it becomes a reduced Gröbner basis.
     ///
-    /// That is, replaces each generator with its remainder modulo the other generators.
+    /// That is, replaces each generator with its remainder modulo the other generators, and makes it monic.
     fn buchberger_reduce(generators: &mut Vec<Polynomial<F>>) {
         'outer: loop {
             break {
@@ -260,6 +260,12 @@ impl<F: Field, O: MonomialOrder> Computer<F, O> {
                 }
             };
         }
+
+        for g in generators.iter_mut() {
+            if let Some(lc_g) = Self::leading_coef(g) {
+                *g = &*g / lc_g;
+            }
+        }
     }
 
     /// Turns `generator` into a reduced Gröbner basis, using Buchberger's algorithm.
-- 
2.43.0


From d1c396833a755de1325da1b6b16d748fcaa855df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 13/17] fix: exact pivots in Gaussian elimination over floats

For the 2x1 matrix of 49.0s, the pivot was 0.9999999999999999 and a
residue of 7e-15 was left below it, so its rank was 2 and computing its
nullity panicked.
---
 src/linalg/algorithm.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index c7a799a..568ee6f 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -51,6 +51,14 @@ impl<F: Field + EpsilonEquality> Mat<F> {
 }
 
 impl<F: Field> Mat<F> {
+    // dividing makes a pivot exactly one, even in floating point arithmetic,
+    // as opposed to multiplying by the inverse
+    fn divide_row(&mut self, r: usize, scalar: F) {
+        for c in 0..self.cols() {
+            self[(r, c)] = self[(r, c)] / scalar;
+        }
+    }
+
     // assumes src < target
     fn permute_under_diagonal(&mut self, src: usize, target: usize) {
         for c in 0..src {
@@ -86,7 +94,7 @@ impl<F: Field> LUDecompositionInternal<F> {
 
     fn scale_row(&mut self, r: usize, scalar: F) {
         self.l[(r, r)] = scalar;
-        self.u.scale_row(r, F::ONE / scalar);
+        self.u.divide_row(r, scalar);
     }
 
     fn replace_col_under_row(&mut self, r: usize, c: usize) {
@@ -169,9 +177,9 @@ impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R>
 		self.b.permute_rows(r1, r2);
 	}
 
-	fn scale_row(&mut self, r: usize, scalar: F){
-		self.p.scale_row(r, scalar);
-		self.b.scale_row(r, scalar);
+	fn divide_row(&mut self, r: usize, scalar: F){
+		self.p.divide_row(r, scalar);
+		self.b.divide_row(r, scalar);
 	}
 
 	/// Performs replacement operation to clear all entries in column under the
@@ -236,7 +244,7 @@ impl<F: Field + StabilityCmp + EpsilonEquality> Mat<F> {
 
 			if let Some((stable_index, scalar)) = form.b.get_stable_column_index_under_row(c, r) {
 				form.permute_rows(r, stable_index);
-				form.scale_row(r, F::ONE/scalar);
+				form.divide_row(r, scalar);
 				form.replace_col_under_row(r, c);
 				
 				r += 1;
-- 
2.43.0


From 20665cd805c50c31e10c9545a72dbe8938eadab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 14/17] fix: facets of cones with a boundary generator first

The normal was oriented by the first generator even if it lies on the
facet, so facets were missed depending on the order of the generators,
and in cones of less than full dimension the normal could be one that
vanishes on the whole cone.
---
 src/linalg/cone.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 28a04ee..fdb7406 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -51,12 +51,18 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 
 			// (2) get a normal (there are potentially multiple in dim != ambient_dim)
 			let subset_kernel = subset_rref.compute_kernel();
-			let mut normal = subset_kernel[0].clone();
+			// that is not orthogonal to the whole cone, and a generator that shows it
+			let (mut normal, above) = match subset_kernel.iter().find_map(|v| {
+				generators.iter().find(|g| !g.dot(v).epsilon_equals(&F::ZERO)).map(|g| (v.clone(), g))
+			}) {
+				Some(found) => found,
+				None => continue,
+			};
 
 			// (3) check that all generators are on one side
-			if let Some(ordering) = generators[0].dot(&normal).partial_cmp(&F::ZERO) {
+			if let Some(ordering) = above.dot(&normal).partial_cmp(&F::ZERO) {
 
-				// re-orient the normal in the direction of the first generator
+				// re-orient the normal in the direction of that generator
 				let is_above = match ordering {
 					std::cmp::Ordering::Less => false,
 					_ => true
-- 
2.43.0


From 8f4d73d49519b8b0de9dc6d2b8051ee228ffe8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 15/17] fix: cones of dimension zero and one

Constructing them panicked.
---
 src/linalg/cone.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index fdb7406..722a1a7 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -38,10 +38,17 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 		let mut facets: Vec<Face<F>> = vec![];
 
 		// compute facets
-		'outer: for subset in generators.iter().combinations(dim-1) {
+		// (the zero cone has none)
+		let facet_dims = if dim == 0 { None } else { Some(dim-1) };
+		'outer: for subset in facet_dims.into_iter().flat_map(|k| generators.iter().combinations(k)) {
 			// this is very inefficient to copy this all the time
 			let subset_owned : Vec<Mat<F>> = subset.iter().map(|&m| m.clone()).collect();
-			let subset_mat = Mat::from_row_vectors(&subset_owned);
+			let subset_mat = if subset_owned.is_empty() {
+				// the facet of a ray is the origin
+				Mat::zero(0, ambient_dim)
+			} else {
+				Mat::from_row_vectors(&subset_owned)
+			};
 			let subset_rref = subset_mat.row_echelon().to_rref();
 
 			// (1) check linearly independent
-- 
2.43.0


From ddf3a4de4d19fa5695b203913beb9b8dcc56aa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 16/17] verif hook: accessors of private results, under
 cfg(algeo_verif)

---
 src/linalg/algorithm.rs |  8 ++++++++
 src/linalg/cone.rs      | 12 +++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/linalg/algorithm.rs b/src/linalg/algorithm.rs
index 568ee6f..a15b820 100644
--- a/src/linalg/algorithm.rs
+++ b/src/linalg/algorithm.rs
@@ -324,6 +324,14 @@ impl<'a, F: Field + StabilityCmp + EpsilonEquality> ReducedRowEchelonForm<'a, F>
 	}
 }
 
+#[cfg(algeo_verif)]
+impl<'a, F: Field, const E: bool, const R: bool> RowEquivalentForm<'a, F, E, R> {
+	/// The matrices `p` and `b`, such that `p*a=b`.
+	pub fn verif_parts(&self) -> (&Mat<F>, &Mat<F>) {
+		(&self.p, &self.b)
+	}
+}
+
 #[cfg(test)]
 mod tests {
 	use crate::linalg::util::mat_iterator;
diff --git a/src/linalg/cone.rs b/src/linalg/cone.rs
index 722a1a7..3e56071 100644
--- a/src/linalg/cone.rs
+++ b/src/linalg/cone.rs
@@ -112,4 +112,14 @@ impl<F: Field + StabilityCmp + EpsilonEquality + PartialOrd> Cone<F> {
 			dim
 		}
 	}
-}
\ No newline at end of file
+}
+
+#[cfg(algeo_verif)]
+impl<F: Field> Cone<F> {
+	/// (dimension, ambient dimension, facets as (normal, generators), basis of the orthogonal complement)
+	pub fn verif_parts(&self) -> (usize, usize, Vec<(&Mat<F>, &[Mat<F>])>, &[Mat<F>]) {
+		let facets = self.facets.iter().map(|f| (&f.normal, f.generators.as_slice())).collect();
+
+		(self.dim, self.ambient_dim, facets, &self.orth_comp_basis)
+	}
+}
-- 
2.43.0


From ba90ded305f3a61ad78d39df245edfeba98ff07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 17/17] fix: digits of numbers near usize::MAX, and of zero in
 base zero

num_to_seq multiplied the number by the base first, which overflowed. mat_iterator
without values panicked on shapes without entries.
---
 src/linalg/util.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/linalg/util.rs b/src/linalg/util.rs
index 7c0e51f..61411f3 100644
--- a/src/linalg/util.rs
+++ b/src/linalg/util.rs
@@ -35,7 +35,7 @@ struct BaseSeqIterator {
 impl BaseSeqIterator {
 	pub fn new(n: usize, base: usize) -> BaseSeqIterator {
 		BaseSeqIterator {
-			n: n*base,
+			n,
 			base
 		}
 	}
@@ -45,12 +45,13 @@ impl Iterator for BaseSeqIterator {
 	type Item = usize;
 
 	fn next(&mut self) -> Option<Self::Item> {
-		self.n /= self.base;
-
 		if self.n == 0 {
 			None
 		} else {
-			Some(self.n % self.base)
+			let digit = self.n % self.base;
+			self.n /= self.base;
+
+			Some(digit)
 		}
 	}
 }
-- 
2.43.0

