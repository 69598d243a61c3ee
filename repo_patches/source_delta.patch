From c5a7778d63474202d2a869cfdc67e1c4604c350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:27 +0000
Subject: [PATCH 01/23] fix: sign at negative infinity closure takes the mapped
 value (crate did not compile)

---
 src/algebraic_numbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 79f387e..d32daea 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -202,7 +202,7 @@ fn sign_changes_at(
                 let degree = polynomial.degree().unwrap_or(0);
                 let s = Sign::new(&polynomial.highest_power_coefficient());
                 if degree.is_odd() {
-                    s.map(|| -s)
+                    s.map(|s| -s)
                 } else {
                     s
                 }
-- 
2.43.0


From 24a2bbfce85a98c7f1bff920ba813aa47c4a1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:00 +0000
Subject: [PATCH 02/23] fix: root selection no longer takes another root that
 lies on an interval bound

---
 src/algebraic_numbers.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index d32daea..66c15e9 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -1000,23 +1000,20 @@ trait RootSelector: Sized {
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&lower_bound),
                 );
-                if lower_bound_sign_changes.is_root {
-                    return lower_bound.into();
-                }
                 let upper_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&upper_bound),
                 );
-                if upper_bound_sign_changes.is_root {
-                    return upper_bound.into();
+                // number of roots in the closed interval; the difference in sign changes
+                // excludes a root located at the lower bound
+                let mut num_roots = distance(
+                    lower_bound_sign_changes.sign_change_count,
+                    upper_bound_sign_changes.sign_change_count,
+                );
+                if lower_bound_sign_changes.is_root {
+                    num_roots += 1;
                 }
-                if lower_bound_sign_changes.sign_change_count
-                    != upper_bound_sign_changes.sign_change_count
-                {
-                    let num_roots = distance(
-                        lower_bound_sign_changes.sign_change_count,
-                        upper_bound_sign_changes.sign_change_count,
-                    );
+                if num_roots != 0 {
                     roots_left += num_roots;
                     factors.push(factor);
                 }
-- 
2.43.0


From 4cb4159f98323e1a7a9508c2253eab23d6a04018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:33 +0000
Subject: [PATCH 03/23] fix: reciprocal of an irrational number keeps a
 canonical minimal polynomial and an isolating interval

---
 src/algebraic_numbers.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 66c15e9..f98024a 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -641,18 +641,22 @@ impl RealAlgebraicNumber {
             return Some(value.recip().into());
         }
         let mut value = self.clone();
-        value
+        let minimal_polynomial = value.minimal_polynomial().iter().rev().collect();
+        let (_, base) = value
             .remove_zero_from_interval()
             .expect("known to be non-zero");
-        let RealAlgebraicNumberData {
-            minimal_polynomial,
-            interval,
-        } = value.into_data();
-        let minimal_polynomial = minimal_polynomial.into_iter().rev().collect();
-        Some(RealAlgebraicNumber::new_unchecked(
-            minimal_polynomial,
-            interval.recip(),
-        ))
+        struct RecipRootSelector<'a> {
+            base: IntervalShrinker<'a>,
+        }
+        impl RootSelector for RecipRootSelector<'_> {
+            fn get_interval(&self) -> DyadicFractionInterval {
+                self.base.interval.recip()
+            }
+            fn shrink_interval(&mut self) {
+                self.base.shrink();
+            }
+        }
+        Some(RecipRootSelector { base }.select_root(minimal_polynomial))
     }
     pub fn recip(&self) -> Self {
         self.checked_recip()
-- 
2.43.0


From b706c02897932ed7883b635794564be401b8ba1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:34 +0000
Subject: [PATCH 04/23] fix: fract of negative rational numbers is self -
 self.floor() as documented

---
 src/algebraic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index f98024a..f293d34 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -519,7 +519,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn into_fract(mut self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             let mut interval_shrinker = self.interval_shrinker();
             loop {
@@ -535,7 +535,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn fract(&self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             self.clone().into_fract()
         }
-- 
2.43.0


From d114d942cf23ce506bcb277cb202669f512f51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:55 +0000
Subject: [PATCH 05/23] fix: odd powers of intervals straddling zero round both
 bounds outwards

---
 src/interval_arithmetic.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 6065524..b6d686e 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1254,8 +1254,13 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     base_lower_bound_numer.set_zero();
                 }
             }
+            // if the bounds have opposite signs then both magnitudes have to be rounded up
+            let round_both_up = lower_bound_numer_is_negative != upper_bound_numer_is_negative;
             let mut retval_upper_bound_numer = BigInt::one() << log2_denom;
             let mut retval_lower_bound_numer = retval_upper_bound_numer.clone();
+            if round_both_up {
+                retval_lower_bound_numer = -retval_lower_bound_numer;
+            }
             let mut neg_retval_upper_bound_numer = -retval_upper_bound_numer;
             loop {
                 if exponent.is_odd() {
@@ -1270,12 +1275,19 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     break;
                 }
                 base_lower_bound_numer = &base_lower_bound_numer * &base_lower_bound_numer;
-                base_lower_bound_numer >>= log2_denom;
+                if round_both_up {
+                    base_lower_bound_numer = -(-base_lower_bound_numer >> log2_denom);
+                } else {
+                    base_lower_bound_numer >>= log2_denom;
+                }
                 base_upper_bound_numer = -&base_upper_bound_numer * &base_upper_bound_numer;
                 base_upper_bound_numer >>= log2_denom;
                 base_upper_bound_numer = -base_upper_bound_numer;
             }
             retval_upper_bound_numer = -neg_retval_upper_bound_numer;
+            if round_both_up {
+                retval_lower_bound_numer = -retval_lower_bound_numer;
+            }
             if bounds_swapped {
                 mem::swap(&mut retval_lower_bound_numer, &mut retval_upper_bound_numer);
             }
-- 
2.43.0


From 565a9fe1788a4cc045ca62881229103f139c6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:01 +0000
Subject: [PATCH 06/23] fix: adding a scalar to a polynomial with a common
 denominator scales every coefficient

---
 src/polynomial/add_sub.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/add_sub.rs b/src/polynomial/add_sub.rs
index a7bc3e2..102c45d 100644
--- a/src/polynomial/add_sub.rs
+++ b/src/polynomial/add_sub.rs
@@ -57,18 +57,20 @@ fn add_sub_assign_single<
     let GCDAndLCM { gcd, lcm: divisor } = lhs.divisor.gcd_lcm(&rhs_divisor);
     let lhs_divisor = mem::replace(&mut lhs.divisor, divisor);
     let lhs_multiplier = T::divisor_to_element(
-        Cow::Owned(lhs_divisor * &gcd),
+        Cow::Owned(rhs_divisor.exact_div(&gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     let rhs_multiplier = T::divisor_to_element(
-        Cow::Owned(gcd * &rhs_divisor),
+        Cow::Owned(ExactDiv::<T::Divisor>::exact_div(lhs_divisor, gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     if lhs.is_empty() {
         lhs.elements
             .push(T::make_zero_element(Cow::Borrowed(&rhs_numerator)));
     }
-    lhs.elements[0] *= &lhs_multiplier;
+    for lhs_element in lhs.elements.iter_mut() {
+        *lhs_element *= &lhs_multiplier;
+    }
     add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);
     lhs.normalize();
 }
-- 
2.43.0


From 9acdc559db0dd25f3ed4fbfab8aeba8e62923765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:06 +0000
Subject: [PATCH 07/23] fix: failed checked division of a polynomial by a
 scalar leaves the polynomial unchanged

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 762b6a2..4c57c2d 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -346,7 +346,7 @@ fn checked_div_assign_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T,
     lhs: &mut Polynomial<T>,
     rhs: &T,
 ) -> Result<(), ()> {
-    *lhs = checked_div_single(Cow::Owned(mem::replace(lhs, Zero::zero())), rhs).ok_or(())?;
+    *lhs = checked_div_single(Cow::Borrowed(&*lhs), rhs).ok_or(())?;
     Ok(())
 }
 
-- 
2.43.0


From 72316850aafadb0efac0dffbdd4ae2e95e74d2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:31 +0000
Subject: [PATCH 08/23] fix: next_prime of 0 and 1 is 2

---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 78bd4a3..467ead1 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,7 +546,10 @@ pub fn prev_prime_i32(v: i32) -> Option<i32> {
 }
 
 pub fn next_prime_u32(mut v: u32) -> Option<u32> {
-    if v < 3 {
+    if v < 2 {
+        return Some(2);
+    }
+    if v == 2 {
         return Some(3);
     }
     if v >= 4_294_967_291 {
-- 
2.43.0


From cfa314f678971052fe889da49c0cabea8b60e2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:59 +0000
Subject: [PATCH 09/23] fix: zeroth modular power is reduced by the modulus (1
 mod 1 is 0)

---
 src/mod_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mod_int.rs b/src/mod_int.rs
index f80c53f..3113d61 100644
--- a/src/mod_int.rs
+++ b/src/mod_int.rs
@@ -415,7 +415,7 @@ macro_rules! impl_prim_int_modulus {
         impl<E: Integer + Clone + FromPrimitive> ModularReducePow<E> for $t {
             fn pow_modular_reduce<M: Modulus<Self>>(&self, exponent: &E, modulus: M) -> Self {
                 if exponent.is_zero() {
-                    return One::one();
+                    return <$t as One>::one().modular_reduce(modulus);
                 }
                 let modulus = *modulus.to_modulus();
                 let mut base = *self;
-- 
2.43.0


From d00865868a00fa4efe3e41fd3d68aa3165132d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 10/23] hook: cfg(algebraics_verif) access to crate-private
 algorithms for external checkers

---
 src/lib.rs         |   2 +
 src/verif_hooks.rs | 181 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 183 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index b197b2b..838075a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,8 @@ pub mod python;
 pub(crate) mod quadratic_numbers;
 pub mod traits;
 pub mod util;
+#[cfg(algebraics_verif)]
+pub mod verif_hooks;
 
 pub use algebraic_numbers::RealAlgebraicNumber;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..3440fbe
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,181 @@
+// SPDX-License-Identifier: LGPL-2.1-or-later
+// See Notices.txt for copyright information
+
+//! Access to crate-private algorithms for external checkers.
+//!
+//! Only compiled when `--cfg algebraics_verif` is passed to rustc; nothing in
+//! here changes what the rest of the crate does.
+
+use crate::{
+    array2d::{Array2DOwned, Array2DSlice},
+    lattice,
+    mod_int::{ModularInteger, ModularReducePow, OddPrimeModulus, PrimeModulus},
+    polynomial::Polynomial,
+    traits::{ExtendedGCD, GCD},
+    util::{for_subsets_of_size, ContinueBreak},
+};
+use num_bigint::{BigInt, ToBigInt};
+use num_integer::Integer;
+use num_rational::Ratio;
+use rand::{distributions::uniform::SampleUniform, Rng};
+use std::{fmt, hash::Hash, ops::Range};
+
+type Columns<T> = Vec<Vec<T>>;
+
+fn to_array<T: Clone>(y_size: usize, columns: &[Vec<T>]) -> Array2DOwned<T> {
+    Array2DOwned::from_array(
+        columns.len(),
+        y_size,
+        columns.iter().flat_map(|v| v.iter().cloned()).collect(),
+    )
+}
+
+fn to_columns<T: Clone>(array: Array2DSlice<T>) -> Columns<T> {
+    (0..array.x_size())
+        .map(|x| (0..array.y_size()).map(|y| array[(x, y)].clone()).collect())
+        .collect()
+}
+
+pub fn inner_product(a: &[BigInt], b: &[BigInt]) -> BigInt {
+    let a = to_array(a.len(), &[a.to_vec()]);
+    let b = to_array(b.len(), &[b.to_vec()]);
+    lattice::inner_product(a.slice(.., ..), b.slice(.., ..))
+}
+
+pub fn gram_schmidt(y_size: usize, basis: &[Vec<BigInt>]) -> Columns<Ratio<BigInt>> {
+    to_columns(lattice::gram_schmidt(to_array(y_size, basis).slice(.., ..)).slice(.., ..))
+}
+
+pub fn lll_reduce(y_size: usize, basis: &[Vec<BigInt>]) -> Columns<BigInt> {
+    to_columns(lattice::lll_reduce(to_array(y_size, basis)).slice(.., ..))
+}
+
+pub fn lll_reduce_with_delta(
+    y_size: usize,
+    basis: &[Vec<BigInt>],
+    delta: Ratio<BigInt>,
+) -> Columns<BigInt> {
+    to_columns(lattice::lll_reduce_with_delta(to_array(y_size, basis), delta).slice(.., ..))
+}
+
+pub fn distinct_degree_factorization<V, M>(
+    polynomial: Polynomial<ModularInteger<V, M>>,
+) -> Vec<Polynomial<ModularInteger<V, M>>>
+where
+    V: ModularReducePow<usize> + Integer + GCD<Output = V> + ExtendedGCD + fmt::Debug + Hash,
+    M: PrimeModulus<V> + fmt::Debug + Hash,
+{
+    polynomial.distinct_degree_factorization()
+}
+
+pub fn same_degree_factorization<V, M, R: Rng + ?Sized>(
+    polynomial: Polynomial<ModularInteger<V, M>>,
+    factor_degree: usize,
+    rng: &mut R,
+) -> Vec<Polynomial<ModularInteger<V, M>>>
+where
+    V: ModularReducePow<usize>
+        + Integer
+        + GCD<Output = V>
+        + ExtendedGCD
+        + fmt::Debug
+        + fmt::Display
+        + Hash
+        + SampleUniform
+        + ToBigInt,
+    M: OddPrimeModulus<V> + fmt::Debug + fmt::Display + Hash,
+{
+    polynomial.same_degree_factorization(factor_degree, rng)
+}
+
+/// visits the subsets, stopping after `limit` of them; also returns if the enumeration was stopped
+pub fn subsets_of_size(
+    subset_size: usize,
+    index_range: Range<usize>,
+    limit: usize,
+) -> (Vec<Vec<usize>>, bool) {
+    let mut subsets = Vec::new();
+    let stopped = match for_subsets_of_size(
+        |subset: &[usize]| {
+            subsets.push(subset.to_vec());
+            if subsets.len() >= limit {
+                ContinueBreak::Break(())
+            } else {
+                ContinueBreak::Continue
+            }
+        },
+        subset_size,
+        index_range,
+    ) {
+        ContinueBreak::Break(()) => true,
+        ContinueBreak::Continue => false,
+    };
+    (subsets, stopped)
+}
+
+/// a column-major 2D array
+pub struct Grid(Array2DOwned<i64>);
+
+impl Grid {
+    pub fn from_data(x_size: usize, y_size: usize, data: Vec<i64>) -> Self {
+        Grid(Array2DOwned::from_array(x_size, y_size, data))
+    }
+    pub fn filled(x_size: usize, y_size: usize, value: i64) -> Self {
+        Grid(Array2DOwned::new(x_size, y_size, value))
+    }
+    pub fn generated<F: FnMut(usize, usize) -> i64>(x_size: usize, y_size: usize, f: F) -> Self {
+        Grid(Array2DOwned::new_with_positions(x_size, y_size, f))
+    }
+    pub fn size(&self) -> (usize, usize) {
+        self.0.size()
+    }
+    pub fn data(&self) -> Vec<i64> {
+        self.0.data().to_vec()
+    }
+    pub fn get(&self, x: usize, y: usize) -> i64 {
+        self.0[(x, y)]
+    }
+    pub fn set(&mut self, x: usize, y: usize, value: i64) {
+        self.0[(x, y)] = value;
+    }
+    pub fn swap(&mut self, a: (usize, usize), b: (usize, usize)) {
+        self.0.swap_elements(a, b);
+    }
+    /// sub-rectangle as a new array
+    pub fn cut(&self, x: Range<usize>, y: Range<usize>) -> Self {
+        Grid(self.0.slice(x, y).to_owned())
+    }
+    /// stores `value`, `value + 1`, ... in the sub-rectangle, visiting it from the front (`true`) or back (`false`)
+    pub fn fill(&mut self, x: Range<usize>, y: Range<usize>, mut value: i64, ends: &[bool]) {
+        let mut slice = self.0.slice_mut(x, y);
+        let mut iter = slice.iter_mut();
+        for &front in ends {
+            let element = if front { iter.next() } else { iter.next_back() };
+            if let Some(element) = element {
+                *element = value;
+                value += 1;
+            }
+        }
+    }
+    /// elements of the sub-rectangle with their positions, visited from the front (`true`) or back (`false`)
+    pub fn visit(
+        &self,
+        x: Range<usize>,
+        y: Range<usize>,
+        ends: &[bool],
+    ) -> Vec<Option<((usize, usize), i64)>> {
+        let slice = self.0.slice(x, y);
+        let mut iter = slice.iter().with_positions();
+        ends.iter()
+            .map(|&front| if front { iter.next() } else { iter.next_back() })
+            .map(|v| v.map(|(pos, &v)| (pos, v)))
+            .collect()
+    }
+    /// same as `visit`, but consumes the array
+    pub fn into_visit(self, ends: &[bool]) -> Vec<Option<((usize, usize), i64)>> {
+        let mut iter = self.0.into_iter().with_positions();
+        ends.iter()
+            .map(|&front| if front { iter.next() } else { iter.next_back() })
+            .collect()
+    }
+}
-- 
2.43.0


From 618b09c44c72c613c15df03265e72f3432f45d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:03 +0000
Subject: [PATCH 11/23] fix: zeroth polynomial power modulo a polynomial is
 reduced (1 mod constant is 0, modulus 0 is refused)

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 4c57c2d..d2016da 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -478,7 +478,7 @@ impl<T: PolynomialDivSupported> Polynomial<T> {
             return None;
         }
         if exponent.is_zero() {
-            return self.to_one_if_nonzero();
+            return self.to_one_if_nonzero()?.checked_rem(modulus);
         }
         let mut base = self.checked_rem(modulus)?;
         if exponent.is_one() {
-- 
2.43.0


From e412763a7e0cc26cc4e8e07b191987e79ba49192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:40 +0000
Subject: [PATCH 12/23] hook: cfg(algebraics_verif) constant cache for external
 checkers

---
 src/interval_arithmetic.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index b6d686e..3b5efc7 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -120,6 +120,25 @@ impl ConstantCache {
     }
 }
 
+/// a constant cache of its own, for external checkers
+#[cfg(algebraics_verif)]
+pub struct VerifConstantCache(ConstantCache);
+
+#[cfg(algebraics_verif)]
+impl VerifConstantCache {
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> Self {
+        Self(ConstantCache::new())
+    }
+    pub fn get<F: Fn(usize) -> DyadicFractionInterval>(
+        &self,
+        log2_denom: usize,
+        compute_fn: F,
+    ) -> DyadicFractionInterval {
+        self.0.get(log2_denom, compute_fn)
+    }
+}
+
 /// inclusive interval of the form `[a / 2^n, b / 2^n]` where `a` and `b` are integers and `n` is an unsigned integer.
 #[derive(Clone, Default, Hash)]
 pub struct DyadicFractionInterval {
-- 
2.43.0


From d7b5abfc0506a2dfd5080d0bb1172b9eddf5a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:02 +0000
Subject: [PATCH 13/23] fix: odd powers of negative single-point intervals keep
 their bounds in order

---
 src/interval_arithmetic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 3b5efc7..5f7a98e 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1261,7 +1261,9 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
             if upper_bound_numer_is_negative {
                 base_upper_bound_numer = -base_upper_bound_numer;
             }
-            let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer;
+            // the magnitudes of a negative interval are in reverse order, even if they are equal
+            let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer
+                || (lower_bound_numer_is_negative && upper_bound_numer_is_negative);
             if bounds_swapped {
                 mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
             }
-- 
2.43.0


From bc7cf2d2c031a97b090339cb8d9360fb977317a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:38 +0000
Subject: [PATCH 14/23] fix: make the lifted factors monic before combining
 them in factor()

The Hensel lifting can leave (part of) the leading coefficient in any leaf of
the factor tree, e.g. always when the leading coefficient is 1 modulo the
chosen prime.  The subset search multiplies by the leading coefficient again,
which can exceed the modulus, so that true factors were not recognized:
-15*x^5+53*x^4+96*x^3+70*x^2+7*x-35 was returned with the reducible factor
(x-5)*(15*x^3+7*x^2+7*x-7).
---
 src/polynomial/factorization_over_integers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/polynomial/factorization_over_integers.rs b/src/polynomial/factorization_over_integers.rs
index 587963a..f1d34a2 100644
--- a/src/polynomial/factorization_over_integers.rs
+++ b/src/polynomial/factorization_over_integers.rs
@@ -542,6 +542,12 @@ impl Polynomial<BigInt> {
 
         modular_factors.retain(|factor| factor.degree() != Some(0));
 
+        // hensel lifting can leave part of the leading coefficient in any of the factors,
+        // the code below multiplies by the leading coefficient and expects monic factors
+        for factor in &mut modular_factors {
+            factor.monic_assign();
+        }
+
         debug_assert!(modular_factors
             .iter()
             .position(|factor| match factor.degree() {
-- 
2.43.0


From f42ac5e35bdceb253dd601bfdb63014976ef411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:33 +0000
Subject: [PATCH 15/23] hook: views of views and all kinds of bounds of 2D
 arrays

---
 src/verif_hooks.rs | 116 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 114 insertions(+), 2 deletions(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 3440fbe..8a51850 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -7,7 +7,7 @@
 //! here changes what the rest of the crate does.
 
 use crate::{
-    array2d::{Array2DOwned, Array2DSlice},
+    array2d::{Array2DMutSlice, Array2DOwned, Array2DSlice, Array2DSliceBound},
     lattice,
     mod_int::{ModularInteger, ModularReducePow, OddPrimeModulus, PrimeModulus},
     polynomial::Polynomial,
@@ -18,7 +18,11 @@ use num_bigint::{BigInt, ToBigInt};
 use num_integer::Integer;
 use num_rational::Ratio;
 use rand::{distributions::uniform::SampleUniform, Rng};
-use std::{fmt, hash::Hash, ops::Range};
+use std::{
+    fmt,
+    hash::Hash,
+    ops::{Bound, Range},
+};
 
 type Columns<T> = Vec<Vec<T>>;
 
@@ -179,3 +183,111 @@ impl Grid {
             .collect()
     }
 }
+
+/// one of the ways to give the extent of a sub-rectangle
+#[derive(Clone)]
+pub enum GridBound {
+    Full,
+    At(usize),
+    Range(usize, usize),
+    From(usize),
+    To(usize),
+    Inclusive(usize, usize),
+    ToInclusive(usize),
+    /// both ends excluded
+    Between(usize, usize),
+}
+
+impl Array2DSliceBound for GridBound {
+    fn to_slice_bound(self) -> (Bound<usize>, Bound<usize>) {
+        match self {
+            GridBound::Full => (..).to_slice_bound(),
+            GridBound::At(v) => v.to_slice_bound(),
+            GridBound::Range(a, b) => (a..b).to_slice_bound(),
+            GridBound::From(a) => (a..).to_slice_bound(),
+            GridBound::To(b) => (..b).to_slice_bound(),
+            GridBound::Inclusive(a, b) => (a..=b).to_slice_bound(),
+            GridBound::ToInclusive(b) => (..=b).to_slice_bound(),
+            GridBound::Between(a, b) => (Bound::Excluded(a), Bound::Excluded(b)).to_slice_bound(),
+        }
+    }
+}
+
+/// what a view of a `Grid` shows
+pub struct GridView {
+    pub size: (usize, usize),
+    /// elements by index, column-major
+    pub elements: Vec<i64>,
+    /// remaining lengths before each step of the iteration, and at its end
+    pub lens: Vec<usize>,
+    pub visited: Vec<Option<((usize, usize), i64)>>,
+    pub count: usize,
+    pub last: Option<i64>,
+}
+
+pub enum GridEdit {
+    Set((usize, usize), i64),
+    Swap((usize, usize), (usize, usize)),
+    /// stores the value and its successors, from the front (`true`) or back (`false`)
+    Fill(i64, Vec<bool>),
+}
+
+fn view(slice: Array2DSlice<i64>, path: &[(GridBound, GridBound)], ends: &[bool]) -> GridView {
+    if let Some(((x, y), rest)) = path.split_first() {
+        return view(slice.slice(x.clone(), y.clone()), rest, ends);
+    }
+    let elements = to_columns(slice.slice(.., ..)).concat();
+    let mut iter = slice.iter().with_positions();
+    let mut lens = vec![iter.len()];
+    let mut visited = Vec::new();
+    for &front in ends {
+        let element = if front { iter.next() } else { iter.next_back() };
+        visited.push(element.map(|(pos, &v)| (pos, v)));
+        lens.push(iter.len());
+    }
+    GridView {
+        size: slice.size(),
+        elements,
+        lens,
+        visited,
+        count: iter.count(),
+        last: slice.iter().last().copied(),
+    }
+}
+
+fn edit(mut slice: Array2DMutSlice<i64>, path: &[(GridBound, GridBound)], edits: &[GridEdit]) {
+    if let Some(((x, y), rest)) = path.split_first() {
+        return edit(slice.slice_mut(x.clone(), y.clone()), rest, edits);
+    }
+    for e in edits {
+        match e {
+            GridEdit::Set(pos, v) => slice[*pos] = *v,
+            GridEdit::Swap(a, b) => slice.swap_elements(*a, *b),
+            GridEdit::Fill(v, ends) => {
+                let mut v = *v;
+                let mut iter = slice.iter_mut();
+                for &front in ends {
+                    let element = if front { iter.next() } else { iter.next_back() };
+                    if let Some(element) = element {
+                        *element = v;
+                        v += 1;
+                    }
+                }
+            }
+        }
+    }
+}
+
+impl Grid {
+    /// a view of a view of ... this array
+    pub fn view(&self, path: &[(GridBound, GridBound)], ends: &[bool]) -> GridView {
+        view(self.0.slice(.., ..), path, ends)
+    }
+    /// changes this array through a view of a view of ... it
+    pub fn edit(&mut self, path: &[(GridBound, GridBound)], edits: &[GridEdit]) {
+        edit(self.0.slice_mut(.., ..), path, edits)
+    }
+    pub fn into_data(self) -> Vec<i64> {
+        self.0.into_data()
+    }
+}
-- 
2.43.0


From 830a70179342e529fc6adf15b4d6501e77222ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:33 +0000
Subject: [PATCH 16/23] fix: empty slices of 2D arrays at the far edge panicked

---
 src/array2d.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index 4f2aaa6..879d1bd 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -267,10 +267,16 @@ impl<Data: Array2DData> Array2DBase<Data> {
         }
         let (x_start, x_end) = start_and_end(x_bound.to_slice_bound(), self.x_size);
         let (y_start, y_end) = start_and_end(y_bound.to_slice_bound(), self.y_size);
+        let (x_size, y_size) = (x_end - x_start, y_end - y_start);
         Array2DSliceData {
-            x_size: x_end - x_start,
-            y_size: y_end - y_start,
-            data_offset: get_index_unchecked(self.stride(), x_start, y_start),
+            x_size,
+            y_size,
+            // the start of an empty slice can be past the end of the data
+            data_offset: if x_size == 0 || y_size == 0 {
+                0
+            } else {
+                get_index_unchecked(self.stride(), x_start, y_start)
+            },
         }
     }
     pub(crate) fn slice<XB: Array2DSliceBound, YB: Array2DSliceBound>(
-- 
2.43.0


From 44c849d56fdd8ddb9e9cb9eb735754f8c758f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:39 +0000
Subject: [PATCH 17/23] fix: exp() of a negative interval reduced with the
 wrong ends of ln 2

The lower bound was always divided by the upper end of the enclosure of
ln 2 and the upper bound by the lower end. For a negative bound the
quotient is negative and the direction has to be reversed, otherwise the
interval returned may not contain the exact result.
---
 src/interval_arithmetic.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 5f7a98e..bbc5608 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -727,13 +727,22 @@ impl DyadicFractionInterval {
         .expect("input too big in exp()");
         self.convert_log2_denom(working_log2_denom);
         let natural_log_of_2 = Self::natural_log_of_2(working_log2_denom);
-        let (floor_power_of_2_lower_bound, remainder) = self
-            .lower_bound_numer
-            .div_mod_floor(&natural_log_of_2.upper_bound_numer);
+        // a negative bound has a negative quotient, which reverses the rounding direction
+        let (floor_power_of_2_lower_bound, remainder) =
+            self.lower_bound_numer
+                .div_mod_floor(if self.lower_bound_numer.is_negative() {
+                    &natural_log_of_2.lower_bound_numer
+                } else {
+                    &natural_log_of_2.upper_bound_numer
+                });
         self.lower_bound_numer = remainder;
-        let (floor_power_of_2_upper_bound, remainder) = self
-            .upper_bound_numer
-            .div_mod_floor(&natural_log_of_2.lower_bound_numer);
+        let (floor_power_of_2_upper_bound, remainder) =
+            self.upper_bound_numer
+                .div_mod_floor(if self.upper_bound_numer.is_negative() {
+                    &natural_log_of_2.upper_bound_numer
+                } else {
+                    &natural_log_of_2.lower_bound_numer
+                });
         self.upper_bound_numer = remainder;
         let mut term = Self::one(working_log2_denom);
         let mut retval = term.clone();
-- 
2.43.0


From 5dbe99b12f3df3184504cd17cb10fbefe64de6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:34 +0000
Subject: [PATCH 18/23] verification hook: access to the crate-private
 quadratic numbers (cfg algebraics_verif_quadratic)

---
 src/lib.rs             |   2 +
 src/verif_quadratic.rs | 180 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 182 insertions(+)
 create mode 100644 src/verif_quadratic.rs

diff --git a/src/lib.rs b/src/lib.rs
index 838075a..544d880 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,8 @@ pub mod traits;
 pub mod util;
 #[cfg(algebraics_verif)]
 pub mod verif_hooks;
+#[cfg(algebraics_verif_quadratic)]
+pub mod verif_quadratic;
 
 pub use algebraic_numbers::RealAlgebraicNumber;
 
diff --git a/src/verif_quadratic.rs b/src/verif_quadratic.rs
new file mode 100644
index 0000000..f8963f5
--- /dev/null
+++ b/src/verif_quadratic.rs
@@ -0,0 +1,180 @@
+// SPDX-License-Identifier: LGPL-2.1-or-later
+// See Notices.txt for copyright information
+
+//! Access to the crate-private quadratic numbers for external checkers.
+//!
+//! Only compiled when `--cfg algebraics_verif_quadratic` is passed to rustc;
+//! nothing in here changes what the rest of the crate does.
+
+use crate::{
+    polynomial::Polynomial,
+    quadratic_numbers::{BigQuadraticPolynomial, RealQuadraticNumber},
+};
+use num_bigint::BigInt;
+use num_rational::BigRational;
+use num_traits::{CheckedAdd, CheckedSub, One, Signed, Zero};
+use std::{
+    cmp::Ordering,
+    hash::Hash,
+    ops::{Add, Neg, Sub},
+};
+
+fn poly(terms: [BigInt; 3]) -> BigQuadraticPolynomial {
+    let [constant_term, linear_term, quadratic_term] = terms;
+    BigQuadraticPolynomial {
+        constant_term,
+        linear_term,
+        quadratic_term,
+    }
+}
+
+fn poly_terms(poly: BigQuadraticPolynomial) -> [BigInt; 3] {
+    [poly.constant_term, poly.linear_term, poly.quadratic_term]
+}
+
+pub fn discriminant(terms: [BigInt; 3]) -> BigInt {
+    poly(terms).discriminant()
+}
+
+pub fn swapped_roots(terms: [BigInt; 3]) -> [BigInt; 3] {
+    poly_terms(poly(terms).swapped_roots())
+}
+
+pub fn into_swapped_roots(terms: [BigInt; 3]) -> [BigInt; 3] {
+    poly_terms(poly(terms).into_swapped_roots())
+}
+
+pub fn neg_polynomial(terms: [BigInt; 3]) -> [BigInt; 3] {
+    poly_terms(-poly(terms))
+}
+
+pub fn into_polynomial(terms: [BigInt; 3]) -> Polynomial<BigInt> {
+    poly(terms).into()
+}
+
+/// wrapper around the crate-private type
+#[derive(Clone, Eq, PartialEq, Hash, Debug, Default, PartialOrd, Ord)]
+pub struct Quadratic(RealQuadraticNumber);
+
+impl<T: Into<RealQuadraticNumber>> From<T> for Quadratic {
+    fn from(value: T) -> Self {
+        Quadratic(value.into())
+    }
+}
+
+impl Quadratic {
+    /// constant, linear and quadratic term
+    pub fn new(terms: [BigInt; 3]) -> Option<Self> {
+        RealQuadraticNumber::new(poly(terms)).map(Quadratic)
+    }
+    pub fn terms(&self) -> [BigInt; 3] {
+        [
+            self.0.constant_term().clone(),
+            self.0.linear_term().clone(),
+            self.0.quadratic_term().clone(),
+        ]
+    }
+    pub fn polynomial_terms(&self) -> [BigInt; 3] {
+        poly_terms(self.0.polynomial().clone())
+    }
+    pub fn into_polynomial_terms(self) -> [BigInt; 3] {
+        poly_terms(self.0.into_polynomial())
+    }
+    pub fn zero() -> Self {
+        Quadratic(Zero::zero())
+    }
+    pub fn one() -> Self {
+        Quadratic(One::one())
+    }
+    pub fn from_integer(value: BigInt) -> Self {
+        Quadratic(RealQuadraticNumber::from_integer(value))
+    }
+    pub fn from_ratio(numerator: BigInt, denominator: BigInt) -> Self {
+        Quadratic(RealQuadraticNumber::from_ratio(numerator, denominator))
+    }
+    pub fn from_ratio_checked(numerator: BigInt, denominator: BigInt) -> Option<Self> {
+        RealQuadraticNumber::from_ratio_checked(numerator, denominator)
+            .ok()
+            .map(Quadratic)
+    }
+    pub fn is_ratio(&self) -> bool {
+        self.0.is_ratio()
+    }
+    pub fn is_integer(&self) -> bool {
+        self.0.is_integer()
+    }
+    pub fn to_integer(&self) -> Option<BigInt> {
+        self.0.to_integer()
+    }
+    pub fn to_tuple_ratio(&self) -> Option<(BigInt, BigInt)> {
+        self.0.to_tuple_ratio()
+    }
+    pub fn to_ratio(&self) -> Option<BigRational> {
+        self.0.to_ratio()
+    }
+    pub fn neg_owned(self) -> Self {
+        Quadratic(self.0.neg())
+    }
+    pub fn neg_ref(&self) -> Self {
+        Quadratic((&self.0).neg())
+    }
+    pub fn add(self, rhs: Self, form: &str) -> Option<Self> {
+        Some(Quadratic(match form {
+            "mm" => self.0.add(rhs.0),
+            "mr" => self.0.add(&rhs.0),
+            "rm" => (&self.0).add(rhs.0),
+            "rr" => (&self.0).add(&rhs.0),
+            "c" => CheckedAdd::checked_add(&self.0, &rhs.0)?,
+            _ => self.0.checked_add(&rhs.0).ok()?,
+        }))
+    }
+    pub fn sub(self, rhs: Self, form: &str) -> Option<Self> {
+        Some(Quadratic(match form {
+            "mm" => self.0.sub(rhs.0),
+            "mr" => self.0.sub(&rhs.0),
+            "rm" => (&self.0).sub(rhs.0),
+            "rr" => (&self.0).sub(&rhs.0),
+            "c" => CheckedSub::checked_sub(&self.0, &rhs.0)?,
+            _ => self.0.checked_sub(&rhs.0).ok()?,
+        }))
+    }
+    pub fn checked_recip(&self) -> Option<Self> {
+        self.0.checked_recip().ok().map(Quadratic)
+    }
+    pub fn abs(&self) -> Self {
+        Quadratic(self.0.abs())
+    }
+    pub fn signum(&self) -> Self {
+        Quadratic(self.0.signum())
+    }
+    pub fn is_positive(&self) -> bool {
+        self.0.is_positive()
+    }
+    pub fn is_negative(&self) -> bool {
+        self.0.is_negative()
+    }
+    pub fn is_zero(&self) -> bool {
+        self.0.is_zero()
+    }
+    pub fn is_one(&self) -> bool {
+        self.0.is_one()
+    }
+    pub fn eq_ratio(&self, rhs: &BigRational) -> bool {
+        self.0 == *rhs
+    }
+    pub fn ratio_eq(&self, lhs: &BigRational) -> bool {
+        *lhs == self.0
+    }
+    pub fn lt_ratio(&self, rhs: &BigRational) -> bool {
+        self.0 < *rhs
+    }
+    pub fn ratio_lt(&self, lhs: &BigRational) -> bool {
+        *lhs < self.0
+    }
+    pub fn cmp_ratio(&self, rhs: &BigRational) -> Option<Ordering> {
+        self.0.partial_cmp(rhs)
+    }
+    pub fn ratio_cmp(&self, lhs: &BigRational) -> Option<Ordering> {
+        lhs.partial_cmp(&self.0)
+    }
+}
-- 
2.43.0


From b94ca8b82a1a2f0ddda0f454d9dc04677541d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:44 +0000
Subject: [PATCH 19/23] fix: reciprocal of a positive rational quadratic number
 kept the sign in the denominator [Q01]

---
 src/quadratic_numbers.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/quadratic_numbers.rs b/src/quadratic_numbers.rs
index 6df510d..1583cde 100644
--- a/src/quadratic_numbers.rs
+++ b/src/quadratic_numbers.rs
@@ -434,11 +434,9 @@ impl RealQuadraticNumber {
         self.checked_add(&-rhs)
     }
     pub(crate) fn checked_recip(&self) -> Result<Self, NonQuadraticResult> {
-        if self.is_ratio() {
-            return Self::from_negated_reduced_ratio_checked(
-                self.linear_term().clone(),
-                self.constant_term().clone(),
-            );
+        if let Some((numerator, denominator)) = self.to_tuple_ratio() {
+            // also moves the sign back to the numerator
+            return Self::from_ratio_checked(denominator, numerator);
         }
         unimplemented!()
     }
-- 
2.43.0


From dec9926f4446d942401e2f7d3fd374fbb3acac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:19 +0000
Subject: [PATCH 20/23] verification hook: access to the nearest-quotient
 division

---
 src/verif_hooks.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index 8a51850..a3662bb 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -11,7 +11,7 @@ use crate::{
     lattice,
     mod_int::{ModularInteger, ModularReducePow, OddPrimeModulus, PrimeModulus},
     polynomial::Polynomial,
-    traits::{ExtendedGCD, GCD},
+    traits::{DivRemNearest, ExtendedGCD, GCD},
     util::{for_subsets_of_size, ContinueBreak},
 };
 use num_bigint::{BigInt, ToBigInt};
@@ -291,3 +291,18 @@ impl Grid {
         self.0.into_data()
     }
 }
+
+/// access to the crate-private `DivRemNearest`
+pub trait NearestDivision: Sized {
+    fn checked_nearest(&self, rhs: &Self) -> Option<(Self, Self)>;
+    fn nearest(&self, rhs: &Self) -> (Self, Self);
+}
+
+impl<T: DivRemNearest<DivOutput = T, RemOutput = T>> NearestDivision for T {
+    fn checked_nearest(&self, rhs: &Self) -> Option<(Self, Self)> {
+        self.checked_div_rem_nearest(rhs)
+    }
+    fn nearest(&self, rhs: &Self) -> (Self, Self) {
+        self.div_rem_nearest(rhs)
+    }
+}
-- 
2.43.0


From f11fea5c7d0476e0f7771554b56d017a1f6cfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:15 +0000
Subject: [PATCH 21/23] fix: nearest-quotient division rounded away from the
 nearest for negative operands and in BigInt [T02]

---
 src/traits.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 560848c..12a7a9f 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -240,11 +240,15 @@ macro_rules! impl_div_rem_signed_int {
                 let mut remainder = lhs % rhs;
                 let rhs_magnitude = rhs.wrapping_abs() as $u;
                 let remainder_magnitude = remainder.wrapping_abs() as $u;
-                if rhs != <$t>::min_value() && remainder_magnitude > rhs_magnitude / 2 {
-                    let (quotient_offset, remainder_offset) =
-                        if rhs < 0 { (-1, rhs) } else { (1, -rhs) };
-                    quotient = quotient.checked_add(quotient_offset)?;
-                    remainder = remainder.checked_add(remainder_offset)?;
+                if remainder_magnitude > rhs_magnitude / 2 {
+                    // the remainder has the sign of lhs; move it past zero
+                    if (lhs < 0) == (rhs < 0) {
+                        quotient += 1;
+                        remainder -= rhs;
+                    } else {
+                        quotient -= 1;
+                        remainder += rhs;
+                    }
                 }
                 Some((quotient, remainder))
             }
@@ -290,13 +294,14 @@ impl DivRemNearest for BigInt {
         let (mut quotient, mut remainder) = self.div_rem(rhs);
         let rhs_magnitude = rhs.abs();
         let remainder_magnitude = remainder.abs();
-        if &rhs_magnitude - &remainder_magnitude > remainder_magnitude {
-            if rhs.is_negative() {
-                quotient -= 1;
-                remainder -= rhs_magnitude;
-            } else {
+        if &rhs_magnitude - &remainder_magnitude < remainder_magnitude {
+            // the remainder has the sign of self; move it past zero
+            if self.is_negative() == rhs.is_negative() {
                 quotient += 1;
-                remainder += rhs_magnitude;
+                remainder -= rhs;
+            } else {
+                quotient -= 1;
+                remainder += rhs;
             }
         }
         Some((quotient, remainder))
-- 
2.43.0


From 1b4f05ed3ebdb69ecdeb52137ea52e651d7d6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:39 +0000
Subject: [PATCH 22/23] hook: every iterator, the text and the raw data of 2D
 arrays (cfg algebraics_verif)

---
 src/verif_hooks.rs | 119 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 119 insertions(+)

diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
index a3662bb..8e6f6cf 100644
--- a/src/verif_hooks.rs
+++ b/src/verif_hooks.rs
@@ -292,6 +292,125 @@ impl Grid {
     }
 }
 
+/// the iterators of a `Grid` and its views
+#[derive(Copy, Clone, Debug)]
+pub enum GridIter {
+    Iter,
+    IterMut,
+    RefIntoIter,
+    MutIntoIter,
+    SliceIntoIter,
+    MutSliceIntoIter,
+    IntoIter,
+}
+
+/// what an iteration showed
+#[derive(Default)]
+pub struct GridWalk {
+    /// the position, where the iterator gave one, and the element
+    pub visited: Vec<Option<(Option<(usize, usize)>, i64)>>,
+    /// positions still to come before the first step, before and after the steps with positions, and at the end
+    pub positions: Vec<Vec<(usize, usize)>>,
+    pub last: Option<i64>,
+}
+
+macro_rules! walk {
+    ($iter:expr, $steps:expr, $take:expr) => {{
+        let (without, with, rest) = $steps;
+        #[allow(unused_mut)]
+        let mut take = $take;
+        let mut retval = GridWalk::default();
+        let mut iter = $iter;
+        retval.positions.push(iter.positions().collect());
+        for &front in without {
+            let element = if front { iter.next() } else { iter.next_back() };
+            retval.visited.push(element.map(|v| (None, take(v))));
+        }
+        let mut iter = iter.with_positions();
+        retval.positions.push(iter.positions().collect());
+        for &front in with {
+            let element = if front { iter.next() } else { iter.next_back() };
+            retval
+                .visited
+                .push(element.map(|(pos, v)| (Some(pos), take(v))));
+        }
+        retval.positions.push(iter.positions().collect());
+        let mut iter = iter.without_positions();
+        for &front in rest {
+            let element = if front { iter.next() } else { iter.next_back() };
+            retval.visited.push(element.map(|v| (None, take(v))));
+        }
+        retval.positions.push(iter.positions().collect());
+        retval.last = iter.last().map(take);
+        retval
+    }};
+}
+
+fn walk_mut(
+    mut slice: Array2DMutSlice<i64>,
+    path: &[(GridBound, GridBound)],
+    kind: GridIter,
+    steps: (&[bool], &[bool], &[bool]),
+    mut value: i64,
+) -> GridWalk {
+    if let Some(((x, y), rest)) = path.split_first() {
+        return walk_mut(
+            slice.slice_mut(x.clone(), y.clone()),
+            rest,
+            kind,
+            steps,
+            value,
+        );
+    }
+    let replace = |v: &mut i64| {
+        value += 1;
+        std::mem::replace(v, value - 1)
+    };
+    let copy = |v: &i64| *v;
+    match kind {
+        GridIter::Iter => walk!(slice.iter(), steps, copy),
+        GridIter::IterMut => walk!(slice.iter_mut(), steps, replace),
+        GridIter::RefIntoIter => walk!((&slice).into_iter(), steps, copy),
+        GridIter::MutIntoIter => walk!((&mut slice).into_iter(), steps, replace),
+        GridIter::SliceIntoIter => walk!(slice.slice(.., ..).into_iter(), steps, copy),
+        GridIter::MutSliceIntoIter => walk!(slice.into_iter(), steps, replace),
+        GridIter::IntoIter => walk!(slice.to_owned().into_iter(), steps, |v: i64| v),
+    }
+}
+
+impl Grid {
+    /// walks a view, each step from the front (`true`) or back (`false`): some steps without, some with, and some
+    /// again without positions.  Mutable iterators store `value`, `value + 1`, ...
+    pub fn walk(
+        &mut self,
+        path: &[(GridBound, GridBound)],
+        kind: GridIter,
+        steps: (&[bool], &[bool], &[bool]),
+        value: i64,
+    ) -> GridWalk {
+        walk_mut(self.0.slice_mut(.., ..), path, kind, steps, value)
+    }
+    pub fn data_mut(&mut self) -> &mut [i64] {
+        self.0.data_mut()
+    }
+    pub fn text(&self, path: &[(GridBound, GridBound)], alternate: bool) -> String {
+        fn text(
+            slice: Array2DSlice<i64>,
+            path: &[(GridBound, GridBound)],
+            alternate: bool,
+        ) -> String {
+            if let Some(((x, y), rest)) = path.split_first() {
+                text(slice.slice(x.clone(), y.clone()), rest, alternate)
+            } else if alternate {
+                format!("{:#}", slice)
+            } else {
+                format!("{}", slice)
+            }
+        }
+        text(self.0.slice(.., ..), path, alternate)
+    }
+}
+
 /// access to the crate-private `DivRemNearest`
 pub trait NearestDivision: Sized {
     fn checked_nearest(&self, rhs: &Self) -> Option<(Self, Self)>;
-- 
2.43.0


From 1915569f22efe47c4eddac1f2a98cdea4775bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:22 +0000
Subject: [PATCH 23/23] fix: zero multiple of a nested polynomial kept its zero
 coefficients

---
 src/polynomial.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index ded5912..30ffa18 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -767,6 +767,7 @@ where
         for sub_element in &mut element.elements {
             T::mul_assign_element_by_usize(sub_element, multiplier);
         }
+        element.normalize();
     }
     fn divisor_to_element(
         _v: Cow<Self::Divisor>,
-- 
2.43.0

