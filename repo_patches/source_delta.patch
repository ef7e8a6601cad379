From 228705ad221086155c5c73d68a76472283cc9beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 01/11] fix: sign_changes_at negates the sign at negative
 infinity (crate did not compile)

---
 src/algebraic_numbers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 79f387e..d32daea 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -202,7 +202,7 @@ fn sign_changes_at(
                 let degree = polynomial.degree().unwrap_or(0);
                 let s = Sign::new(&polynomial.highest_power_coefficient());
                 if degree.is_odd() {
-                    s.map(|| -s)
+                    s.map(|s| -s)
                 } else {
                     s
                 }
-- 
2.43.0


From 5103f886707e566c7ff678e5dab438784788e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 02/11] fix: adding a scalar to a polynomial with a divisor
 rescales every coefficient to the common divisor

---
 src/polynomial/add_sub.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/add_sub.rs b/src/polynomial/add_sub.rs
index a7bc3e2..102c45d 100644
--- a/src/polynomial/add_sub.rs
+++ b/src/polynomial/add_sub.rs
@@ -57,18 +57,20 @@ fn add_sub_assign_single<
     let GCDAndLCM { gcd, lcm: divisor } = lhs.divisor.gcd_lcm(&rhs_divisor);
     let lhs_divisor = mem::replace(&mut lhs.divisor, divisor);
     let lhs_multiplier = T::divisor_to_element(
-        Cow::Owned(lhs_divisor * &gcd),
+        Cow::Owned(rhs_divisor.exact_div(&gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     let rhs_multiplier = T::divisor_to_element(
-        Cow::Owned(gcd * &rhs_divisor),
+        Cow::Owned(ExactDiv::<T::Divisor>::exact_div(lhs_divisor, gcd)),
         Cow::Borrowed(&rhs_numerator),
     );
     if lhs.is_empty() {
         lhs.elements
             .push(T::make_zero_element(Cow::Borrowed(&rhs_numerator)));
     }
-    lhs.elements[0] *= &lhs_multiplier;
+    for lhs_element in lhs.elements.iter_mut() {
+        *lhs_element *= &lhs_multiplier;
+    }
     add_sub_assign(&mut lhs.elements[0], rhs_numerator * &rhs_multiplier);
     lhs.normalize();
 }
-- 
2.43.0


From 0e566cd1aad3414e9d9327d7174d6b1ea3c54be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 03/11] fix: odd powers of an interval containing both signs
 round both bounds outwards

---
 src/interval_arithmetic.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index 6065524..af851e1 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1254,13 +1254,23 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                     base_lower_bound_numer.set_zero();
                 }
             }
+            // when only the lower bound is negative, both bounds are rounded away from zero
+            let round_away_from_zero =
+                lower_bound_numer_is_negative && !upper_bound_numer_is_negative;
+            let mul_lower = |a: &BigInt, b: &BigInt| -> BigInt {
+                if round_away_from_zero {
+                    -((-a * b) >> log2_denom)
+                } else {
+                    (a * b) >> log2_denom
+                }
+            };
             let mut retval_upper_bound_numer = BigInt::one() << log2_denom;
             let mut retval_lower_bound_numer = retval_upper_bound_numer.clone();
             let mut neg_retval_upper_bound_numer = -retval_upper_bound_numer;
             loop {
                 if exponent.is_odd() {
-                    retval_lower_bound_numer *= &base_lower_bound_numer;
-                    retval_lower_bound_numer >>= log2_denom;
+                    retval_lower_bound_numer =
+                        mul_lower(&retval_lower_bound_numer, &base_lower_bound_numer);
                     neg_retval_upper_bound_numer *= &base_upper_bound_numer;
                     neg_retval_upper_bound_numer >>= log2_denom;
                 }
@@ -1269,8 +1279,8 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
                 if exponent.is_zero() {
                     break;
                 }
-                base_lower_bound_numer = &base_lower_bound_numer * &base_lower_bound_numer;
-                base_lower_bound_numer >>= log2_denom;
+                base_lower_bound_numer =
+                    mul_lower(&base_lower_bound_numer, &base_lower_bound_numer);
                 base_upper_bound_numer = -&base_upper_bound_numer * &base_upper_bound_numer;
                 base_upper_bound_numer >>= log2_denom;
                 base_upper_bound_numer = -base_upper_bound_numer;
-- 
2.43.0


From 499a25e0e48b3c4f04be9ce8cee55a242c77f278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 04/11] fix: a failed checked division by a scalar leaves the
 polynomial unchanged

---
 src/polynomial/div_rem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/div_rem.rs b/src/polynomial/div_rem.rs
index 762b6a2..4c57c2d 100644
--- a/src/polynomial/div_rem.rs
+++ b/src/polynomial/div_rem.rs
@@ -346,7 +346,7 @@ fn checked_div_assign_single<T: PolynomialCoefficient + for<'a> ExactDiv<&'a T,
     lhs: &mut Polynomial<T>,
     rhs: &T,
 ) -> Result<(), ()> {
-    *lhs = checked_div_single(Cow::Owned(mem::replace(lhs, Zero::zero())), rhs).ok_or(())?;
+    *lhs = checked_div_single(Cow::Borrowed(&*lhs), rhs).ok_or(())?;
     Ok(())
 }
 
-- 
2.43.0


From 52c075280169938e3821d2a6c56c5398329143ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 05/11] fix: the next prime after 0 and 1 is 2

---
 src/util.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 78bd4a3..5193091 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -546,6 +546,9 @@ pub fn prev_prime_i32(v: i32) -> Option<i32> {
 }
 
 pub fn next_prime_u32(mut v: u32) -> Option<u32> {
+    if v < 2 {
+        return Some(2);
+    }
     if v < 3 {
         return Some(3);
     }
-- 
2.43.0


From 67e9ee4bb3aa05bc7ad4f1865e8c580c9d4468a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 06/11] fix: pow_modular_reduce with a zero exponent returns a
 reduced value

---
 src/mod_int.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mod_int.rs b/src/mod_int.rs
index f80c53f..46762a3 100644
--- a/src/mod_int.rs
+++ b/src/mod_int.rs
@@ -414,10 +414,12 @@ macro_rules! impl_prim_int_modulus {
 
         impl<E: Integer + Clone + FromPrimitive> ModularReducePow<E> for $t {
             fn pow_modular_reduce<M: Modulus<Self>>(&self, exponent: &E, modulus: M) -> Self {
+                let modulus = *modulus.to_modulus();
                 if exponent.is_zero() {
-                    return One::one();
+                    let mut retval: Self = One::one();
+                    retval.modular_reduce_assign(modulus);
+                    return retval;
                 }
-                let modulus = *modulus.to_modulus();
                 let mut base = *self;
                 base.modular_reduce_assign(modulus);
                 if exponent.is_one() {
-- 
2.43.0


From 0930b24c23eb7d143fb58681fb14a57ed0cf55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 07/11] fix: fract of a negative rational is self -
 self.floor()

---
 src/algebraic_numbers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index d32daea..50a3162 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -519,7 +519,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn into_fract(mut self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             let mut interval_shrinker = self.interval_shrinker();
             loop {
@@ -535,7 +535,7 @@ impl RealAlgebraicNumber {
     /// returns `self - self.floor()`
     pub fn fract(&self) -> Self {
         if let Some(ratio) = self.to_rational() {
-            ratio.fract().into()
+            (&ratio - ratio.floor()).into()
         } else {
             self.clone().into_fract()
         }
-- 
2.43.0


From 9849071e1b839b02f799dbb35a0f959352edf23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 08/11] fix: the minimal polynomial of a reciprocal keeps a
 positive leading coefficient

---
 src/algebraic_numbers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 50a3162..4955da9 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -648,7 +648,11 @@ impl RealAlgebraicNumber {
             minimal_polynomial,
             interval,
         } = value.into_data();
-        let minimal_polynomial = minimal_polynomial.into_iter().rev().collect();
+        let mut minimal_polynomial: Polynomial<BigInt> =
+            minimal_polynomial.into_iter().rev().collect();
+        if minimal_polynomial.highest_power_coefficient().is_negative() {
+            minimal_polynomial = -minimal_polynomial;
+        }
         Some(RealAlgebraicNumber::new_unchecked(
             minimal_polynomial,
             interval.recip(),
-- 
2.43.0


From a7a802faa0bbcb9efe833a7d0c963690a8250962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 09/11] fix: remove leftover debug output

---
 src/array2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2d.rs b/src/array2d.rs
index 4f2aaa6..fd355af 100644
--- a/src/array2d.rs
+++ b/src/array2d.rs
@@ -734,7 +734,7 @@ impl<Iter: Iterator + DoubleEndedIterator + ExactSizeIterator> IterOwnedData<Ite
     fn get_unchecked_back(&mut self, x: usize, y: usize) -> Iter::Item {
         let index = get_index_unchecked(self.stride, x, y) - self.offset;
         self.iter
-            .nth_back(self.iter.len() - dbg!(index) - 1)
+            .nth_back(self.iter.len() - index - 1)
             .expect("data shouldn't be empty")
     }
 }
-- 
2.43.0


From beb7e2a3de9374322dd8bb8fc9a87e075b8d2333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:19 +0000
Subject: [PATCH 10/11] fix: a bound of the result interval that is a root is
 only the result when no other root is left

---
 src/algebraic_numbers.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/algebraic_numbers.rs b/src/algebraic_numbers.rs
index 4955da9..ddb1b21 100644
--- a/src/algebraic_numbers.rs
+++ b/src/algebraic_numbers.rs
@@ -999,33 +999,37 @@ trait RootSelector: Sized {
             mem::swap(&mut factors, &mut factors_temp);
             factors.clear();
             let mut roots_left = 0;
+            let mut rational_root = None;
             for factor in factors_temp.drain(..) {
                 let lower_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&lower_bound),
                 );
-                if lower_bound_sign_changes.is_root {
-                    return lower_bound.into();
-                }
                 let upper_bound_sign_changes = sign_changes_at(
                     &factor.primitive_sturm_sequence,
                     ValueOrInfinity::Value(&upper_bound),
                 );
+                // the sign changes count the roots in `(lower_bound, upper_bound]`
+                let mut num_roots = distance(
+                    lower_bound_sign_changes.sign_change_count,
+                    upper_bound_sign_changes.sign_change_count,
+                );
+                if lower_bound_sign_changes.is_root {
+                    num_roots += 1;
+                    rational_root = Some(lower_bound.clone());
+                }
                 if upper_bound_sign_changes.is_root {
-                    return upper_bound.into();
+                    rational_root = Some(upper_bound.clone());
                 }
-                if lower_bound_sign_changes.sign_change_count
-                    != upper_bound_sign_changes.sign_change_count
-                {
-                    let num_roots = distance(
-                        lower_bound_sign_changes.sign_change_count,
-                        upper_bound_sign_changes.sign_change_count,
-                    );
+                if num_roots != 0 {
                     roots_left += num_roots;
                     factors.push(factor);
                 }
             }
             if roots_left <= 1 {
+                if let Some(rational_root) = rational_root {
+                    return rational_root.into();
+                }
                 break RealAlgebraicNumber::new_unchecked(
                     factors.remove(0).into_factor(),
                     interval,
-- 
2.43.0


From 75041c3d6905e4deb0cf0b780c627c775ebd6e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:02 +0000
Subject: [PATCH 11/11] fix: odd powers of a negative point interval no longer
 return inverted bounds

---
 src/interval_arithmetic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interval_arithmetic.rs b/src/interval_arithmetic.rs
index af851e1..b36a946 100644
--- a/src/interval_arithmetic.rs
+++ b/src/interval_arithmetic.rs
@@ -1242,7 +1242,9 @@ impl<E: Integer> Pow<E> for DyadicFractionInterval {
             if upper_bound_numer_is_negative {
                 base_upper_bound_numer = -base_upper_bound_numer;
             }
-            let mut bounds_swapped = base_lower_bound_numer > base_upper_bound_numer;
+            // when both bounds are negative, the lower bound has the larger (or equal) magnitude
+            let mut bounds_swapped =
+                upper_bound_numer_is_negative || base_lower_bound_numer > base_upper_bound_numer;
             if bounds_swapped {
                 mem::swap(&mut base_lower_bound_numer, &mut base_upper_bound_numer);
             }
-- 
2.43.0

