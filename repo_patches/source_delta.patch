From 267c0138ab95e94c8dfb244128e4b73359517fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:23 +0000
Subject: [PATCH 01/33] fix: less_than/leq shift by 2^(n_bits + 1) for n_bits >
 126 as for smaller widths

---
 src/btc_validation/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 9144cb8..80d0c0f 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -123,7 +123,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(1 << (n_bits - 126));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
@@ -189,7 +189,7 @@ where
             Scalar::from_u128(2 << n_bits) 
         } 
         else { 
-            let shift1 = Scalar::from_u128(2 << (n_bits - 126));
+            let shift1 = Scalar::from_u128(1 << (n_bits - 126));
             let mut shift2 = Scalar::from_u128(2 << 126);
             shift2.mul_assign(&shift1);
             shift2
-- 
2.43.0


From 47fd069a4ca12369f82066a3b4b6a077fd18e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 02/33] fix: constrain the outcome of less_than and leq to
 their operands

---
 src/btc_validation/median.rs | 38 ++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index 80d0c0f..bffe1ae 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -6,6 +6,8 @@ use ff::PrimeField;
 use crate::BitAccess;
 use crate::OptionExt;
 use crate::mp::bignat::BigNat;
+use crate::util::bit::Bitvector;
+use crate::util::num;
 
 pub fn compute_median_timestamp (prev_timestamps: &mut Vec<u32>) -> u32
 {
@@ -155,6 +157,24 @@ where
         Ok(summ)
     }).unwrap();
 
+    // Constrain allocation:
+    // zero_shifted_cmp = (a - b) + 2^(n_bits + 1)
+    let zero_shift = Scalar::from(2u64).pow_vartime([n_bits as u64 + 1]);
+    cs.enforce(
+        || "zero shift allocation",
+        |lc| lc + a.get_variable() - b.get_variable() + (zero_shift, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
+
+    // Constrain allocation:
+    // n_bit_zero_cmp is given by the lowest n_bits + 1 of the n_bits + 2 bits of zero_shifted_cmp
+    let cmp_bits = num::Num::from(zero_shifted_cmp.clone()).decompose(cs.namespace(|| "cmp bits"), n_bits + 2)?;
+    num::Num::from(n_bit_zero_cmp.clone()).is_equal(
+        cs.namespace(|| "n_bits zero cmp allocation"),
+        &Bitvector::from_bits(cmp_bits.truncate(n_bits + 1).into_bits()),
+    )?;
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits"), &zero_shifted_cmp, &n_bit_zero_cmp)
 
     // let _ = zero_shifted_cmp.fits_in_bits(cs.namespace(|| "check if fits"), n_bits + 1);
@@ -221,6 +241,24 @@ where
         Ok(summ)
     }).unwrap();
 
+    // Constrain allocation:
+    // zero_shifted_cmp = (a - b - 1) + 2^(n_bits + 1)
+    let zero_shift = Scalar::from(2u64).pow_vartime([n_bits as u64 + 1]);
+    cs.enforce(
+        || "zero shift allocation leq",
+        |lc| lc + a.get_variable() - b.get_variable() - CS::one() + (zero_shift, CS::one()),
+        |lc| lc + CS::one(),
+        |lc| lc + zero_shifted_cmp.get_variable(),
+    );
+
+    // Constrain allocation:
+    // n_bit_zero_cmp is given by the lowest n_bits + 1 of the n_bits + 2 bits of zero_shifted_cmp
+    let cmp_bits = num::Num::from(zero_shifted_cmp.clone()).decompose(cs.namespace(|| "cmp bits leq"), n_bits + 2)?;
+    num::Num::from(n_bit_zero_cmp.clone()).is_equal(
+        cs.namespace(|| "n_bits zero cmp allocation leq"),
+        &Bitvector::from_bits(cmp_bits.truncate(n_bits + 1).into_bits()),
+    )?;
+
     BigNat::equals(cs.namespace(|| "check fits in n_bits leq"), &zero_shifted_cmp, &n_bit_zero_cmp)
 }
 
-- 
2.43.0


From 599e7ffea1cafbed5356818b0917e6669bcb0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 03/33] fix: verify_median_timestamp takes the absolute value
 of positive sign differences too

Comparing with 12 made every sign difference count as one to be negated, so
any value above the median passed.
---
 src/btc_validation/median.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index bffe1ae..dc915cc 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -71,8 +71,8 @@ CS: ConstraintSystem<Scalar>,
         sign_diff = sign_diff.add(cs.namespace(|| format!("sign_diff increment {}", i)), &delta_sign).unwrap();
     }
     // absolute value of sign_diff needs to be obtained
-    let const_12 = AllocatedNum::alloc(cs.namespace(|| "max positive sign_diff"), || Ok(Scalar::from(12u64))).unwrap();
-    let is_positive = less_than(cs.namespace(|| "is_pos"), &sign_diff, &const_12, 32usize).unwrap();
+    let const_0 = AllocatedNum::alloc(cs.namespace(|| "zero"), || Ok(Scalar::ZERO)).unwrap();
+    let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
         let mut zero_val = Scalar::ZERO;
@@ -88,7 +88,7 @@ CS: ConstraintSystem<Scalar>,
         |lc| lc,
     );
 
-    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_positive).unwrap();
+    let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
-- 
2.43.0


From 9c8c6d63689d6eea61811f9610e0dcb7b536d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 04/33] fix: tie every intermediate of verify_median_timestamp
 to its constraints

Also lets it synthesize without a witness, as parameter setup does.
---
 src/btc_validation/median.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index dc915cc..b8646c7 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -1,4 +1,3 @@
-use bellpepper::gadgets::boolean::AllocatedBit;
 use bellpepper::gadgets::boolean::Boolean;
 use bellpepper_core::{ConstraintSystem, SynthesisError};
 use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -32,6 +31,8 @@ CS: ConstraintSystem<Scalar>,
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
 
+    cs.enforce(|| "sign_diff == 0", |lc| lc, |lc| lc, |lc| lc + sign_diff.get_variable());
+
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
         let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time).unwrap();
@@ -56,14 +57,12 @@ CS: ConstraintSystem<Scalar>,
             // Ok(Scalar::from(signum))
         }).unwrap();
         
-        let eq_bit = AllocatedBit::alloc(cs.namespace(|| format!("equality {}", i)), Some(res_eq.get_value().unwrap())).unwrap();
-        let lt_bit_mul2 = AllocatedNum::alloc(cs.namespace(|| format!("less than {}", i)), || Ok(Scalar::from(2*(res_lt.get_value().unwrap() as u64)))).unwrap();
         // Constrain:
         // (1 - res_eq) * (1 - 2 * res_lt) == delta_sign
         cs.enforce(
             || format!("(1 - res_eq) * (1 - 2 * res_lt) == delta_sign {}", i),
-            |lc| lc + CS::one() - eq_bit.get_variable(),
-            |lc| lc + CS::one() - lt_bit_mul2.get_variable(),
+            |lc| lc + CS::one() - &res_eq.lc(CS::one(), Scalar::ONE),
+            |lc| lc + CS::one() - &res_lt.lc(CS::one(), Scalar::from(2u64)),
             |lc| lc + delta_sign.get_variable(),
         );
 
@@ -72,6 +71,7 @@ CS: ConstraintSystem<Scalar>,
     }
     // absolute value of sign_diff needs to be obtained
     let const_0 = AllocatedNum::alloc(cs.namespace(|| "zero"), || Ok(Scalar::ZERO)).unwrap();
+    cs.enforce(|| "const_0 == 0", |lc| lc, |lc| lc, |lc| lc + const_0.get_variable());
     let is_negative = less_than(cs.namespace(|| "is_neg"), &sign_diff, &const_0, 32usize).unwrap();
     let neg_sign_diff = AllocatedNum::alloc(cs.namespace(|| "Negative of sign_diff"), || {
         let sign_val = sign_diff.get_value().unwrap();
@@ -91,10 +91,17 @@ CS: ConstraintSystem<Scalar>,
     let (abs_sign_diff, _dummy) = AllocatedNum::conditionally_reverse(cs.namespace(|| "absolute value"), &sign_diff, &neg_sign_diff, &is_negative).unwrap();
 
     let const_1 = AllocatedNum::alloc(cs.namespace(|| "increment by 1"), || Ok(Scalar::ONE)).unwrap();
+    cs.enforce(|| "const_1 == 1", |lc| lc, |lc| lc, |lc| lc + const_1.get_variable() - CS::one());
     let lhs = abs_sign_diff.add(cs.namespace(|| "LHS of inequality"), &const_1).unwrap();
     // lhs = abs(sign_diff) + 1
 
     let fe_median_occ = AllocatedNum::alloc(cs.namespace(|| "fe_median"), || Ok(n_median_occurrences.get_value().unwrap())).unwrap();
+    cs.enforce(
+        || "fe_median_occ == n_median_occurrences",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + fe_median_occ.get_variable() - &n_median_occurrences.lc(Scalar::ONE),
+    );
 
     // let r_eq = BigNat::equals(cs.namespace(|| "verify median"), &lhs, &fe_median_occ).unwrap();
     // let r_lt = less_than(cs.namespace(|| "lt"), &lhs, &fe_median_occ, 5).unwrap();
-- 
2.43.0


From a314311a313a9aa15361aa21daf482034557d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 05/33] fix: Num::is_equal reads the bit vector's bits, not the
 allocations they once came from

Bitvector's structural operations (shl, shr, truncate, reversed, push, ...) edit
bits and values only, so the comparison was with the vector before them.
---
 src/util/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/num.rs b/src/util/num.rs
index 0c102b9..5635b06 100644
--- a/src/util/num.rs
+++ b/src/util/num.rs
@@ -106,12 +106,12 @@ impl<Scalar: PrimeField> Num<Scalar> {
         mut cs: CS,
         other: &Bitvector<Scalar>,
     ) -> Result<(), SynthesisError> {
-        let allocations = other.allocations.clone();
+        let bits = other.bits.clone();
         let mut f = Scalar::ONE;
-        let sum = allocations
+        let sum = bits
             .iter()
             .fold(LinearCombination::zero(), |lc, bit| {
-                let l = lc + (f, &bit.bit);
+                let l = lc + (f, bit);
                 f = f.double();
                 l
             });
-- 
2.43.0


From c2e11c75df3adb1e8baa5d3e685be4f02e690237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 06/33] fix: equal_when_carried accepts equal numbers with
 different limb counts

The carry out of the shorter number's last limb was required to be zero, so
e.g. 0x3ff in three limbs did not equal [0xff, 0x3] in fewer.
---
 src/mp/bignat.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 18105c6..8119fac 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -715,9 +715,16 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         other: &Self,
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried")?;
+        if self.limbs.len() != other.limbs.len() {
+            // a carry may leave the shorter number, so give both the same limbs
+            let n = max(self.limbs.len(), other.limbs.len());
+            return self
+                .with_n_limbs::<CS>(n)
+                .equal_when_carried(cs, &other.with_n_limbs::<CS>(n));
+        }
 
-        // We'll propegate carries over the first `n` limbs.
-        let n = min(self.limbs.len(), other.limbs.len());
+        // We'll propegate carries over all `n` limbs.
+        let n = self.limbs.len();
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
@@ -769,22 +776,6 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             carry_in = Num::from(carry);
         }
 
-        for (i, zero_limb) in self.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero self {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
-        for (i, zero_limb) in other.limbs.iter().enumerate().skip(n) {
-            cs.enforce(
-                || format!("zero other {}", i),
-                |lc| lc,
-                |lc| lc,
-                |lc| lc + zero_limb,
-            );
-        }
         Ok(())
     }
 
-- 
2.43.0


From 529fa56b8dff5d6898dd8a82a000687fa3839223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 07/33] fix: compute the carry size of equal_when_carried
 exactly

The floating-point estimate is one bit short for word bounds at or just above
a power of two, which rejects equal numbers, and lets regrouping exceed the
field for others.
---
 src/mp/bignat.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 8119fac..a1ef3cd 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -5,7 +5,6 @@ use bellpepper_core::{ConstraintSystem, LinearCombination, SynthesisError};
 use ff::PrimeField;
 use num_bigint::BigInt;
 use num_integer::Integer;
-use num_traits::cast::ToPrimitive;
 
 use std::borrow::Borrow;
 use std::cmp::{max, min, Ordering};
@@ -708,6 +707,12 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         }
     }
 
+    /// The size of the largest carry c when words up to `max_word` are compared limb by limb:
+    /// c <= (2 * max_word + c) / base, that is, c <= 2 * max_word / (base - 1).
+    fn carry_bits(max_word: &BigInt, limb_width: usize) -> usize {
+        (BigInt::from(max_word * 2u8) / int_with_n_ones(limb_width)).bits() as usize
+    }
+
     /// Constrain `self` to be equal to `other`, after carrying both.
     pub fn equal_when_carried<CS: ConstraintSystem<Scalar>>(
         &self,
@@ -728,9 +733,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let target_base = BigInt::from(1u8) << self.params.limb_width as u32;
         let mut accumulated_extra = BigInt::from(0usize);
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = Self::carry_bits(max_word, self.params.limb_width);
         let mut carry_in = Num::new(Some(Scalar::ZERO), LinearCombination::zero());
 
         for i in 0..n {
@@ -789,9 +792,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<(), SynthesisError> {
         self.enforce_limb_width_agreement(other, "equal_when_carried_regroup")?;
         let max_word = std::cmp::max(&self.params.max_word, &other.params.max_word);
-        let carry_bits =
-            (((max_word.to_f64().unwrap() * 2.0).log2() - self.params.limb_width as f64).ceil()
-                + 0.1) as usize;
+        let carry_bits = Self::carry_bits(max_word, self.params.limb_width);
         let limbs_per_group = (Scalar::CAPACITY as usize - carry_bits) / self.params.limb_width;
         let self_grouped = self.group_limbs(limbs_per_group);
         let other_grouped = other.group_limbs(limbs_per_group);
-- 
2.43.0


From fff45bd78f7a78e4aac1168e3f8319de790e2141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 08/33] fix: range check the difference allocated by
 BigNat::sub

Without it any two numbers have a difference, e.g. 1 - 2 with a limb of -1.
---
 src/mp/bignat.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index a1ef3cd..f13857a 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -876,6 +876,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             self.params.limb_width,
             self.params.n_limbs,
         )?;
+        diff.assert_well_formed(cs.namespace(|| "diff rangecheck"))?;
         let sum = other.add::<CS>(&diff)?;
         self.equal_when_carried_regroup(cs.namespace(|| "eq"), &sum)?;
         Ok(diff)
-- 
2.43.0


From 4a7271cc9648db9bea1b8ebe2f63113659d95527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:04 +0000
Subject: [PATCH 09/33] fix: BigNat::min compares the greater with the lesser
 number

It compared with `other`, so with `select` unset, other - other = 0 passed and
`self` came out as the minimum whichever number was smaller.
---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index f13857a..aa848e0 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -970,7 +970,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 .and_then(|s| other.value.as_ref().map(|o| o < s)),
         )?;
         let (lesser, greater) = Gadget::switch(cs.namespace(|| "switch"), &select, self, other)?;
-        let _diff = greater.sub(cs.namespace(|| "difference"), other)?;
+        let _diff = greater.sub(cs.namespace(|| "difference"), &lesser)?;
         Ok(lesser)
     }
 
-- 
2.43.0


From d46c2255690163828e25c8f226ea6c87a581728d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 10/33] fix: BigNat::from_num admits only the canonical limbs
 of its number

With limbs for more bits than the field has (64 x 4 over 255 bits), those of
n + p passed as well, which e.g. lets a difficulty update start from another target.
---
 src/mp/bignat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index aa848e0..0d511e2 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -283,6 +283,14 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         let bv = bignat.decompose(cs.namespace(|| "bv"))?;
         // (2) recompose bits and check if it equals n
         n.is_equal(cs.namespace(|| "n"), &bv)?;
+        // (3) n plus a multiple of the field's order may fit the limbs too: rule it out
+        if limb_width * n_limbs > Scalar::CAPACITY as usize {
+            let max = nat_to_limbs::<Scalar>(&f_to_nat(&-Scalar::ONE), limb_width, n_limbs)?
+                .into_iter()
+                .map(|l| Num::new(Some(l), LinearCombination::zero() + (l, CS::one())))
+                .collect();
+            Self::from_limbs(max, limb_width).sub(cs.namespace(|| "canonical"), &bignat)?;
+        }
 
         Ok(bignat)
     }
-- 
2.43.0


From 40c296dbdf273d5332484430ee341491e7f951a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 11/33] fix: size the quotients of mult_mod and red_mod for
 every operand

---
 src/mp/bignat.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 0d511e2..da9b4c7 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1074,7 +1074,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
-            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits);
+            (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1144,7 +1144,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
     ) -> Result<BigNat<Scalar>, SynthesisError> {
         self.enforce_limb_width_agreement(modulus, "red_mod")?;
         let limb_width = self.params.limb_width;
-        let quotient_bits = self.n_bits().saturating_sub(modulus.params.min_bits);
+        let quotient_bits = self
+            .n_bits()
+            .saturating_sub(modulus.params.min_bits.saturating_sub(1));
         let quotient_limbs = quotient_bits.saturating_sub(1) / limb_width + 1;
         let quotient = BigNat::alloc_from_nat(
             cs.namespace(|| "quotient"),
@@ -1275,7 +1277,12 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
 
     pub fn n_bits(&self) -> usize {
         assert!(self.params.n_limbs > 0);
-        self.params.limb_width * (self.params.n_limbs - 1) + self.params.max_word.bits() as usize
+        // a word above the limb width overflows into the words beyond it
+        let ones = (0..self.params.n_limbs).fold(BigInt::from(0u8), |mut acc, i| {
+            acc.set_bit((i * self.params.limb_width) as u64, true);
+            acc
+        });
+        (ones * &self.params.max_word).bits() as usize
     }
 }
 
-- 
2.43.0


From 9b3cfb24cb24ab826ce19c6e9fe69f45ef2b2fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:20 +0000
Subject: [PATCH 12/33] fix: mult_mod rejects a modulus of another limb width

---
 src/btc_validation/difficulty_update.rs | 2 +-
 src/mp/bignat.rs                        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 0980200..33974f4 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -89,7 +89,7 @@ CS: ConstraintSystem<Scalar>,
     assert!(res_lower & res_upper);
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
-    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 128usize, 1usize).unwrap();
+    let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
     // let target_num = Polynomial::from(t_new);
diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index da9b4c7..14f4d36 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1072,6 +1072,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         modulus: &Self,
     ) -> Result<(BigNat<Scalar>, BigNat<Scalar>), SynthesisError> {
         self.enforce_limb_width_agreement(other, "mult_mod")?;
+        self.enforce_limb_width_agreement(modulus, "mult_mod, modulus")?;
         let limb_width = self.params.limb_width;
         let quotient_bits =
             (self.n_bits() + other.n_bits()).saturating_sub(modulus.params.min_bits.saturating_sub(1));
-- 
2.43.0


From b09fd80c1fa6f2c0312b22ee0cdcd62dbff45b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 13/33] fix: the remainders of mult_mod and red_mod are less
 than the modulus

---
 src/mp/bignat.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 14f4d36..af35033 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -890,6 +890,16 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         Ok(diff)
     }
 
+    /// Constrain `self` to be less than `other`, assuming that they're both properly carried.
+    fn assert_less<CS: ConstraintSystem<Scalar>>(
+        &self,
+        cs: CS,
+        other: &Self,
+    ) -> Result<(), SynthesisError> {
+        let successor = self.add::<CS>(&BigNat::one::<CS>(self.params.limb_width))?;
+        other.sub(cs, &successor).map(|_| ())
+    }
+
     pub fn mult<CS: ConstraintSystem<Scalar>>(
         &self,
         mut cs: CS,
@@ -1105,6 +1115,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             modulus.limbs.len(),
         )?;
         remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
+        remainder.assert_less(cs.namespace(|| "remainder < modulus"), modulus)?;
         let a_poly = Polynomial::from(self.clone());
         let b_poly = Polynomial::from(other.clone());
         let mod_poly = Polynomial::from(modulus.clone());
@@ -1163,6 +1174,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             modulus.limbs.len(),
         )?;
         remainder.assert_well_formed(cs.namespace(|| "remainder rangecheck"))?;
+        remainder.assert_less(cs.namespace(|| "remainder < modulus"), modulus)?;
         let mod_poly = Polynomial::from(modulus.clone());
         let q_poly = Polynomial::from(BigNat::from(quotient.clone()));
         let r_poly = Polynomial::from(BigNat::from(remainder.clone()));
-- 
2.43.0


From 7c4a80621e8ae33805cdd7397a6a8341b2597339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:18 +0000
Subject: [PATCH 14/33] fix: BigNat::mux selects numbers with uncarried words
 too

---
 src/mp/bignat.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index af35033..658af0d 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -1349,19 +1349,22 @@ impl<Scalar: PrimeField> Gadget for BigNat<Scalar> {
             eprintln!("Wire mis-match in BigNat mux");
             return Err(SynthesisError::Unsatisfiable);
         }
-        let value: Option<&Self::Value> = s
-            .value
-            .and_then(|b| if b { i1.value() } else { i0.value() });
-        let out: Self = Self::alloc(
+        let limb_values = s.value.and_then(|b| {
+            if b {
+                i1.wire_values()
+            } else {
+                i0.wire_values()
+            }
+        });
+        let out: Self = Self::alloc_from_limbs(
             cs.namespace(|| "out"),
-            value,
-            (),
-            &BigNatParams {
-                min_bits: min(i0.params.min_bits, i1.params.min_bits),
-                max_word: max(i0.params.max_word.clone(), i1.params.max_word.clone()),
-                limb_width: i0.params.limb_width,
-                n_limbs: i0.params.n_limbs,
-            },
+            || limb_values.ok_or(SynthesisError::AssignmentMissing),
+            Some(max(
+                i0.params.max_word.clone(),
+                i1.params.max_word.clone(),
+            )),
+            i0.params.limb_width,
+            i0.params.n_limbs,
         )?;
         let out_wires = out.wires();
         for (i, ((i0w, i1w), out_w)) in i0_wires
-- 
2.43.0


From fc260c1369e185dc168ae8fa76aa4380567d3ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:27 +0000
Subject: [PATCH 15/33] fix: truncated and zero-scaled numbers no longer claim
 their old minimum size

---
 src/mp/bignat.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index 658af0d..f7a13e0 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -691,9 +691,7 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
                 }
             }
             new.params.n_limbs = n_limbs;
-            if new.params.min_bits > new.params.n_limbs * new.params.limb_width {
-                new.params.min_bits = 0;
-            }
+            new.params.min_bits = 0;
         }
         new
     }
@@ -865,6 +863,9 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
             *v *= f_to_nat(&constant);
         }
         new.params.max_word *= f_to_nat(&constant);
+        if constant.is_zero().into() {
+            new.params.min_bits = 0;
+        }
         assert!(new.params.max_word <= (BigInt::from(1) << Scalar::CAPACITY));
         new
     }
-- 
2.43.0


From c134b2f1f74e7f7191709670b13a78d69237cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:37 +0000
Subject: [PATCH 16/33] fix: concatenating with a number without witness leaves
 no partial limb values

---
 src/mp/bignat.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index f7a13e0..aecd90f 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -654,11 +654,10 @@ impl<Scalar: PrimeField> BigNat<Scalar> {
         };
         let mut limbs = other.limbs.clone();
         limbs.extend(self.limbs.iter().cloned());
-        let mut limb_values = other.limb_values.clone();
-        limb_values.as_mut().map(|x| {
+        let limb_values = other.limb_values.as_ref().and_then(|x| {
             self.limb_values
                 .as_ref()
-                .map(|y| x.extend(y.iter().cloned()))
+                .map(|y| x.iter().chain(y).cloned().collect())
         });
         let value = self.value.clone().and_then(|sv| {
             other
-- 
2.43.0


From ce9c1df9c6bd5c0b726c6fb9dd78206208468ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 17/33] fix: adding bits without value to a Bitvector drops its
 values instead of misaligning them

---
 src/util/bit.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/util/bit.rs b/src/util/bit.rs
index 2bea764..11c2f3f 100644
--- a/src/util/bit.rs
+++ b/src/util/bit.rs
@@ -77,25 +77,34 @@ impl<Scalar: PrimeField> Bitvector<Scalar> {
     }
 
     pub fn push(&mut self, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.push(v)));
+        match b.value.take() {
+            Some(v) => {
+                self.values.as_mut().map(|vs| vs.push(v));
+            }
+            None => self.values = None,
+        }
         self.bits.push(b.bit);
     }
 
     pub fn insert(&mut self, i: usize, mut b: Bit<Scalar>) {
-        self.values
-            .as_mut()
-            .map(|vs| b.value.take().map(|v| vs.insert(i, v)));
+        match b.value.take() {
+            Some(v) => {
+                self.values.as_mut().map(|vs| vs.insert(i, v));
+            }
+            None => self.values = None,
+        }
         self.bits.insert(i, b.bit);
     }
 
     pub fn append(&mut self, mut other: Self) {
         let ovs = other.values.take();
         self.bits.extend(other.bits.into_iter());
-        self.values
-            .as_mut()
-            .map(|vs| ovs.map(|ovs| vs.extend(ovs.into_iter())));
+        match ovs {
+            Some(ovs) => {
+                self.values.as_mut().map(|vs| vs.extend(ovs.into_iter()));
+            }
+            None => self.values = None,
+        }
     }
 
     pub fn into_bits(mut self) -> Vec<Bit<Scalar>> {
-- 
2.43.0


From 54dd2d773522db7c268fec1a39e71fc364831ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:51 +0000
Subject: [PATCH 18/33] fix: nat_to_f returns None for numbers too big for the
 field

---
 src/util/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index c398734..e0cad62 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -21,7 +21,7 @@ pub fn f_to_nat<Scalar: PrimeField>(f: &Scalar) -> BigInt {
 /// Convert a natural number to a field element.
 /// Returns `None` if the number is too big for the field.
 pub fn nat_to_f<Scalar: PrimeField>(n: &BigInt) -> Option<Scalar> {
-    Scalar::from_str_vartime(&format!("{}", n))
+    Scalar::from_str_vartime(&format!("{}", n)).filter(|f| f_to_nat(f) == *n)
 }
 
 /// Convert a `usize` to a field element.
-- 
2.43.0


From 681a3c11a6e73cf938594d86667bc8d0eecaef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 19/33] fix: f_to_usize converts every field element that fits
 a usize

---
 src/util/convert.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/util/convert.rs b/src/util/convert.rs
index e0cad62..637ea5a 100644
--- a/src/util/convert.rs
+++ b/src/util/convert.rs
@@ -31,12 +31,17 @@ pub fn usize_to_f<Scalar: PrimeField>(n: usize) -> Scalar {
     Scalar::from(n as u64)
 }
 
-/// Convert a `usize` to a field element.
-/// Panics if the field is too small.
+/// Convert a field element to a `usize`.
+/// Panics if the `usize` is too small.
 pub fn f_to_usize<Scalar: PrimeField>(n: &Scalar) -> usize {
     let s = n.to_repr();
-    assert!(s.as_ref().iter().skip(1).all(|v| *v == 0));
-    s.as_ref()[0] as usize
+    let size = std::mem::size_of::<usize>();
+    assert!(s.as_ref().iter().skip(size).all(|v| *v == 0));
+    s.as_ref()
+        .iter()
+        .take(size)
+        .rev()
+        .fold(0, |n, v| n << 8 | *v as usize)
 }
 
 #[cfg(test)]
-- 
2.43.0


From aec361ae61df2d043327365cd29a8bf510be67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 20/33] fix: nat_to_limbs refuses negative numbers

---
 src/mp/bignat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/bignat.rs b/src/mp/bignat.rs
index aecd90f..49b3aa8 100644
--- a/src/mp/bignat.rs
+++ b/src/mp/bignat.rs
@@ -50,7 +50,7 @@ pub fn nat_to_limbs<'a, Scalar: PrimeField>(
 ) -> Result<Vec<Scalar>, SynthesisError> {
     let mask = int_with_n_ones(limb_width);
     let mut nat = nat.clone();
-    if nat.bits() as usize <= n_limbs * limb_width {
+    if nat >= BigInt::from(0) && nat.bits() as usize <= n_limbs * limb_width {
         Ok((0..n_limbs)
             .map(|_| {
                 let r = BigInt::from(&nat & &mask);
-- 
2.43.0


From 8d45f608d2fb8e862ecd49bd348a83951a6041c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 21/33] fix: a forced LazyCell can be borrowed while it is
 borrowed

---
 src/util/lazy.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/lazy.rs b/src/util/lazy.rs
index 62180e0..25def62 100644
--- a/src/util/lazy.rs
+++ b/src/util/lazy.rs
@@ -22,6 +22,9 @@ impl<T, F: FnOnce() -> T> LazyCell<T, F> {
     }
     fn force(&self) {
         use self::LazyCellInner::*;
+        if let Forced(_) = *self.cell.borrow() {
+            return;
+        }
         let mut cell_ref = self.cell.borrow_mut();
         let val = match std::mem::replace(&mut *cell_ref, Empty) {
             Forced(t) => t,
-- 
2.43.0


From 602bfa5359f5bfd10841d529a1febecc952052ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 22/33] fix: the difficulty update constrains its timespan
 instead of asserting it

---
 src/btc_validation/difficulty_update.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 33974f4..4273268 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -1,4 +1,5 @@
 use bellpepper_core::{ConstraintSystem, SynthesisError};
+use bellpepper::gadgets::boolean::Boolean;
 use bellpepper::gadgets::num::AllocatedNum;
 use ff::PrimeField;
 use crate::btc_validation::median;
@@ -42,9 +43,10 @@ CS: ConstraintSystem<Scalar>,
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum above lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t_sum below upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
     
     // // To verify if T_new * 2016 * 10 * 60 == t_sum * T_old
     // let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
@@ -84,9 +86,10 @@ CS: ConstraintSystem<Scalar>,
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
 
-    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap().get_value().unwrap();
-    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap().get_value().unwrap();
-    assert!(res_lower & res_upper);
+    let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
+    let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t sum above lower bound"), &res_lower, &Boolean::constant(true)).unwrap();
+    Boolean::enforce_equal(cs.namespace(|| "t sum below upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
-- 
2.43.0


From 6782dd8a65a5892bd85109fdc3243057d2b7ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 23/33] fix: the difficulty update's constants are constrained
 to their values

---
 src/btc_validation/difficulty_update.rs | 36 +++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index 4273268..f832bb8 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -42,6 +42,18 @@ CS: ConstraintSystem<Scalar>,
 
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    cs.enforce(
+        || "Lower acceptable t_sum is a quarter of two weeks",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()),
+    );
+    cs.enforce(
+        || "Upper acceptable t_sum is four times two weeks",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + t_sum_upper.get_variable() - (Scalar::from(2016 * 10 * 60 * 4 as u64), CS::one()),
+    );
 
     let res_lower = median::less_than(cs.namespace(|| "res_lower"), &t_sum_lower, &fe_t_sum, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res_upper"), &fe_t_sum, &t_sum_upper, 32).unwrap();
@@ -57,6 +69,12 @@ CS: ConstraintSystem<Scalar>,
 
     // lhs.equal(cs.namespace(|| "difficulty update verified"), &rhs).unwrap()
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    cs.enforce(
+        || "t_ideal_sum is two weeks",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()),
+    );
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t_ideal_sum"), t_ideal_sum, 64usize, 2usize).unwrap();
     
     let (t_new, _t) =  prev_target.mult_mod(cs.namespace(|| "T_new compute"), &t_sum, &t_2016_10_60).unwrap();
@@ -85,6 +103,18 @@ CS: ConstraintSystem<Scalar>,
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
+    cs.enforce(
+        || "Lower acceptable t sum is a quarter of two weeks",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + t_sum_lower.get_variable() - (Scalar::from(2016 * 10 * 60 / 4 as u64), CS::one()),
+    );
+    cs.enforce(
+        || "Upper acceptable t sum is four times two weeks",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + t_sum_upper.get_variable() - (Scalar::from(2016 * 10 * 60 * 4 as u64), CS::one()),
+    );
 
     let res_lower = median::less_than(cs.namespace(|| "res lower"), &t_sum_lower, sum_timestamps, 32).unwrap();
     let res_upper = median::less_than(cs.namespace(|| "res upper"), sum_timestamps, &t_sum_upper, 32).unwrap();
@@ -92,6 +122,12 @@ CS: ConstraintSystem<Scalar>,
     Boolean::enforce_equal(cs.namespace(|| "t sum below upper bound"), &res_upper, &Boolean::constant(true)).unwrap();
 
     let t_ideal_sum = num::Num::alloc(cs.namespace(|| "2016 * 10 * 60 or 2 weeks"), || Ok(Scalar::from(2016 * 10 * 60 as u64))).unwrap();
+    cs.enforce(
+        || "t_ideal_sum is two weeks",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + &t_ideal_sum.num - (Scalar::from(2016 * 10 * 60 as u64), CS::one()),
+    );
     let t_2016_10_60 = BigNat::from_num(cs.namespace(|| "BigNat t ideal sum"), t_ideal_sum, 64usize, 1usize).unwrap();
     
     let (t_new, _t) =  prev_targ.mult_mod(cs.namespace(|| "T new compute"), &t_sum, &t_2016_10_60).unwrap();
-- 
2.43.0


From 6702f28cbc6606e30799ca2487385f1329cf7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 24/33] fix: verify_difficulty_update bounds the timespan it
 scales by

---
 src/btc_validation/difficulty_update.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/btc_validation/difficulty_update.rs b/src/btc_validation/difficulty_update.rs
index f832bb8..2ff0154 100644
--- a/src/btc_validation/difficulty_update.rs
+++ b/src/btc_validation/difficulty_update.rs
@@ -20,6 +20,7 @@ Scalar: PrimeField,
 CS: ConstraintSystem<Scalar>,
 {
     let t_sum_num = num::Num::alloc(cs.namespace(|| "Sum of 2016 blocks timestamps"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    let t_sum_lc = t_sum_num.num.clone();
     let t_sum = BigNat::from_num(cs.namespace(|| "BigNat t_sum"), t_sum_num, 64usize, 2usize).unwrap();
 
     let target_upper = num::Num::alloc(cs.namespace(|| "Most significant 128 bits of target"), || Ok(Scalar::from_u128(current_target_u))).unwrap();
@@ -39,6 +40,12 @@ CS: ConstraintSystem<Scalar>,
     // To verify if T_old / 4 < T_new < 4 * T_old
     // is the same as verifying 2016 * 10 * 60 / 4 < t_sum < 2016 * 10 * 60 * 4
     let fe_t_sum = AllocatedNum::alloc(cs.namespace(|| "Timestamps sum"), || Ok(Scalar::from(sum_timestamps as u64))).unwrap();
+    cs.enforce(
+        || "Timestamps sum == t_sum",
+        |lc| lc,
+        |lc| lc,
+        |lc| lc + fe_t_sum.get_variable() - &t_sum_lc,
+    );
 
     let t_sum_lower = AllocatedNum::alloc(cs.namespace(|| "Lower acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 / 4 as u64))).unwrap();
     let t_sum_upper = AllocatedNum::alloc(cs.namespace(|| "Upper acceptable t_sum"), || Ok(Scalar::from(2016 * 10 * 60 * 4 as u64))).unwrap();
-- 
2.43.0


From af31a2734cc2a9279dec599235f9134614b497b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:24 +0000
Subject: [PATCH 25/33] fix: decode a header's target and timestamp from its
 bytes

---
 src/btc_validation/header_step.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index eaf1bef..1d48e09 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -190,11 +190,14 @@ where
         let n_bits = header[9] >> 32;
         let b0 = n_bits % 256u64;
         let b3 = n_bits >> 24;
-        let b2 = n_bits >> 16 - b3 << 24;
-        let b1 = n_bits >> 8 - b3 << 24 - b2 << 16;
+        let b2 = (n_bits >> 16) - (b3 << 8);
+        let b1 = (n_bits >> 8) - (b3 << 16) - (b2 << 8);
         
         let target = AllocatedNum::alloc(cs.namespace(|| "Block target"), || {
-            let thresh_mantissa = b1 << 16 + b2 << 8 + b3;
+            let thresh_mantissa = (b1 << 16) + (b2 << 8) + b3;
+            if b0 < 3 || b0 > 29 {
+                return Err(SynthesisError::Unsatisfiable);
+            }
             let exponent = (b0 - 3) as usize;
 
             let targ: F = if exponent >= 13 {
@@ -209,7 +212,7 @@ where
             };
 
             Ok(targ)
-        }).unwrap();
+        })?;
 
         // Current block hash computation
         let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
@@ -269,9 +272,9 @@ where
         let n_time = header[8] % (1 << 32);
         let b_t0 = n_time % 256u64; // 4d
         let b_t3 = n_time >> 24;  // a6
-        let b_t2 = n_time >> 16 - b_t3 << 24; // c8
-        let b_t1 = n_time >> 8 - b_t3 << 24 - b_t2 << 16; // cb
-        let n_time_endian = b_t0 << 24 + b_t1 << 16 + b_t2 << 8 + b_t1;
+        let b_t2 = (n_time >> 16) - (b_t3 << 8); // c8
+        let b_t1 = (n_time >> 8) - (b_t3 << 16) - (b_t2 << 8); // cb
+        let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
         let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
-- 
2.43.0


From 6374993391c2504c5570d51a75c9968e4712a9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 26/33] fix: the header step returns its outputs

---
 src/btc_validation/header_step.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 1d48e09..ccf637c 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -410,7 +410,7 @@ where
         //
         // If the counter i.e z_i[14] == 2015, then z_out[14] = 0. Else, z_out[14] = z_i[14] + 1.
         let mut z_out: Vec<AllocatedNum<F>> = Vec::new();
-        z_out[0] = curr_hash.clone();
+        z_out.push(curr_hash.clone());
         cs.enforce(
             || "current SHA256d hash out", 
             |lc| lc,
@@ -420,7 +420,7 @@ where
 
         
         for i in 1..=10 {
-            z_out[i] = z_i[i+1].clone();
+            z_out.push(z_i[i+1].clone());
 
             cs.enforce(
                 || format!("timestamp out {}", i), 
@@ -430,7 +430,7 @@ where
             );
         }
 
-        z_out[11] = curr_timestamp.clone();
+        z_out.push(curr_timestamp.clone());
         cs.enforce(
             || "current timestamp out", 
             |lc| lc,
@@ -438,7 +438,7 @@ where
             |lc| lc + z_out[11].get_variable() - curr_timestamp.get_variable(),
         );
 
-        z_out[12] = target.clone();
+        z_out.push(target.clone());
         cs.enforce(
             || "current target out", 
             |lc| lc,
@@ -446,7 +446,7 @@ where
             |lc| lc + z_out[12].get_variable() - target.get_variable(),
         );
 
-        z_out[13] = start_time_epoch.clone();
+        z_out.push(start_time_epoch.clone());
         cs.enforce(
             || "current start time epoch out", 
             |lc| lc,
@@ -454,12 +454,12 @@ where
             |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
         );
 
-        z_out[14] = AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
 
             prev_ctr.add_assign(F::ONE);
             Ok(prev_ctr)
-        }).unwrap();
+        }).unwrap());
 
         cs.enforce(
             || "z_out[14] = z_i[14] + 1", 
@@ -469,13 +469,13 @@ where
         );
 
         // total work
-        z_out[15] = AllocatedNum::alloc(cs.namespace(|| "total work"), || {
+        z_out.push(AllocatedNum::alloc(cs.namespace(|| "total work"), || {
             let prev_total = z_i[15].get_value().unwrap();
             let mut curr_work = block_work.get_value().unwrap();
 
             curr_work.add_assign(&prev_total);
             Ok(curr_work)
-        }).unwrap();
+        }).unwrap());
 
         cs.enforce(
             || "z_out[15] = z_i[15] + block_work", 
-- 
2.43.0


From a9c938ded2361788ad3fdf91bea7d6055f48aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 27/33] fix: the header step constrains its rules instead of
 asserting them

---
 src/btc_validation/header_step.rs | 29 +++++++++++++++--------------
 src/btc_validation/median.rs      | 13 +++++++++++--
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index ccf637c..83e608b 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -179,7 +179,7 @@ where
 
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
-        assert!(r_prev_hash.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "previous hash is the last block hash"), &r_prev_hash, &boolean::Boolean::constant(true))?;
         
         // 2. Check if current hash <= target
         //
@@ -247,23 +247,25 @@ where
 
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
-        assert!(r_curr_hash_targ.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "PoW consensus is achieved"), &r_curr_hash_targ, &boolean::Boolean::constant(true))?;
 
         // 3. Check if timestamp of the current block is greater than the median of previous 11 timestamps
         //
-        let mut times_vec: Vec<u32> = Vec::new(); 
-        for i in 1..=11 {
-            let timestamp = z_i[i].get_value().unwrap();
-            let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
-            times_vec.push(time32[0]);
-        }
-
         // compute median
-        let median = median::compute_median_timestamp(&mut times_vec);
+        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || {
+            let mut times_vec: Vec<u32> = Vec::new(); 
+            for i in 1..=11 {
+                let timestamp = z_i[i].get_value().unwrap();
+                let (_s, time32) = f_to_nat(&timestamp).to_u32_digits();
+                times_vec.push(time32.first().cloned().unwrap_or(0));
+            }
+
+            Ok(F::from(median::compute_median_timestamp(&mut times_vec) as u64))
+        }).unwrap();
 
         // verify median
-        let r_median = median::verify_median_timestamp(cs.namespace(|| "median verify"), &mut times_vec, median).unwrap();
-        assert!(r_median.get_value().unwrap());
+        let r_median = median::verify_median_of(cs.namespace(|| "median verify"), &z_i[1..=11], &median_fe).unwrap();
+        boolean::Boolean::enforce_equal(cs.namespace(|| "median is verified"), &r_median, &boolean::Boolean::constant(true))?;
 
         // check if median < current timestamp
         // Taking the example of block no. 123456
@@ -276,10 +278,9 @@ where
         let b_t1 = (n_time >> 8) - (b_t3 << 16) - (b_t2 << 8); // cb
         let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
-        let median_fe = AllocatedNum::alloc(cs.namespace(|| "median"), || Ok(F::from(median as u64))).unwrap();
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
-        assert!(r_time.get_value().unwrap());
+        boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
 
         // 4. Total work addition
         //
diff --git a/src/btc_validation/median.rs b/src/btc_validation/median.rs
index b8646c7..4c3b8a5 100644
--- a/src/btc_validation/median.rs
+++ b/src/btc_validation/median.rs
@@ -28,6 +28,15 @@ CS: ConstraintSystem<Scalar>,
         fe_timestamps.push(fe_temp);
     }
 
+    verify_median_of(cs, &fe_timestamps, &fe_median)
+}
+
+/// As `verify_median_timestamp`, for a median and timestamps that are allocated already.
+pub fn verify_median_of<Scalar, CS> (mut cs: CS, fe_timestamps: &[AllocatedNum<Scalar>], fe_median: &AllocatedNum<Scalar>) -> Result<Boolean, SynthesisError>
+where
+Scalar: PrimeField,
+CS: ConstraintSystem<Scalar>,
+{
     let mut n_median_occurrences = Num::zero();
     let mut sign_diff = AllocatedNum::alloc(cs.namespace(|| "sign_diff"), || Ok(Scalar::from(0u64))).unwrap();
 
@@ -35,10 +44,10 @@ CS: ConstraintSystem<Scalar>,
 
     for (i, fe_time) in fe_timestamps.iter().enumerate() {
         // n_median_occurrences += 1 if median == timestamp else no change
-        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), &fe_median, fe_time).unwrap();
+        let res_eq = BigNat::equals(cs.namespace(|| format!("check equal for time {}", i)), fe_median, fe_time).unwrap();
         n_median_occurrences = n_median_occurrences.add_bool_with_coeff(CS::one(), &res_eq, Scalar::ONE);
 
-        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), &fe_median, fe_time, 32).unwrap();
+        let res_lt = less_than(cs.namespace(|| format!("res_lt {}", i)), fe_median, fe_time, 32).unwrap();
 
         // delta_sign is the signum of (median - timestamp)
         let delta_sign = AllocatedNum::alloc(cs.namespace(|| format!("signum {}", i)), || {
-- 
2.43.0


From 3e8195d6644790fd41a48dff6317bd96e23f83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:46 +0000
Subject: [PATCH 28/33] fix: hashes and timestamp of the header step are those
 of the hashed header

---
 src/btc_validation/header_step.rs | 71 +++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 18 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 83e608b..0f6c291 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -5,7 +5,7 @@ use crate::btc_validation::{difficulty_update, median};
 use bellpepper_core::{
     boolean,
     num::AllocatedNum,
-    ConstraintSystem, SynthesisError,
+    ConstraintSystem, LinearCombination, SynthesisError,
 };
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
@@ -111,6 +111,18 @@ where
     }
 }
 
+/// The number whose little-endian bytes are given by `bits`, most significant bit of each byte first
+fn pack_le_bytes<F, CS>(bits: &[boolean::Boolean]) -> LinearCombination<F>
+where
+    F: PrimeField,
+    CS: ConstraintSystem<F>,
+{
+    bits.iter().enumerate().fold(LinearCombination::zero(), |lc, (i, b)| {
+        let exponent = 16 * (i/8) + 7 - i;
+        lc + &b.lc(CS::one(), F::from(2u64).pow_vartime([exponent as u64]))
+    })
+}
+
 impl<F> StepCircuit<F> for BlockHeader <F>
 where
     F: PrimeField + PrimeFieldBits,
@@ -144,18 +156,15 @@ where
         // 0x010000009500c43a 25c624520b5100ad f82cb9f9da72fd24 47a496bc600b0000 000000006cd86237 0395dedf1da2841c cda0fc489e3039de 5f1ccddef0e83499 1a65600ea6c8cb4d b3936a1ae3143991
         // here 0x9500c43a25c624520b5100adf82cb9f9da72fd2447a496bc600b000000000000 is the prevhash (0000000000000b60bc96a44724fd72daf9b92cf8ad00510b5224c6253ac40095)
 
-        let mut prev_hash_from_curr_block_vec: Vec<u64> = Vec::new();
-        for i in 0..4 {
-            let hash_vec = (header[i] % (1 << 32 as u64)) * (1<<32 as u64) + header[i+1] / (1 << 32 as u64);
-            prev_hash_from_curr_block_vec.push(hash_vec);
+        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
+        for (i, preimage64) in header.iter().enumerate() {
+            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
+            dummy2.reverse();
+            preimage_vec.append(&mut dummy2);
         }
 
-        let mut prev_hash_from_curr_block: Vec<boolean::Boolean> = Vec::new();
-        for (i, hash64) in prev_hash_from_curr_block_vec.iter().enumerate() {
-            let mut dummy = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy {}", i)), Some(*hash64)).unwrap();
-            dummy.reverse();
-            prev_hash_from_curr_block.append(&mut dummy);
-        }
+        // the hash is in bytes 4 to 35 of the header
+        let prev_hash_from_curr_block = &preimage_vec[32..288];
 
         let prev_hash = AllocatedNum::alloc(cs.namespace(|| {"last block hash"}), || {
             let mut sum: F = F::ZERO;
@@ -177,6 +186,19 @@ where
             Ok(sum)
         }).unwrap();
 
+        // Constrain allocation:
+        // prev_hash is given by the hash's bits, of which the most significant 32 are zero
+        // (a block hash is less than its target; more bits would not fit the field)
+        cs.enforce(
+            || "last block hash allocation",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + prev_hash.get_variable() - &pack_le_bytes::<F, CS>(prev_hash_from_curr_block),
+        );
+        for (i, b) in prev_hash_from_curr_block[224..].iter().enumerate() {
+            boolean::Boolean::enforce_equal(cs.namespace(|| format!("last block hash high bit {}", i)), b, &boolean::Boolean::constant(false))?;
+        }
+
         // equality check
         let r_prev_hash = BigNat::equals(cs.namespace(|| {"Is prev. hash from current block equal to the last block hash?"}), &z_i[0], &prev_hash).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "previous hash is the last block hash"), &r_prev_hash, &boolean::Boolean::constant(true))?;
@@ -215,13 +237,6 @@ where
         })?;
 
         // Current block hash computation
-        let mut preimage_vec: Vec<boolean::Boolean> = Vec::new();
-        for (i, preimage64) in header.iter().enumerate() {
-            let mut dummy2 = boolean::u64_into_boolean_vec_le(cs.namespace(|| format!("dummy2 {}", i)), Some(*preimage64)).unwrap();
-            dummy2.reverse();
-            preimage_vec.append(&mut dummy2);
-        }
-
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
         
@@ -245,6 +260,18 @@ where
             Ok(sum)
         }).unwrap();
 
+        // Constrain allocation:
+        // curr_hash is given by the hash's bits, of which the most significant 32 are zero
+        cs.enforce(
+            || "current block hash allocation",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + curr_hash.get_variable() - &pack_le_bytes::<F, CS>(&out),
+        );
+        for (i, b) in out[224..].iter().enumerate() {
+            boolean::Boolean::enforce_equal(cs.namespace(|| format!("current block hash high bit {}", i)), b, &boolean::Boolean::constant(false))?;
+        }
+
         // less than check
         let r_curr_hash_targ = median::less_than(cs.namespace(|| "Is PoW consensus achieved?"), &curr_hash, &target, 224usize).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "PoW consensus is achieved"), &r_curr_hash_targ, &boolean::Boolean::constant(true))?;
@@ -279,6 +306,14 @@ where
         let n_time_endian = (b_t0 << 24) + (b_t1 << 16) + (b_t2 << 8) + b_t3;
 
         let curr_timestamp = AllocatedNum::alloc(cs.namespace(|| "current timestamp"), || Ok(F::from(n_time_endian))).unwrap();
+        // Constrain allocation:
+        // curr_timestamp is given by bytes 68 to 71 of the header
+        cs.enforce(
+            || "current timestamp allocation",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + curr_timestamp.get_variable() - &pack_le_bytes::<F, CS>(&preimage_vec[544..576]),
+        );
         let r_time = median::less_than(cs.namespace(|| "valid timestamp"), &median_fe, &curr_timestamp, 32usize).unwrap();
         boolean::Boolean::enforce_equal(cs.namespace(|| "timestamp is valid"), &r_time, &boolean::Boolean::constant(true))?;
 
-- 
2.43.0


From ab834611b392bf03a2bb1a3cde6c64202f8c241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 29/33] fix: the header step's target is the header's,
 normalised and at most the maximum

---
 src/btc_validation/header_step.rs | 55 +++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 0f6c291..0d92b90 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -11,6 +11,8 @@ use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
 use crate::util::convert::f_to_nat;
+use crate::util::num::Num;
+use crate::OptionExt;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
 use nova_snark::traits::circuit::StepCircuit;
 
@@ -236,6 +238,47 @@ where
             Ok(targ)
         })?;
 
+        // Constrain allocation:
+        // target = mantissa * 256^exponent, of which bytes 72 to 74 of the header are the mantissa and byte 75 is exponent + 3
+        // The mantissa is normalised, has no sign, and is small enough for the target to fit the field
+        let mantissa_lc = pack_le_bytes::<F, CS>(&preimage_vec[576..600]);
+        let exponent_lc = pack_le_bytes::<F, CS>(&preimage_vec[600..608]) - (F::from(3u64), CS::one());
+        let mantissa_f = F::from((b1 << 16) + (b2 << 8) + b3);
+        let exponent_f = F::from(b0) - F::from(3u64);
+        boolean::Boolean::enforce_equal(cs.namespace(|| "mantissa sign"), &preimage_vec[592], &boolean::Boolean::constant(false))?;
+        Num::new(Some(mantissa_f - F::from(0x8000u64)), mantissa_lc.clone() - (F::from(0x8000u64), CS::one()))
+            .fits_in_bits(cs.namespace(|| "mantissa is normalised"), 23)?;
+        Num::new(Some(F::from(26u64) - exponent_f), LinearCombination::zero() + (F::from(26u64), CS::one()) - &exponent_lc)
+            .fits_in_bits(cs.namespace(|| "exponent is at most 26"), 5)?;
+        let exponent_bits = Num::new(Some(exponent_f), exponent_lc).decompose(cs.namespace(|| "exponent bits"), 5)?;
+
+        // scale = 256^exponent
+        let mut scale = AllocatedNum::alloc(cs.namespace(|| "scale by no bit"), || Ok(F::ONE))?;
+        cs.enforce(|| "scale by no bit == 1", |lc| lc, |lc| lc, |lc| lc + scale.get_variable() - CS::one());
+        for (i, b) in exponent_bits.bits.iter().enumerate() {
+            let power = F::from(256u64).pow_vartime([1u64 << i]);
+            let scaled = AllocatedNum::alloc(cs.namespace(|| format!("scale by bit {}", i)), || {
+                let mut s = *scale.get_value().grab()?;
+                if **exponent_bits.values.grab()?.get(i).grab()? {
+                    s.mul_assign(&power);
+                }
+                Ok(s)
+            })?;
+            cs.enforce(
+                || format!("scale by bit {} if set", i),
+                |lc| lc + scale.get_variable(),
+                |lc| lc + CS::one() + (power - F::ONE, b),
+                |lc| lc + scaled.get_variable(),
+            );
+            scale = scaled;
+        }
+        cs.enforce(
+            || "target = mantissa * scale",
+            |lc| lc + &mantissa_lc,
+            |lc| lc + scale.get_variable(),
+            |lc| lc + target.get_variable(),
+        );
+
         // Current block hash computation
         let out_sha256 = sha256::sha256(cs.namespace(|| "SHA 256"), &preimage_vec).unwrap();
         let out = sha256::sha256(cs.namespace(|| "SHA 256d"), &out_sha256).unwrap();
@@ -327,6 +370,18 @@ where
             Ok(max_thresh)
         }).unwrap();
 
+        // Constrain allocation:
+        // max_target = 0xFFFF * 2^208
+        let max_target_f = F::from(0xFFFFu64) * F::from(2u64).pow_vartime([208u64]);
+        cs.enforce(
+            || "maximum target allocation",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + max_target.get_variable() - (max_target_f, CS::one()),
+        );
+        let r_max_target = median::leq(cs.namespace(|| "Is the target permitted?"), &target, &max_target, 240usize)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "target is permitted"), &r_max_target, &boolean::Boolean::constant(true))?;
+
         let block_work = AllocatedNum::alloc(cs.namespace(|| "work or difficulty"), || {
             let diff = max_target.get_value().unwrap();
             let targ = target.get_value().unwrap();
-- 
2.43.0


From 1daa7dfbffa08505a361e6809e617c5adffdd60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:02 +0000
Subject: [PATCH 30/33] fix: chain work is the whole part of maximum target by
 target

---
 src/btc_validation/header_step.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 0d92b90..adc7105 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -10,7 +10,7 @@ use bellpepper_core::{
 use ff::{PrimeField, PrimeFieldBits};
 use bellpepper::gadgets::sha256;
 use crate::mp::bignat::BigNat;
-use crate::util::convert::f_to_nat;
+use crate::util::convert::{f_to_nat, nat_to_f};
 use crate::util::num::Num;
 use crate::OptionExt;
 // use bellpepper::gadgets::num::{AllocatedNum, Num};
@@ -125,6 +125,16 @@ where
     })
 }
 
+/// The number whose limbs are those of `nat`
+fn pack_limbs<F>(nat: &BigNat<F>) -> LinearCombination<F>
+where
+    F: PrimeField,
+{
+    nat.limbs.iter().enumerate().fold(LinearCombination::zero(), |lc, (i, limb)| {
+        lc + (F::from(2u64).pow_vartime([(nat.params.limb_width * i) as u64]), limb)
+    })
+}
+
 impl<F> StepCircuit<F> for BlockHeader <F>
 where
     F: PrimeField + PrimeFieldBits,
@@ -390,18 +400,19 @@ where
             let tar_big = f_to_nat(&targ);
             let work = diff_big / tar_big;
 
-            let (_s2, work_u64) = work.to_u64_digits();
-
-            Ok(F::from(work_u64[0] as u64))
+            Ok(*nat_to_f(&work).grab()?)
         }).unwrap();
 
         // Constrain allocation:
-        // max_target = target * block_work
+        // max_target = target * block_work + remainder, where remainder < target
+        let max_target_nat = BigNat::from_num(cs.namespace(|| "BigNat maximum target"), Num::from(max_target), 64usize, 4usize)?;
+        let target_nat = BigNat::from_num(cs.namespace(|| "BigNat target"), Num::from(target.clone()), 64usize, 4usize)?;
+        let (work_nat, _remainder) = max_target_nat.mult_mod(cs.namespace(|| "maximum target by target"), &BigNat::one::<CS>(64usize), &target_nat)?;
         cs.enforce(
-            || "max_target = target * block_work",
-            |lc| lc + target.get_variable(),
-            |lc| lc + block_work.get_variable(),
-            |lc| lc + max_target.get_variable(),
+            || "block_work is the quotient",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + block_work.get_variable() - &pack_limbs(&work_nat),
         );
 
         // 5. Target update
-- 
2.43.0


From 300a801fb45e3b1a533b88df5875d1bac76f5a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:10 +0000
Subject: [PATCH 31/33] fix: retarget by the epoch's timespan, at its first
 block only

---
 src/btc_validation/header_step.rs | 72 +++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 22 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index adc7105..6ca8a21 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -429,28 +429,6 @@ where
             |lc| lc,
         );
 
-        let start_time_epoch = z_i[13].clone();
-        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &z_i[13]).unwrap();
-        let bigint_tar = target_calc.value.unwrap();
-        let (_s2_calc, target_u64_calc) = bigint_tar.to_u64_digits();
-
-        let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
-            let exponent = 8 * (b0 - 3) as usize;
-            let ls_tar = F::from_u128(((target_u64_calc[0] as u128) + (target_u64_calc[1] as u128) << 64) >> exponent);
-            let ms64b = F::from_u128((target_u64_calc[2] as u128) << 64);
-            let mut pow_2 = F::from_u128((1 << 64)>>exponent);
-
-            pow_2.mul_assign(&ms64b);
-            pow_2.add_assign(&ls_tar);
-
-            let exp_2 = F::from_u128(1u128 << exponent);
-            pow_2.mul_assign(&exp_2);
-
-            Ok(pow_2)
-        }).unwrap();
-
-        // let _r = BigNat::equals(cs.namespace(|| "verify target update"), &target, &calculated_target).unwrap();
-        
         // Either the counter z_i[14] is non-zero or curr_target = calc_target = z_i[12] * t_sum / (2016*10*60)
         let delta_inv = AllocatedNum::alloc(cs.namespace(|| "delta_inv"), || {
             let delta = z_i[14].get_value().unwrap();
@@ -493,6 +471,56 @@ where
             |lc| lc,
         );
 
+        let start_time_epoch = z_i[13].clone();
+        // The timespan of the last 2016 blocks, or two weeks if the target is not to be updated
+        let timespan = AllocatedNum::alloc(cs.namespace(|| "timespan"), || {
+            let mut span = *z_i[11].get_value().grab()?;
+            span.sub_assign(z_i[13].get_value().grab()?);
+
+            if t.get_value().grab()?.is_zero().unwrap_u8() == 1 {
+                Ok(span)
+            } else {
+                Ok(F::from(2016 * 10 * 60u64))
+            }
+        })?;
+
+        // Constrain allocation:
+        // timespan = t * (2016 * 10 * 60) + (1 - t) * (z_i[11] - z_i[13])
+        cs.enforce(
+            || "timespan allocation",
+            |lc| lc + (F::from(2016 * 10 * 60u64), CS::one()) - z_i[11].get_variable() + z_i[13].get_variable(),
+            |lc| lc + t.get_variable(),
+            |lc| lc + timespan.get_variable() - z_i[11].get_variable() + z_i[13].get_variable(),
+        );
+
+        let target_calc = difficulty_update::calculate_difficulty_update(cs.namespace(|| "target calculated"), &z_i[12], &timespan).unwrap();
+
+        let calculated_target = AllocatedNum::alloc(cs.namespace(|| "target updated"), || {
+            let exponent = 8 * (b0 - 3) as u32;
+
+            Ok(*nat_to_f(&((target_calc.value.grab()? >> exponent) << exponent)).grab()?)
+        }).unwrap();
+
+        // Constrain allocation:
+        // calculated_target is target_calc without its part below the precision of target,
+        // i.e 0 <= target_calc - calculated_target < scale
+        let low_part = AllocatedNum::alloc(cs.namespace(|| "target below precision"), || {
+            let mut low: F = *nat_to_f(target_calc.value.grab()?).grab()?;
+            low.sub_assign(calculated_target.get_value().grab()?);
+            Ok(low)
+        })?;
+        cs.enforce(
+            || "target below precision allocation",
+            |lc| lc,
+            |lc| lc,
+            |lc| lc + &pack_limbs(&target_calc) - calculated_target.get_variable() - low_part.get_variable(),
+        );
+        Num::from(low_part.clone()).fits_in_bits(cs.namespace(|| "target below precision fits"), 208)?;
+        let r_low_part = median::less_than(cs.namespace(|| "Is it below precision?"), &low_part, &scale, 224usize)?;
+        boolean::Boolean::enforce_equal(cs.namespace(|| "it is below precision"), &r_low_part, &boolean::Boolean::constant(true))?;
+
+        // let _r = BigNat::equals(cs.namespace(|| "verify target update"), &target, &calculated_target).unwrap();
+
         // Constrain:
         // (curr_target - calc_target) * (t - 1) == 0
         // This enforces that correct `delta_inv` was provided,
-- 
2.43.0


From 35d55ac968d3a56aee4d999ab86ddebb5bbc26fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:18 +0000
Subject: [PATCH 32/33] fix: the header step counts blocks modulo 2016 and
 restarts the epoch's time

---
 src/btc_validation/header_step.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/btc_validation/header_step.rs b/src/btc_validation/header_step.rs
index 6ca8a21..1a31fe9 100644
--- a/src/btc_validation/header_step.rs
+++ b/src/btc_validation/header_step.rs
@@ -471,7 +471,6 @@ where
             |lc| lc,
         );
 
-        let start_time_epoch = z_i[13].clone();
         // The timespan of the last 2016 blocks, or two weeks if the target is not to be updated
         let timespan = AllocatedNum::alloc(cs.namespace(|| "timespan"), || {
             let mut span = *z_i[11].get_value().grab()?;
@@ -533,8 +532,23 @@ where
         );
 
         
-        // Either the counter z_i[14] is not equal to 2015 or start_time_epoch = z_i[13]
+        // Either the counter z_i[14] is equal to 0 or start_time_epoch = z_i[13]
+        let start_time_epoch = AllocatedNum::alloc(cs.namespace(|| "start time epoch"), || {
+            if t.get_value().grab()?.is_zero().unwrap_u8() == 1 {
+                Ok(*curr_timestamp.get_value().grab()?)
+            } else {
+                Ok(*z_i[13].get_value().grab()?)
+            }
+        })?;
 
+        // Constrain allocation:
+        // start_time_epoch = t * z_i[13] + (1 - t) * curr_timestamp
+        cs.enforce(
+            || "start time epoch allocation",
+            |lc| lc + z_i[13].get_variable() - curr_timestamp.get_variable(),
+            |lc| lc + t.get_variable(),
+            |lc| lc + start_time_epoch.get_variable() - curr_timestamp.get_variable(),
+        );
 
         // 6. z_out
         //
@@ -584,17 +598,23 @@ where
             |lc| lc + z_out[13].get_variable() - start_time_epoch.get_variable(),
         );
 
+        let last_ctr = AllocatedNum::alloc(cs.namespace(|| "last counter"), || Ok(F::from(2015u64)))?;
+        cs.enforce(|| "last counter == 2015", |lc| lc, |lc| lc, |lc| lc + last_ctr.get_variable() - (F::from(2015u64), CS::one()));
+        let is_last = BigNat::equals(cs.namespace(|| "Is this the last block of its epoch?"), &z_i[14], &last_ctr)?;
         z_out.push(AllocatedNum::alloc(cs.namespace(|| "target counter"), || {
             let mut prev_ctr = z_i[14].get_value().unwrap();
 
+            if *is_last.get_value().grab()? {
+                return Ok(F::ZERO);
+            }
             prev_ctr.add_assign(F::ONE);
             Ok(prev_ctr)
         }).unwrap());
 
         cs.enforce(
-            || "z_out[14] = z_i[14] + 1", 
+            || "z_out[14] = z_i[14] + 1 or 0", 
             |lc| lc + CS::one() + z_i[14].get_variable(),
-            |lc| lc + CS::one(),
+            |lc| lc + CS::one() - &is_last.lc(CS::one(), F::ONE),
             |lc| lc + z_out[14].get_variable(),
         );
 
-- 
2.43.0


From 7c3b8c37ccad74947a253f76738c8de225481496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 33/33] fix: the product of empty polynomials is the empty
 polynomial

---
 src/mp/poly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp/poly.rs b/src/mp/poly.rs
index 0a722b6..05163e6 100644
--- a/src/mp/poly.rs
+++ b/src/mp/poly.rs
@@ -38,7 +38,7 @@ impl<Scalar: PrimeField> Polynomial<Scalar> {
         mut cs: CS,
         other: &Self,
     ) -> Result<Polynomial<Scalar>, SynthesisError> {
-        let n_product_coeffs = self.coefficients.len() + other.coefficients.len() - 1;
+        let n_product_coeffs = (self.coefficients.len() + other.coefficients.len()).saturating_sub(1);
         let values = self.values.as_ref().and_then(|self_vs| {
             other.values.as_ref().map(|other_vs| {
                 let mut values: Vec<Scalar> = std::iter::repeat_with(|| Scalar::ZERO)
-- 
2.43.0

