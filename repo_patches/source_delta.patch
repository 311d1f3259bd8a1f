From 126cf87e79f39e47b8dd738ff3269355bf545087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:57 +0000
Subject: [PATCH 1/8] fix: is_one must test the least significant digit for
 multi-digit integers

---
 src/apint/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/apint/utils.rs b/src/apint/utils.rs
index 7b9cf95..cdc66e8 100644
--- a/src/apint/utils.rs
+++ b/src/apint/utils.rs
@@ -403,9 +403,9 @@ impl ApInt {
         match self.access_data() {
             DataAccess::Inl(digit) => digit == Digit::ONE,
             DataAccess::Ext(digits) => {
-                let (last, rest) =
-                    digits.split_last().unwrap_or_else(|| unreachable!());
-                (*last == Digit::ONE)
+                let (first, rest) =
+                    digits.split_first().unwrap_or_else(|| unreachable!());
+                (*first == Digit::ONE)
                     && rest.iter().all(|digit| digit.is_zero())
             }
         }
-- 
2.43.0


From 80fbcbf62db56090a3a19b3610b6a80e3706b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:57 +0000
Subject: [PATCH 2/8] fix: is_all_set must inspect the most significant digit
 for all widths

---
 src/apint/bitwise.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/apint/bitwise.rs b/src/apint/bitwise.rs
index 8a8fe3c..25fcc54 100644
--- a/src/apint/bitwise.rs
+++ b/src/apint/bitwise.rs
@@ -182,10 +182,9 @@ impl ApInt {
     /// Returns``true` if all bits in the `ApInt` are set.
     pub fn is_all_set(&self) -> bool {
         let (msb, rest) = self.split_most_significant_digit();
-        if let Some(excess_bits) = self.width().excess_bits() {
-            if msb.repr().count_ones() as usize != excess_bits {
-                return false
-            }
+        let msb_bits = self.width().excess_bits().unwrap_or(Digit::BITS);
+        if msb.repr().count_ones() as usize != msb_bits {
+            return false
         }
         rest.iter().all(|d| *d == Digit::ONES)
     }
-- 
2.43.0


From 72d41beaebf5ff737449b931afc1e9249e93dc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:20 +0000
Subject: [PATCH 3/8] fix: signed division and remainder report unmatching bit
 widths instead of panicking

---
 src/apint/arithmetic.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/apint/arithmetic.rs b/src/apint/arithmetic.rs
index a86df73..66eb44c 100644
--- a/src/apint/arithmetic.rs
+++ b/src/apint/arithmetic.rs
@@ -1674,6 +1674,9 @@ impl ApInt {
                 lhs.clone(),
             ))
         }
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         let (negate_lhs, negate_rhs) = match ((*lhs).msb(), (*rhs).msb()) {
             (false, false) => (false, false),
             (true, false) => {
@@ -1719,6 +1722,9 @@ impl ApInt {
                 lhs.clone(),
             ))
         }
+        if lhs.width() != rhs.width() {
+            return Error::unmatching_bitwidths(lhs.width(), rhs.width()).into()
+        }
         let (negate_lhs, negate_rhs) = match ((*lhs).msb(), (*rhs).msb()) {
             (false, false) => (false, false),
             (true, false) => {
@@ -1757,6 +1763,9 @@ impl ApInt {
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedDiv, self.clone()))
         }
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         let mut rhs_clone = (*rhs).clone();
         let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
             (false, false) => false,
@@ -1804,6 +1813,9 @@ impl ApInt {
         if rhs.is_zero() {
             return Err(Error::division_by_zero(DivOp::SignedRem, self.clone()))
         }
+        if self.width() != rhs.width() {
+            return Error::unmatching_bitwidths(self.width(), rhs.width()).into()
+        }
         let mut rhs_clone = (*rhs).clone();
         let negate_lhs = match ((*self).msb(), rhs_clone.msb()) {
             (false, false) => false,
-- 
2.43.0


From af1657677fa665a0c35fb7c71415845814bdca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:20 +0000
Subject: [PATCH 4/8] fix: deserializing a compact ApInt from an empty sequence
 is an error, not a panic

---
 src/apint/serde_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/apint/serde_impl.rs b/src/apint/serde_impl.rs
index 1d3c1b8..b4ad7df 100644
--- a/src/apint/serde_impl.rs
+++ b/src/apint/serde_impl.rs
@@ -262,7 +262,9 @@ impl<'de> Deserialize<'de> for ApInt {
             where
                 V: SeqAccess<'de>,
             {
-                let width: BitWidth = seq.next_element()?.unwrap();
+                let width: BitWidth = seq
+                    .next_element()?
+                    .ok_or_else(|| de::Error::invalid_length(0, &self))?;
                 let digits: Vec<Digit> = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-- 
2.43.0


From 55c5543ddfec68c98df8f44fd707e21c7cd70fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:20 +0000
Subject: [PATCH 5/8] fix: invalid string representation errors carry the
 offending position and character

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 8399b4e..8c968db 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -215,7 +215,7 @@ impl Error {
             kind: ErrorKind::InvalidStringRepr {
                 input,
                 radix,
-                pos_char: None,
+                pos_char: Some((pos, ch)),
             },
             message: format!(
                 "Encountered an invalid character (= '{:?}') at position {:?} within \
-- 
2.43.0


From e498bf90bdff8cff4b3cc36c7a7b30b335ca9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:36 +0000
Subject: [PATCH 6/8] fix: parse strings of more than one digit chunk for
 radices that are not powers of two

---
 src/apint/serialization.rs | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index 53e3cea..b5f40eb 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -273,9 +273,6 @@ impl ApInt {
     // Read little-endian radix digits.
     //
     // Forked from: https://github.com/rust-num/num/blob/master/bigint/src/biguint.rs#L177
-    //
-    // TODO: This does not work, yet. Some parts of the algorithm are
-    //       commented-out since the required functionality does not exist, yet.
     fn from_radix_digits(v: &[u8], radix: Radix) -> ApInt {
         use crate::digit::DigitRepr;
 
@@ -291,7 +288,7 @@ impl ApInt {
         let big_digits = (bits / Digit::BITS) + 1;
         let mut data = Vec::with_capacity(big_digits as usize);
 
-        let (_base, power) = radix.get_radix_base();
+        let (base, power) = radix.get_radix_base();
         let radix = DigitRepr::from(radix.to_u8());
 
         let r = v.len() % power;
@@ -305,28 +302,20 @@ impl ApInt {
 
         debug_assert!(tail.len() % power == 0);
         for chunk in tail.chunks(power) {
-            if data.last() != Some(&0) {
-                data.push(0);
-            }
-
-            let carry = 0;
-            for _d in &mut data {
-                // *d = mac_with_carry(0, *d, base, &mut carry); // TODO! This
-                // was commented out.
-
-                // // fn carry_mul_add(a: Digit, b: Digit, c: Digit, carry:
-                // Digit) -> DigitAndCarry // Returns the result
-                // of `(a + (b * c)) + carry` and its implied carry value.
-
-                // let DigitAndCarry(d, carry) = carry_mul_add(digit::ZERO, *d,
-                // base, carry); // TODO! This was commented out.
-            }
-            debug_assert!(carry == 0);
-
-            let _n = chunk
+            let n = chunk
                 .iter()
                 .fold(0, |acc, &d| acc * radix + DigitRepr::from(d));
-            // add2(&mut data, &[n]); // TODO: This was commented out.
+
+            // Multiply the digits parsed so far by `base` and add `n`.
+            let mut carry = Digit(n);
+            for d in &mut data {
+                let (lo, hi) = Digit(*d).carrying_mul_add(base, carry);
+                *d = lo.repr();
+                carry = hi;
+            }
+            if !carry.is_zero() {
+                data.push(carry.repr());
+            }
         }
 
         ApInt::from_iter(data.into_iter().map(Digit)).unwrap()
-- 
2.43.0


From 0313b6ec607feb3db1cba7dcf22705a18f7d5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:28 +0000
Subject: [PATCH 7/8] fix: checked conversion of Int to primitives follows the
 signed value

---
 src/int.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 2f6fb4b..6a6e5a5 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -2,10 +2,12 @@
 //! `std_ops.rs`
 
 use crate::{
+    apint::PrimitiveTy,
     utils::{forward_bin_mut_impl, forward_mut_impl, try_forward_bin_mut_impl},
     ApInt,
     BitPos,
     BitWidth,
+    Error,
     Result,
     ShiftAmount,
     UInt,
@@ -473,7 +475,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `u8`.
     pub fn try_to_i8(&self) -> Result<i8> {
-        self.value.try_to_i8()
+        self.verify_lossless(self.resize_to_i8(), PrimitiveTy::I8)
     }
 
     /// Tries to represent the value of this `Int` as a `i16`.
@@ -488,7 +490,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i16`.
     pub fn try_to_i16(&self) -> Result<i16> {
-        self.value.try_to_i16()
+        self.verify_lossless(self.resize_to_i16(), PrimitiveTy::I16)
     }
 
     /// Tries to represent the value of this `Int` as a `i32`.
@@ -503,7 +505,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i32`.
     pub fn try_to_i32(&self) -> Result<i32> {
-        self.value.try_to_i32()
+        self.verify_lossless(self.resize_to_i32(), PrimitiveTy::I32)
     }
 
     /// Tries to represent the value of this `Int` as a `i64`.
@@ -518,7 +520,7 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i64`.
     pub fn try_to_i64(&self) -> Result<i64> {
-        self.value.try_to_i64()
+        self.verify_lossless(self.resize_to_i64(), PrimitiveTy::I64)
     }
 
     /// Tries to represent the value of this `Int` as a `i128`.
@@ -537,7 +539,25 @@ impl Int {
     /// - If the value represented by this `Int` can not be represented by a
     ///   `i128`.
     pub fn try_to_i128(&self) -> Result<i128> {
-        self.value.try_to_i128()
+        self.verify_lossless(self.resize_to_i128(), PrimitiveTy::I128)
+    }
+
+    /// Returns `val` if it represents the same value as this `Int`, or an error
+    /// stating that `prim_ty` cannot represent the value of this `Int`.
+    fn verify_lossless<T>(&self, val: T, prim_ty: PrimitiveTy) -> Result<T>
+    where
+        T: Copy + Into<Int>,
+    {
+        if self.width() > prim_ty.associated_width()
+            && val.into().into_resize(self.width()) != *self
+        {
+            return Error::encountered_unrepresentable_value(
+                self.value.clone(),
+                prim_ty,
+            )
+            .into()
+        }
+        Ok(val)
     }
 }
 
-- 
2.43.0


From c5449b377f6fbf14dc1629854473a3ad81ae3a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:52 +0000
Subject: [PATCH 8/8] fix: errors for non-ASCII characters in parsed text carry
 the character of the input

---
 src/apint/serialization.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/apint/serialization.rs b/src/apint/serialization.rs
index b5f40eb..aaf3fa0 100644
--- a/src/apint/serialization.rs
+++ b/src/apint/serialization.rs
@@ -180,7 +180,8 @@ impl ApInt {
                     input,
                     radix,
                     i,
-                    char::from(b),
+                    // All bytes before `i` are ASCII, so a character starts there.
+                    input[i..].chars().next().unwrap_or_else(|| char::from(b)),
                 ))
             }
             v.push(d);
-- 
2.43.0

