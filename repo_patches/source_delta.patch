From e77bbe91e0945cabd4149477d86027246e0a02af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 01/11] fix: is_greater_or_equal returned false for equal
 values wider than 64 bits

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 8063b3e..edcfa0d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -244,7 +244,7 @@ pub trait BitVecOps {
             // specialized for 1-word case
             crate::bv::arithmetic::cmp_greater_equal(&self.words()[0..1], &rhs.words()[0..1])
         } else {
-            crate::bv::arithmetic::cmp_greater(self.words(), rhs.words())
+            crate::bv::arithmetic::cmp_greater_equal(self.words(), rhs.words())
         }
     }
 
-- 
2.43.0


From 22aee5c712f1cfae02fa462d289a3d2ccd3878d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 02/11] fix: shift_left by a multiple of the word size left
 unused bits set

---
 src/bv/arithmetic.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bv/arithmetic.rs b/src/bv/arithmetic.rs
index ceebf69..7a703ea 100644
--- a/src/bv/arithmetic.rs
+++ b/src/bv/arithmetic.rs
@@ -319,9 +319,7 @@ pub(crate) fn shift_left(dst: &mut [Word], a: &[Word], b: &[Word], width: WidthI
             prev = *s >> shift_right;
         }
     }
-    if shift_left > 0 {
-        mask_msb(dst, width);
-    }
+    mask_msb(dst, width);
 }
 
 #[inline]
-- 
2.43.0


From 9bc7cbca3640ec37dd8b80fa15bdf68e740b2606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 03/11] fix: to_i64 rejected representable negative values
 wider than 64 bits

---
 src/bv/ops.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index edcfa0d..943be68 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -166,7 +166,10 @@ pub trait BitVecOps {
         } else {
             let all_zero_msbs = self.words().iter().skip(1).all(|w| *w == 0);
             let word_0 = self.words()[0];
-            let all_max_msbs = self.words().iter().skip(1).all(|w| *w == Word::MAX);
+            // the unused bits of the most significant word are always zero
+            let msb_mask = crate::bv::arithmetic::mask(self.width() % Word::BITS);
+            let (msb, middle) = self.words()[1..].split_last().unwrap();
+            let all_max_msbs = *msb == msb_mask && middle.iter().all(|w| *w == Word::MAX);
             match (
                 all_zero_msbs,
                 all_max_msbs,
-- 
2.43.0


From 079d34653209b15dd0c925e31fdbea85b7dc99ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 04/11] fix: signed strings of the smallest number and of
 widths with 64k+1 bits

---
 src/bv/io/strings.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index 830b575..b761742 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -26,9 +26,21 @@ pub(crate) fn to_bit_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_bit_str_internal(&copy, width - 1, out)
+        let digits = magnitude_width(&copy, width);
+        to_bit_str_internal(select_words_for_width(&copy, digits), digits, out)
     } else {
-        to_bit_str(values, width - 1)
+        to_bit_str(select_words_for_width(values, width - 1), width - 1)
+    }
+}
+
+/// The magnitude of a negative number fits into `width - 1` bits, unless it is the
+/// smallest number that can be represented.
+#[inline]
+fn magnitude_width(magnitude: &[Word], width: WidthInt) -> WidthInt {
+    if is_neg(magnitude, width) {
+        width
+    } else {
+        width - 1
     }
 }
 
@@ -76,7 +88,8 @@ pub(crate) fn to_hex_str_signed(values: &[Word], width: WidthInt) -> String {
         negate_in_place(&mut copy, width);
         let mut out = String::with_capacity(width as usize + 1);
         out.push('-');
-        to_hex_str_internal(select_words_for_width(&copy, width - 1), width - 1, out)
+        let digits = magnitude_width(&copy, width);
+        to_hex_str_internal(select_words_for_width(&copy, digits), digits, out)
     } else {
         to_hex_str(select_words_for_width(values, width - 1), width - 1)
     }
-- 
2.43.0


From 6f76fcc2cbfb4fa75f3d273f01ef09e3bfe73f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 05/11] fix: from_str_radix did not check the width and
 panicked on long hex strings

---
 src/bv/io/strings.rs | 62 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/src/bv/io/strings.rs b/src/bv/io/strings.rs
index b761742..6382076 100644
--- a/src/bv/io/strings.rs
+++ b/src/bv/io/strings.rs
@@ -2,7 +2,7 @@
 // released under BSD 3-Clause License
 // author: Kevin Laeufer <laeufer@berkeley.edu>
 
-use crate::bv::arithmetic::{is_neg, negate_in_place};
+use crate::bv::arithmetic::{clear, is_neg, mask, negate_in_place};
 use crate::{WidthInt, Word};
 use std::fmt::Write;
 
@@ -242,11 +242,23 @@ pub(crate) fn from_str_radix(
         });
     }
 
+    // there may only be a single sign
+    if is_negative && value.starts_with('+') {
+        return Err(ParseIntError {
+            kind: IntErrorKind::InvalidDigit,
+        });
+    }
+
     // use Rust standard parsing infrastructure when the result needs to fit into a u64 or u128
     match out {
         [out] => {
             debug_assert!(width <= 64);
             *out = match u64::from_str_radix(value, radix) {
+                Ok(v) if v > mask(width) => {
+                    return Err(ParseIntError {
+                        kind: IntErrorKind::ExceedsWidth,
+                    });
+                }
                 Ok(v) => v,
                 Err(e) => {
                     let kind = match e.kind() {
@@ -261,6 +273,11 @@ pub(crate) fn from_str_radix(
         [lsb, msb] => {
             debug_assert!(width <= 128);
             let out = match u128::from_str_radix(value, radix) {
+                Ok(v) if (v >> Word::BITS) as Word > mask(width % Word::BITS) => {
+                    return Err(ParseIntError {
+                        kind: IntErrorKind::ExceedsWidth,
+                    });
+                }
                 Ok(v) => v,
                 Err(e) => {
                     let kind = match e.kind() {
@@ -292,33 +309,47 @@ pub(crate) fn from_str_radix(
                 _ => digits,
             };
 
+            // not every word needs to be covered by the digits
+            clear(out);
+
             match radix {
                 2 => parse_base_2(digits, out, width)?,
                 10 => parse_base_10(digits, out, width)?,
-                16 => parse_base_16(digits, out)?,
+                16 => parse_base_16(digits, out, width)?,
                 _ => todo!("Implement support for base {radix}. Currently the following bases are available: 2, 10, 16"),
             };
         }
     }
 
-    // TODO: check width
-    // let m = super::super::arithmetic::mask(width);
-    // if *out != *out & m {
-    //     Err(ParseIntError {
-    //         kind: IntErrorKind::ExceedsWidth,
-    //     })
-    // } else {
-    //     Ok(())
-    // }
-
     if is_negative {
         negate_in_place(out, width)
     }
     Ok(())
 }
 
-fn parse_base_16(digits: &[u8], out: &mut [Word]) -> Result<WidthInt, ParseIntError> {
+/// Leading zeros do not contribute to the value.
+#[inline]
+fn skip_leading_zeros(digits: &[u8]) -> &[u8] {
+    let zeros = digits.iter().take_while(|d| **d == b'0').count();
+    &digits[zeros..]
+}
+
+fn parse_base_16(
+    digits: &[u8],
+    out: &mut [Word],
+    max_width: WidthInt,
+) -> Result<WidthInt, ParseIntError> {
+    let digits = skip_leading_zeros(digits);
     let num_digits = digits.len();
+    if num_digits == 0 {
+        return Ok(0);
+    }
+    let unused_bits = hex_digit_value(digits[0])?.leading_zeros() - BITS_PER_HEX_DIGIT;
+    if num_digits as u32 * BITS_PER_HEX_DIGIT - unused_bits > max_width {
+        return Err(ParseIntError {
+            kind: IntErrorKind::ExceedsWidth,
+        });
+    }
     let words = (num_digits as u32 * BITS_PER_HEX_DIGIT).div_ceil(Word::BITS);
     let mut word = 0 as Word;
     let mut out_ii = (words - 1) as usize;
@@ -353,8 +384,11 @@ fn parse_base_2(
     out: &mut [Word],
     max_width: WidthInt,
 ) -> Result<WidthInt, ParseIntError> {
+    let digits = skip_leading_zeros(digits);
     let width = digits.len() as WidthInt;
-    // TODO: ignore zeros
+    if width == 0 {
+        return Ok(0);
+    }
     if width > max_width {
         return Err(ParseIntError {
             kind: IntErrorKind::ExceedsWidth,
-- 
2.43.0


From 14997f355e01ce902074a9035bb5bb65c554927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 06/11] fix: to_unsigned_fixed_point overflowed for 64 or more
 fractional bits

---
 src/bv/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index 943be68..aa5914d 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -120,7 +120,7 @@ pub trait BitVecOps {
     #[cfg(feature = "fraction1")]
     fn to_unsigned_fixed_point(&self, fraction_width: WidthInt) -> Option<fraction::Fraction> {
         debug_assert!(fraction_width <= self.width());
-        let denom = 1u64 << fraction_width;
+        let denom = 1u64.checked_shl(fraction_width)?;
         self.to_u64().map(|v| fraction::Fraction::new(v, denom))
     }
 
-- 
2.43.0


From 1609736f83c27cd97a33ecef8302c359ab378438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 07/11] fix: sparse arrays with an index wider than 64 bits
 panicked on access

---
 src/array/owned.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 0ae51bc..2a279b7 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -785,6 +785,7 @@ impl ArrayOps for SparseArrayValue {
                 value
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 let value = map.get(&index).cloned().unwrap_or_else(|| default.clone());
                 value
             }
@@ -823,11 +824,12 @@ impl ArrayMutOps for SparseArrayValue {
                 }
             }
             SparseArrayImpl::BigBig(default, map) => {
+                let index = BitVecValue::from(index);
                 if data.is_equal(default) {
                     // ensures that the default value is used for the given index
                     map.remove(&index);
                 } else {
-                    map.insert(index.into(), data.into());
+                    map.insert(index, data.into());
                 }
             }
         }
-- 
2.43.0


From 9e2615f545e0c009d329b5b34635191189346a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 08/11] fix: converting a dense byte array to a sparse one
 panicked for values above 7

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 2a279b7..1565227 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -490,7 +490,7 @@ impl From<&DenseArrayValue> for SparseArrayValue {
             }
             DenseArrayImpl::U8(data) => {
                 // find default value
-                let mut count = [0usize; u8::BITS as usize];
+                let mut count = [0usize; 1 << u8::BITS];
                 for bit in 0..value.num_elements() {
                     count[data[bit] as usize] += 1;
                 }
-- 
2.43.0


From 8f5ffbe8581d9534b00d94dcc6c9396d69b8863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 09/11] fix: sparse to dense conversion used an index of the
 wrong width

---
 src/array/owned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index 1565227..a2cd81f 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -449,7 +449,7 @@ impl From<&SparseArrayValue> for DenseArrayValue {
                 }
             }
             SparseArrayImpl::U64Big(_, m) => {
-                let mut index_bv = BitVecValue::zero(value.data_width);
+                let mut index_bv = BitVecValue::zero(value.index_width);
                 for (k, v) in m.iter() {
                     index_bv.assign_from_u64(*k);
                     dense.store(&index_bv, v);
-- 
2.43.0


From e9924ed4a94c1b60d858a3cfa783ed2984b1cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 10/11] fix: sparse arrays with equal contents but different
 defaults compared as different

---
 src/array/owned.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/array/owned.rs b/src/array/owned.rs
index a2cd81f..a974edd 100644
--- a/src/array/owned.rs
+++ b/src/array/owned.rs
@@ -615,6 +615,9 @@ impl SparseArrayValue {
         if other.index_width != self.index_width || other.data_width != self.data_width {
             return None;
         }
+        if self.default() != other.default() {
+            return Some(self.is_equal_with_different_default(other));
+        }
         match (&self.data, &other.data) {
             (
                 SparseArrayImpl::U64U64(default_a, map_a),
@@ -658,6 +661,27 @@ impl SparseArrayValue {
         }
     }
 
+    /// Two arrays with different default values are only equal if the entries
+    /// cover all indices and agree everywhere.
+    fn is_equal_with_different_default(&self, other: &Self) -> bool {
+        let entries = self.num_non_default_entries() + other.num_non_default_entries();
+        if self.index_width >= usize::BITS || entries < (1usize << self.index_width) {
+            return false;
+        }
+        (0..(1u64 << self.index_width)).all(|index| {
+            let index = BitVecValue::from_u64(index, self.index_width);
+            self.select(&index) == other.select(&index)
+        })
+    }
+
+    fn num_non_default_entries(&self) -> usize {
+        match &self.data {
+            SparseArrayImpl::U64U64(_, map) => map.len(),
+            SparseArrayImpl::U64Big(_, map) => map.len(),
+            SparseArrayImpl::BigBig(_, map) => map.len(),
+        }
+    }
+
     pub fn default(&self) -> BitVecValue {
         match &self.data {
             SparseArrayImpl::U64U64(default, _) => BitVecValue::from_u64(*default, self.data_width),
-- 
2.43.0


From a49fe2f5426cf7cad8a4941d0e9f095bf8993939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:40 +0000
Subject: [PATCH 11/11] fix: from_u64 panicked for 0-bit values, e.g. the index
 of a single element array

---
 src/bv/ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bv/ops.rs b/src/bv/ops.rs
index aa5914d..4262b4b 100644
--- a/src/bv/ops.rs
+++ b/src/bv/ops.rs
@@ -423,6 +423,10 @@ pub trait BitVecMutOps: BitVecOps {
 
     fn assign_from_u64(&mut self, value: u64) {
         debug_assert_eq!(Word::BITS, u64::BITS, "basic assumption of this function");
+        if self.width() == 0 {
+            debug_assert_eq!(value, 0, "value {value} does not fit into 0 bits");
+            return;
+        }
         // clear all words
         self.clear();
         // assign lsb
-- 
2.43.0

