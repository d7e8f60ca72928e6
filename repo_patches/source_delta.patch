From be525ea4e9f45911b846243f5f46ec3ce41c7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:26 +0000
Subject: [PATCH 01/28] fix: UBigInt::rem_u32_mut overflows u32 for divisors
 above 2^16

---
 src/ubigint/arith/rem.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ubigint/arith/rem.rs b/src/ubigint/arith/rem.rs
index d12c44d..e19dc56 100644
--- a/src/ubigint/arith/rem.rs
+++ b/src/ubigint/arith/rem.rs
@@ -45,17 +45,18 @@ impl UBigInt {
     }
 
     pub fn rem_u32_mut(&mut self, other: u32) {
-        let unit = ((1 << 32) % other as u64) as u32;
+        let other = other as u64;
+        let unit = (1 << 32) % other;
         let mut curr_power = 1;
-        let mut result = 0;
+        let mut result: u64 = 0;
 
         for d in self.0.iter() {
-            result += (d % other) * curr_power % other;
+            result += (*d as u64 % other) * curr_power % other;
             curr_power *= unit;
             curr_power %= other;
         }
 
-        *self = UBigInt::from_u32(result % other);
+        *self = UBigInt::from_u32((result % other) as u32);
 
         #[cfg(test)] {
             let mut t = self.rem(&UBigInt::from_u32(other as u32));
-- 
2.43.0


From 9ca4203a982d4ed173e14bdd9123f4ae5c098783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:42 +0000
Subject: [PATCH 02/28] fix: UBigInt::sqrt overflows for values just below 2^64

---
 src/ubigint/funcs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index c26e0a3..e5dc8b2 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -321,7 +321,9 @@ fn sqrt_u64(n: u64) -> u64 {
 
     let d = (1 << (l2 / 2)) * s;
 
-    let mut result = d / (1 << 28);
+    // the guess may exceed 2^32: its square does not always fit in 64 bits
+    let n = n as u128;
+    let mut result = d as u128 / (1 << 28);
 
     // see the comments in `UBigInt::sqrt`
     let mut div = (n.abs_diff(result * result) / (2 * result)).max(1);
@@ -364,7 +366,7 @@ fn sqrt_u64(n: u64) -> u64 {
         if div == 0 {
             #[cfg(test)] assert!(result * result <= n && n <= (result + 1) * (result + 1));
 
-            return result;
+            return result as u64;
         }
     }
 }
-- 
2.43.0


From d0ef498f3c0d7c43fb842b4b9e9c516a21b5ea09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 03/28] fix: usize::try_from(&UBigInt) rejects values from 2^32
 up

---
 src/ubigint/convert/into.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/convert/into.rs b/src/ubigint/convert/into.rs
index 4392a13..a2c4176 100644
--- a/src/ubigint/convert/into.rs
+++ b/src/ubigint/convert/into.rs
@@ -54,7 +54,7 @@ impl_trivial_try_from!(&UBigInt, u32, to_u32);
 impl_trivial_try_from!(&UBigInt, u64, to_u64);
 impl_trivial_try_from!(&UBigInt, u128, to_u128);
 
-impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u32);
+impl_trivial_try_from!(Fallible, &UBigInt, usize, to_u64);
 impl_trivial_try_from!(Fallible, &UBigInt, i8, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i16, to_u32);
 impl_trivial_try_from!(Fallible, &UBigInt, i32, to_u32);
-- 
2.43.0


From d30458b440ea8778de598660d4246241c7885317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 04/28] fix: BigInt arithmetic with an i32 operand overflows
 for i32::MIN

---
 src/bigint/arith/add.rs | 8 ++++----
 src/bigint/arith/div.rs | 4 ++--
 src/bigint/arith/mul.rs | 4 ++--
 src/bigint/arith/rem.rs | 6 +++---
 src/bigint/arith/sub.rs | 8 ++++----
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/bigint/arith/add.rs b/src/bigint/arith/add.rs
index 12ba334..a31bcc0 100644
--- a/src/bigint/arith/add.rs
+++ b/src/bigint/arith/add.rs
@@ -56,11 +56,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn add_i32(&self, other: i32) -> Self {
         if self.is_neg() == (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -79,11 +79,11 @@ impl BigInt {
 
     pub fn add_i32_mut(&mut self, other: i32) {
         if self.is_neg() == (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             if self_less {
                 self.val = UBigInt::from_u32(other_abs - self.val.to_u32().unwrap());
diff --git a/src/bigint/arith/div.rs b/src/bigint/arith/div.rs
index ff7b35a..a82a78e 100644
--- a/src/bigint/arith/div.rs
+++ b/src/bigint/arith/div.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div_i32(&self, other: i32) -> Self {
-        let val = self.val.div_u32(other.abs() as u32);
+        let val = self.val.div_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn div_i32_mut(&mut self, other: i32) {
-        self.val.div_u32_mut(other.abs() as u32);
+        self.val.div_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/mul.rs b/src/bigint/arith/mul.rs
index 5a3fb94..4e74bb5 100644
--- a/src/bigint/arith/mul.rs
+++ b/src/bigint/arith/mul.rs
@@ -22,7 +22,7 @@ impl BigInt {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn mul_i32(&self, other: i32) -> Self {
-        let val = self.val.mul_u32(other.abs() as u32);
+        let val = self.val.mul_u32(other.unsigned_abs());
         let is_neg = !val.is_zero() && self.is_neg() != (other < 0);
 
         let result = BigInt::from_ubi(val, is_neg);
@@ -33,7 +33,7 @@ impl BigInt {
     }
 
     pub fn mul_i32_mut(&mut self, other: i32) {
-        self.val.mul_u32_mut(other.abs() as u32);
+        self.val.mul_u32_mut(other.unsigned_abs());
         self._is_neg = !self.val.is_zero() && self.is_neg() != (other < 0);
         #[cfg(test)] assert!(self.is_valid());
     }
diff --git a/src/bigint/arith/rem.rs b/src/bigint/arith/rem.rs
index 6dd52f2..49265a1 100644
--- a/src/bigint/arith/rem.rs
+++ b/src/bigint/arith/rem.rs
@@ -26,7 +26,7 @@ impl BigInt {
     // x % y = -(-x % y)
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_i32(&self, other: i32) -> Self {
-        let new_val = self.val.rem_u32(other.abs() as u32);
+        let new_val = self.val.rem_u32(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         let result = BigInt::from_ubi(new_val, is_neg);
@@ -37,7 +37,7 @@ impl BigInt {
     }
 
     pub fn rem_i32_mut(&mut self, other: i32) {
-        self.val.rem_u32_mut(other.abs() as u32);
+        self.val.rem_u32_mut(other.unsigned_abs());
         self._is_neg = self.is_neg() & !self.val.is_zero();
         #[cfg(test)] assert!(self.is_valid());
     }
@@ -45,7 +45,7 @@ impl BigInt {
     /// `other` must be a power of 2
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn rem_pow2(&self, other: i32) -> Self {
-        let new_val = self.val.rem_pow2(other.abs() as u32);
+        let new_val = self.val.rem_pow2(other.unsigned_abs());
         let is_neg = self.is_neg() & !new_val.is_zero();
 
         BigInt::from_ubi(new_val, is_neg)
diff --git a/src/bigint/arith/sub.rs b/src/bigint/arith/sub.rs
index db3507f..2ac23c4 100644
--- a/src/bigint/arith/sub.rs
+++ b/src/bigint/arith/sub.rs
@@ -60,11 +60,11 @@ impl BigInt {
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn sub_i32(&self, other: i32) -> Self {
         let result = if self.is_neg() != (other < 0) {
-            BigInt::from_ubi(self.val.add_u32(other.abs() as u32), self.is_neg())
+            BigInt::from_ubi(self.val.add_u32(other.unsigned_abs()), self.is_neg())
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
             let abs_diff = if self_less {
                 UBigInt::from_u32(other_abs - self.val.to_u32().unwrap())
@@ -83,11 +83,11 @@ impl BigInt {
 
     pub fn sub_i32_mut(&mut self, other: i32) {
         if self.is_neg() != (other < 0) {
-            self.val.add_u32_mut(other.abs() as u32);
+            self.val.add_u32_mut(other.unsigned_abs());
         }
 
         else {
-            let other_abs = other.abs() as u32;
+            let other_abs = other.unsigned_abs();
             let self_less = self.val.lt_u32(other_abs);
 
             if self_less {
-- 
2.43.0


From 267f32d94d8dda90d1a068f3393454d07bbc8ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 05/28] fix: BigInt comparisons with an i32 panic for i32::MIN
 and for values beyond u32

---
 src/bigint/comp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bigint/comp.rs b/src/bigint/comp.rs
index 7da3c53..8c93a5b 100644
--- a/src/bigint/comp.rs
+++ b/src/bigint/comp.rs
@@ -102,7 +102,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -127,7 +127,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => false,
 
                 // -3 > -4
@@ -151,7 +151,7 @@ impl BigInt {
         }
 
         else {
-            self.val.to_u32().unwrap() == other.abs() as u32
+            self.val.eq_u32(other.unsigned_abs())
         }
     }
 
@@ -181,7 +181,7 @@ impl BigInt {
         }
 
         else {
-            match self.val.comp_u32(other.abs() as u32) {
+            match self.val.comp_u32(other.unsigned_abs()) {
                 Ordering::Equal => Ordering::Equal,
                 Ordering::Less if self.is_neg() => Ordering::Greater,
                 Ordering::Less => Ordering::Less,
-- 
2.43.0


From 0b91d4a682b4635b5722423ecb80260ff39e3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:57 +0000
Subject: [PATCH 06/28] fix: conversions between BigInt and machine integers
 fail for the most negative value

---
 src/bigint/convert.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bigint/convert.rs b/src/bigint/convert.rs
index abf2702..1936a8b 100644
--- a/src/bigint/convert.rs
+++ b/src/bigint/convert.rs
@@ -11,7 +11,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u32(n.abs() as u32),
+            val: UBigInt::from_u32(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -33,7 +33,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u64(n.abs() as u64),
+            val: UBigInt::from_u64(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -55,7 +55,7 @@ impl BigInt {
         let _is_neg = n < 0;
 
         BigInt {
-            val: UBigInt::from_u128(n.abs() as u128),
+            val: UBigInt::from_u128(n.unsigned_abs()),
             _is_neg,
         }
     }
@@ -64,8 +64,8 @@ impl BigInt {
         match self.val.to_u128() {
             Ok(n) => if !self.is_neg() && n <= i128::MAX as u128 {
                 Ok(n as i128)
-            } else if self.is_neg() && n < (1 << 127) {
-                Ok(-(n as i128))
+            } else if self.is_neg() && n <= i128::MIN.unsigned_abs() {
+                Ok((n as i128).wrapping_neg())  // i128::MIN.abs() > i128::MAX.abs()
             } else {
                 Err(ConversionError::NotInRange { permitted: "-1.7e38~1.7e38".to_string(), error: self.to_scientific_notation(5) })
             },
-- 
2.43.0


From d09605c51ff6dd76ceceadef8bd6f20e86ff5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:39 +0000
Subject: [PATCH 07/28] fix: gcd_i32, Ratio::from_denom_and_numer_i32 and
 Ratio::pow_i32 overflow for i32::MIN

---
 src/ratio/arith/pow.rs | 8 ++++----
 src/ratio/convert.rs   | 5 +++++
 src/utils.rs           | 8 ++++----
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ratio/arith/pow.rs b/src/ratio/arith/pow.rs
index f49e9e6..c625843 100644
--- a/src/ratio/arith/pow.rs
+++ b/src/ratio/arith/pow.rs
@@ -7,8 +7,8 @@ impl Ratio {
 
         // Safety: if a and b are coprime, a^n and b^n are coprime.
         let mut result = Ratio::from_denom_and_numer_raw(
-            self.denom.pow_u32(exp.abs() as u32),
-            self.numer.pow_u32(exp.abs() as u32),
+            self.denom.pow_u32(exp.unsigned_abs()),
+            self.numer.pow_u32(exp.unsigned_abs()),
         );
 
         if exp < 0 {
@@ -21,8 +21,8 @@ impl Ratio {
     }
 
     pub fn pow_i32_mut(&mut self, exp: i32) {
-        self.denom.pow_u32_mut(exp.abs() as u32);
-        self.numer.pow_u32_mut(exp.abs() as u32);
+        self.denom.pow_u32_mut(exp.unsigned_abs());
+        self.numer.pow_u32_mut(exp.unsigned_abs());
 
         if exp < 0 {
             self.reci_mut();
diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index f0ca69c..bb5a3e4 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -20,6 +20,11 @@ impl Ratio {
 
     /// optimized version of `Ratio::From<(D, N)>` and `Ratio::from_denom_and_numer`
     pub fn from_denom_and_numer_i32(mut denom: i32, mut numer: i32) -> Self {
+        // the absolute value of `i32::MIN` is not an `i32`
+        if denom == i32::MIN || numer == i32::MIN {
+            return Ratio::from_denom_and_numer(BigInt::from_i32(denom), BigInt::from_i32(numer));
+        }
+
         let r = gcd_i32(denom, numer);
 
         if r != 1 {
diff --git a/src/utils.rs b/src/utils.rs
index 2fb9b4c..66b8e19 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,9 +32,9 @@ pub fn remove_suffix_0(vec: &mut Vec<u32>) {
     }
 }
 
-pub fn gcd_i32(mut a: i32, mut b: i32) -> i32 {
-    a = a.abs();
-    b = b.abs();
+pub fn gcd_i32(a: i32, b: i32) -> i32 {
+    let mut a = a.unsigned_abs();
+    let mut b = b.unsigned_abs();
 
     while a != 0 {
         let r = b % a;
@@ -42,7 +42,7 @@ pub fn gcd_i32(mut a: i32, mut b: i32) -> i32 {
         a = r;
     }
 
-    b
+    i32::try_from(b).expect("the gcd doesn't fit in an i32")
 }
 
 #[cfg(test)]
-- 
2.43.0


From c7a69e351161fbb3cd84eba1ab0e732c7349e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:40 +0000
Subject: [PATCH 08/28] fix: Ratio accepts a zero denominator in div, div_i32,
 from_denom_and_numer and TryFrom

---
 src/ratio.rs              |  4 ++++
 src/ratio/convert.rs      |  4 ++++
 src/ratio/convert/from.rs | 11 +++++++----
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ratio.rs b/src/ratio.rs
index 4d68c42..5b39596 100644
--- a/src/ratio.rs
+++ b/src/ratio.rs
@@ -82,6 +82,10 @@ impl Ratio {
 
     // TODO: better name
     fn fit(&mut self) {
+        if self.denom.is_zero() {
+            panic!("Attempt to divide by zero: {:?} / {:?}", self.numer, self.denom);
+        }
+
         if self.denom.is_neg() {
             self.denom.neg_mut();
             self.numer.neg_mut();
diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index bb5a3e4..1749f7b 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -25,6 +25,10 @@ impl Ratio {
             return Ratio::from_denom_and_numer(BigInt::from_i32(denom), BigInt::from_i32(numer));
         }
 
+        if denom == 0 {
+            panic!("Attempt to divide by zero: {numer} / {denom}");
+        }
+
         let r = gcd_i32(denom, numer);
 
         if r != 1 {
diff --git a/src/ratio/convert/from.rs b/src/ratio/convert/from.rs
index 1b160f6..51431c9 100644
--- a/src/ratio/convert/from.rs
+++ b/src/ratio/convert/from.rs
@@ -119,10 +119,13 @@ impl<D, N> TryFrom<(D, N)> for Ratio
     /// convert `(denom, numer)` to a `Ratio`.
     fn try_from(denom_and_numer: (D, N)) -> Result<Self, Self::Error> {
         let (denom, numer) = denom_and_numer;
+        let denom = BigInt::try_from(denom)?;
+        let numer = BigInt::try_from(numer)?;
 
-        Ok(Ratio::from_denom_and_numer(
-            BigInt::try_from(denom)?,
-            BigInt::try_from(numer)?,
-        ))
+        if denom.is_zero() {
+            return Err(ConversionError::NotInRange { permitted: "a non-zero denominator".to_string(), error: "0".to_string() });
+        }
+
+        Ok(Ratio::from_denom_and_numer(denom, numer))
     }
 }
-- 
2.43.0


From 48e7643d86bbd418dab52e4386a238863330e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:16 +0000
Subject: [PATCH 09/28] fix: F192 conversions and word operands overflow for
 the most negative integers

---
 src/fp192/arith/div.rs | 2 +-
 src/fp192/arith/mul.rs | 2 +-
 src/fp192/convert.rs   | 6 +++---
 src/fp192/funcs/pow.rs | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index 62e8b6b..e19f07b 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = digits % a_abs;
 
         digits /= a_abs;
diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index 22ee2c8..f072efc 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -57,7 +57,7 @@ impl F192 {
 
         let mut digits = self.digits | SIGN_MASK;
         let mut exp = self.exp;
-        let a_abs = a.abs() as u128;
+        let a_abs = a.unsigned_abs() as u128;
         let mut rem = (digits & 0xffff_ffff) * a_abs;
 
         digits >>= 32;
diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index f6e1a82..33687ce 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -24,7 +24,7 @@ impl F192 {
 
     const fn from_i128(n: i128) -> Self {
         if n < 0 {
-            let mut result = F192::from_u128(n.abs() as u128);
+            let mut result = F192::from_u128(n.unsigned_abs());
             result.digits |= SIGN_MASK;
 
             result
@@ -53,8 +53,8 @@ impl F192 {
         if self.is_neg() {
             let n = self.neg().to_u128()?;
 
-            if n < (1 << 127) {
-                Ok(-(n as i128))
+            if n <= i128::MIN.unsigned_abs() {
+                Ok((n as i128).wrapping_neg())
             }
 
             else {
diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index 0f5f344..aa07749 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -47,7 +47,7 @@ impl F192 {
 
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn powi(&self, n: i64) -> Self {
-        let n_abs = n.abs() as u64;
+        let n_abs = n.unsigned_abs();
         let result = powi_abs(self, n_abs);
 
         if n < 0 {
-- 
2.43.0


From ce2be3a5a1071a4133d0fadad372fd02cd98a42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:16 +0000
Subject: [PATCH 10/28] fix: converting an F192 smaller than 1 to an integer
 panics

---
 src/fp192/convert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 33687ce..854c5ce 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -46,6 +46,11 @@ impl F192 {
 
         let digits = self.digits | SIGN_MASK;
 
+        // smaller than 1
+        if EXP_COEFF - self.exp > 127 {
+            return Ok(0);
+        }
+
         Ok(digits >> (EXP_COEFF - self.exp))
     }
 
-- 
2.43.0


From b7343e2d6c48bf63db1eaa9c4307bb224f6053b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:16 +0000
Subject: [PATCH 11/28] fix: rounding a Ratio up to a power of 2 flips the sign
 of the F192

---
 src/fp192/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 854c5ce..4f737c4 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -307,7 +307,7 @@ impl From<&Ratio> for F192 {
         let mut digits: u128 = n_abs.truncate_bi().try_into().unwrap();
 
         if n_abs_rem > 15 {
-            if digits != u128::MAX {
+            if digits != !SIGN_MASK {
                 digits += 1;
             }
 
-- 
2.43.0


From f99a65c5527f12ba744f3ea0b60ba985b0cb8369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:17 +0000
Subject: [PATCH 12/28] fix: F192 0 / 0 returns 0

---
 src/fp192/arith/div.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp192/arith/div.rs b/src/fp192/arith/div.rs
index e19f07b..7466740 100644
--- a/src/fp192/arith/div.rs
+++ b/src/fp192/arith/div.rs
@@ -6,12 +6,12 @@ impl F192 {
     // TODO: it takes too long
     #[must_use = "method returns a new number and does not mutate the original value"]
     pub fn div(&self, other: &Self) -> Self {
-        if self.is_zero() {
-            return F192::ZERO;
+        if other.is_zero() {
+            panic!("Attempt to divide by zero");
         }
 
-        else if other.is_zero() {
-            panic!("Attempt to divide by zero");
+        else if self.is_zero() {
+            return F192::ZERO;
         }
 
         let s = self.abs();
-- 
2.43.0


From a3c123e2b534009d122d939a5c4e60ce82945f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:17 +0000
Subject: [PATCH 13/28] fix: F192::mul_i32 loses the carry when the product
 crosses a power of 2

---
 src/fp192/arith/mul.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/mul.rs b/src/fp192/arith/mul.rs
index f072efc..3f26b02 100644
--- a/src/fp192/arith/mul.rs
+++ b/src/fp192/arith/mul.rs
@@ -71,7 +71,13 @@ impl F192 {
         }
 
         rem >>= 32;
-        digits += rem;
+        digits = match digits.checked_add(rem) {
+            Some(digits) => digits,
+            None => {
+                exp += 1;
+                digits / 2 + rem / 2
+            },
+        };
 
         F192 {
             digits: digits & !SIGN_MASK | (((self.is_neg() != (a < 0)) as u128) << 127),
-- 
2.43.0


From 50351b7811b50f0eb47201359635e9f4bc45bb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:17 +0000
Subject: [PATCH 14/28] fix: F192::sqrt is wrong for values just below a power
 of 2

---
 src/fp192/funcs/sqrt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fp192/funcs/sqrt.rs b/src/fp192/funcs/sqrt.rs
index 92f0b28..3f278d0 100644
--- a/src/fp192/funcs/sqrt.rs
+++ b/src/fp192/funcs/sqrt.rs
@@ -54,7 +54,8 @@ fn isqrt(n: u128) -> u128 {
     x = (x + n / x) >> 1;
     let x2 = (x + n / x) >> 1;
 
-    x.min(x2)
+    // it must be less than 2^64
+    x.min(x2).min(u64::MAX as u128)
 }
 
 #[cfg(test)]
-- 
2.43.0


From db3f7fb405afdf559e02a2222724ce4271ec375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 15/28] fix: F192::from_str ignores the sign of prefixed
 integers and accepts 0x and 1e

---
 src/fp192/convert/string.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index e17c1fe..9d11715 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -134,6 +134,10 @@ impl FromStr for F192 {
                 Ok(F192::ZERO)
             },
             ParseState::ReadBase(base) => {
+                if digit_buffer.is_empty() {
+                    return Err(ConversionError::NoData);
+                }
+
                 let mut curr = 0;
                 let mut exp = 1;
                 let mut result = F192::ZERO;
@@ -159,11 +163,19 @@ impl FromStr for F192 {
                     result = result.add(&F192::from(curr));
                 }
 
+                if is_neg {
+                    result = result.neg();
+                }
+
                 Ok(result)
             },
             ParseState::ReadDigit
             | ParseState::ReadSubZero
             | ParseState::ReadExp => {
+                if exp_buffer.is_empty() && matches!(curr_state, ParseState::ReadExp) {
+                    return Err(ConversionError::UnexpectedEnd);
+                }
+
                 if !exp_buffer.is_empty() {
                     exp += exp_buffer.iter().collect::<String>().parse::<i64>().or(Err(ConversionError::TryFromIntError))?;
 
-- 
2.43.0


From f9b47a2675e3e830821a9d54a0b335d667a562ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:18 +0000
Subject: [PATCH 16/28] fix: F192::from_str drops the digits of small decimals
 such as 0.000...01

---
 src/fp192/convert/string.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index 9d11715..23148dc 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -189,6 +189,10 @@ impl FromStr for F192 {
                     return Ok(F192::ZERO);
                 }
 
+                // leading zeros are not significant digits
+                let leading_zeros = digit_buffer.iter().take_while(|c| **c == '0').count();
+                digit_buffer = digit_buffer[leading_zeros..].to_vec();
+
                 if digit_buffer.len() > 39 {
                     exp += digit_buffer.len() as i64 - 39;
                     digit_buffer = digit_buffer[0..39].to_vec();
-- 
2.43.0


From 39c57ad46912763bd2ff28fd9f389177f32ecf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:15 +0000
Subject: [PATCH 17/28] fix: Ratio::from_string rejects an underscore that
 follows only zeros, like 0.0_1

---
 src/ratio/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/convert.rs b/src/ratio/convert.rs
index 1749f7b..33c9b0c 100644
--- a/src/ratio/convert.rs
+++ b/src/ratio/convert.rs
@@ -496,7 +496,7 @@ impl Ratio {
 fn get_non_decimal_char(s: &str) -> Option<char> {
     for c in s.chars() {
         match c.to_ascii_lowercase() {
-            '-' | '0' | '.' => { continue; },
+            '-' | '0' | '.' | '_' => { continue; },
             x if x.is_digit(10) => { return None; },
             _ => { return Some(c); },
         }
-- 
2.43.0


From a7abe54ec94de11538ca3fe315047f57497f212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 18/28] fix: Ratio to f32/f64 is wrong when rounding carries
 into the exponent, and returns Inf or NaN for values beyond the range

---
 src/ratio/convert/ieee754.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ratio/convert/ieee754.rs b/src/ratio/convert/ieee754.rs
index 4834ecb..102da62 100644
--- a/src/ratio/convert/ieee754.rs
+++ b/src/ratio/convert/ieee754.rs
@@ -82,6 +82,12 @@ impl Ratio {
 
         let mut frac = frac.to_i32().unwrap() as u32;
 
+        // the rounding may carry into the exponent
+        if frac == 1 << 23 {
+            frac = 0;
+            exp += 1;
+        }
+
         if exp < -126 {
             frac += 1 << 23;
             frac *= 16;
@@ -108,7 +114,7 @@ impl Ratio {
 
         exp += 127;
 
-        if exp < 0 || exp > 255 {
+        if exp < 0 || exp > 254 {
             return Err(ConversionError::NotInRange { permitted: "1.18e-38~3.4e38".to_string(), error: self.to_scientific_notation(5) });
         }
 
@@ -198,6 +204,12 @@ impl Ratio {
 
         let mut frac = frac.to_i64().unwrap() as u64;
 
+        // the rounding may carry into the exponent
+        if frac == 1 << 52 {
+            frac = 0;
+            exp += 1;
+        }
+
         if exp < -1022 {
             frac += 1 << 52;
             frac *= 16;
@@ -224,7 +236,7 @@ impl Ratio {
 
         exp += 1023;
 
-        if exp < 0 || exp > 2047 {
+        if exp < 0 || exp > 2046 {
             return Err(ConversionError::NotInRange { permitted: "2.23e-308~1.8e308".to_string(), error: self.to_scientific_notation(5) });
         }
 
-- 
2.43.0


From 3db82978016e982c678b5ead2bb332091eb3c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:00 +0000
Subject: [PATCH 19/28] fix: F192 to f32/f64 is wrong for subnormal floats and
 returns NaN for values just beyond the range

---
 src/fp192/convert.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/fp192/convert.rs b/src/fp192/convert.rs
index 4f737c4..56e2b5e 100644
--- a/src/fp192/convert.rs
+++ b/src/fp192/convert.rs
@@ -195,9 +195,21 @@ impl From<F192> for f32 {
             }
         }
 
-        if exp < 0 {
+        // subnormal: the implicit 1 becomes explicit
+        if exp < 1 {
+            let shift = 1 - exp;
+
+            mant = if shift > 24 {
+                0
+            } else {
+                ((mant | 8388608) + (1 << (shift - 1))) >> shift
+            };
+            exp = 0;
+        }
+
+        if exp == 0 && mant == 0 {
             0.0
-        } else if exp > 255 {
+        } else if exp > 254 {
             if n.is_neg() {
                 f32::NEG_INFINITY
             } else {
@@ -229,9 +241,21 @@ impl From<F192> for f64 {
             }
         }
 
-        if exp < 0 {
+        // subnormal: the implicit 1 becomes explicit
+        if exp < 1 {
+            let shift = 1 - exp;
+
+            mant = if shift > 53 {
+                0
+            } else {
+                ((mant | 4503599627370496) + (1 << (shift - 1))) >> shift
+            };
+            exp = 0;
+        }
+
+        if exp == 0 && mant == 0 {
             0.0
-        } else if exp > 2047 {
+        } else if exp > 2046 {
             if n.is_neg() {
                 f64::NEG_INFINITY
             } else {
-- 
2.43.0


From 3cd07c6e868d13b60f076921a6c75b96e0073bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:52 +0000
Subject: [PATCH 20/28] fix: Polynomial::from_vec_generic keeps vanishing
 leading coefficients

---
 src/poly.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/poly.rs b/src/poly.rs
index aa5fff8..00d887c 100644
--- a/src/poly.rs
+++ b/src/poly.rs
@@ -33,9 +33,7 @@ impl Polynomial {
     }
 
     pub fn from_vec_generic<T: Into<Ratio>>(coeffs: Vec<T>) -> Self {
-        if coeffs.is_empty() { return Polynomial::from_vec(vec![]); }
-
-        Polynomial { coeffs: coeffs.into_iter().map(|n| n.into()).collect() }
+        Polynomial::from_vec(coeffs.into_iter().map(|n| n.into()).collect())
     }
 
     pub fn to_vec(&self) -> &Vec<Ratio> {
-- 
2.43.0


From d899d20f4dc4f282e0b8360d3d255b84781d8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:52 +0000
Subject: [PATCH 21/28] fix: the inverse of a 1 by 1 matrix is always 1

---
 src/matrix/inv.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inv.rs b/src/matrix/inv.rs
index 4cbd3a3..5f9e6a1 100644
--- a/src/matrix/inv.rs
+++ b/src/matrix/inv.rs
@@ -22,7 +22,8 @@ impl Matrix {
 
         if n < 5 {
             if n < 2 {
-                self.clone()
+                // the only minor of a 1 by 1 matrix is the empty one, whose determinant is 1
+                Matrix::identity(n)
             } else if n == 2 {
                 Matrix::from_raw(
                     vec![
-- 
2.43.0


From fc5a20e5c51883384304755ed4d3227ee0441487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:04 +0000
Subject: [PATCH 22/28] fix: sqrt_iter returns a negative number for a negative
 argument, not sqrt(abs(x)) as documented

---
 src/ratio/funcs/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ratio/funcs/root.rs b/src/ratio/funcs/root.rs
index bb6e310..3652828 100644
--- a/src/ratio/funcs/root.rs
+++ b/src/ratio/funcs/root.rs
@@ -4,7 +4,7 @@ use crate::{UBigInt, BigInt, Ratio};
 pub fn sqrt_iter(x: &Ratio, iter: usize) -> Ratio {
     Ratio::from_denom_and_numer(
         x.denom.shift_left(1 + iter).sqrt(),
-        x.numer.shift_left(1 + iter).sqrt(),
+        x.numer.abs().shift_left(1 + iter).sqrt(),
     )
 }
 
-- 
2.43.0


From db3183a47cf007b4c3ff0caace2d91bd007e9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:49 +0000
Subject: [PATCH 23/28] fix: pow_u32 overflows for exponents from 2^31 on

---
 src/ubigint/arith/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubigint/arith/pow.rs b/src/ubigint/arith/pow.rs
index cc12a38..5a00113 100644
--- a/src/ubigint/arith/pow.rs
+++ b/src/ubigint/arith/pow.rs
@@ -25,7 +25,7 @@ impl UBigInt {
         let mut curr_exp = 1;
         powers.push(self.clone());
 
-        while curr_exp * 2 <= exp {
+        while curr_exp <= exp / 2 {
             powers.push(powers[powers.len() - 1].mul(&powers[powers.len() - 1]));
             curr_exp *= 2;
         }
-- 
2.43.0


From fc8dbc88c8c9bca5aba01b579c9270c8f88288ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:49 +0000
Subject: [PATCH 24/28] fix: prime_factorial overflows when no divisor below
 2^32 is left to try

---
 src/ubigint/funcs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ubigint/funcs.rs b/src/ubigint/funcs.rs
index e5dc8b2..aabd661 100644
--- a/src/ubigint/funcs.rs
+++ b/src/ubigint/funcs.rs
@@ -247,7 +247,7 @@ impl UBigInt {
             result.push(UBigInt::from_u32(2));
         }
 
-        let mut div = 3;
+        let mut div = 3u32;
 
         while self_clone.geq(&UBigInt::from_u64(div as u64 * div as u64)) {
             while self_clone.rem_u32(div).is_zero() {
@@ -255,7 +255,10 @@ impl UBigInt {
                 result.push(UBigInt::from_u32(div));
             }
 
-            div += 2;
+            match div.checked_add(2) {
+                Some(next) => { div = next; },
+                _ => { break; },
+            }
         }
 
         let mut div = UBigInt::from_u32(u32::MAX);
-- 
2.43.0


From 9681aed5aae8bd39e174fe9275dde8fb23f50d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:31 +0000
Subject: [PATCH 25/28] fix: asin_iter overflows i32 and gets less accurate
 from 644 iterations up

---
 src/ratio/funcs/atrigo.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ratio/funcs/atrigo.rs b/src/ratio/funcs/atrigo.rs
index fa315e4..7a644f2 100644
--- a/src/ratio/funcs/atrigo.rs
+++ b/src/ratio/funcs/atrigo.rs
@@ -26,8 +26,10 @@ pub fn asin_iter(x: &Ratio, iter: usize) -> Ratio {
     for i in 0..iter {
         result.add_mut(&curr_coeff.mul(&curr_x_coeff));
 
-        curr_coeff.mul_i32_mut(((2 * i + 3) * (2 * i + 3) * (2 * i + 4)) as i32);
-        curr_coeff.div_i32_mut(((i + 2) * (i + 2) * (2 * i + 5) * 4) as i32);
+        // (2i + 3)^2 * (2i + 4) / (4 * (i + 2)^2 * (2i + 5)), without overflowing i32
+        curr_coeff.mul_i32_mut(((2 * i + 3) * (2 * i + 3)) as i32);
+        curr_coeff.div_i32_mut((2 * i + 4) as i32);
+        curr_coeff.div_i32_mut((2 * i + 5) as i32);
         curr_x_coeff.mul_mut(&x_sqr);
     }
 
-- 
2.43.0


From 8121b2d195d76edf4ea9230a0c32cb0721f003d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:03 +0000
Subject: [PATCH 26/28] fix: F192::div is wrong when an exponent exceeds 2^39

---
 src/fp192/funcs/ln.rs  | 6 +++---
 src/fp192/funcs/pow.rs | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fp192/funcs/ln.rs b/src/fp192/funcs/ln.rs
index 6ad1c4c..4b3b4b2 100644
--- a/src/fp192/funcs/ln.rs
+++ b/src/fp192/funcs/ln.rs
@@ -72,15 +72,15 @@ impl F192 {
     }
 
     // returns truncate(log2(self) * 16777216)
-    pub(crate) fn fast_log2(&self) -> i64 {
-        let e = (self.exp as i64 - EXP_COEFF as i64 + 127) << 24;
+    pub(crate) fn fast_log2(&self) -> i128 {
+        let e = (self.exp as i128 - EXP_COEFF as i128 + 127) << 24;
 
         let index = ((self.digits & !SIGN_MASK) >> 116) as usize;
         let frac = index as u32 & 31;
         let index = index >> 5;
 
         // linear interpolation
-        e + (((LOG_TABLE[index] * (32 - frac) + LOG_TABLE[index + 1] * frac) as i64) >> 5)
+        e + (((LOG_TABLE[index] * (32 - frac) + LOG_TABLE[index + 1] * frac) as i128) >> 5)
     }
 }
 
diff --git a/src/fp192/funcs/pow.rs b/src/fp192/funcs/pow.rs
index aa07749..0630a7c 100644
--- a/src/fp192/funcs/pow.rs
+++ b/src/fp192/funcs/pow.rs
@@ -66,8 +66,8 @@ impl F192 {
     }
 
     // inverse of `fast_log2`
-    pub(crate) fn fast_pow2(n: i64) -> Self {
-        let mut e = n >> 24;
+    pub(crate) fn fast_pow2(n: i128) -> Self {
+        let mut e = (n >> 24) as i64;
         let d = if n < 0 {
             let mut d = n & 0xfff_fff;
 
-- 
2.43.0


From ba343596834a2310dc05a87bb6cc63367f9f1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:03 +0000
Subject: [PATCH 27/28] fix: F192::to_approx_string is wrong or panics when the
 decimal exponent exceeds 2^32

---
 src/fp192/convert/string.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fp192/convert/string.rs b/src/fp192/convert/string.rs
index 23148dc..66fab61 100644
--- a/src/fp192/convert/string.rs
+++ b/src/fp192/convert/string.rs
@@ -245,8 +245,8 @@ impl F192 {
             return "0".to_string();
         }
 
-        // 2^70777 = 10^21306 + small
-        let approx_log10 = (self.fast_log2() as i128 * 21306 / 70777 / 16777216) as i64;
+        // 5422874305198590 = log10(2) * 2^54: it has to be accurate enough for very large exponents
+        let approx_log10 = (self.fast_log2() * 5422874305198590 / (1 << 54) / 16777216) as i64;
         let mut n = self.abs();
         let mut exp = 0i64;
 
@@ -291,11 +291,12 @@ impl F192 {
         let log10_n = log10(n);
 
         let ds = if exp >= 0 {
-            let exp = exp as u32;
+            let exp = exp as u64;
+            let log10_n = log10_n as u64;
 
             // small integer
             if exp + log10_n < 10 {
-                (n * 10u128.pow(exp)).to_string()
+                (n * 10u128.pow(exp as u32)).to_string()
             }
 
             else if log10_n == 0 {
@@ -315,7 +316,7 @@ impl F192 {
         }
 
         else {
-            if log10_n >= -exp as u32 {
+            if log10_n as i64 >= -exp {
                 let index = (log10_n as i64 + exp + 1) as usize;
                 let ns = n.to_string();
                 let pre = ns.get(0..index).unwrap();
-- 
2.43.0


From 357f54dd5fcb7aa5322c3bfc9ecec9b0e876e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:18 +0000
Subject: [PATCH 28/28] fix: F192::sub does not terminate in practice when an
 exponent is far from 0

Operands of the same sign were converted to ratios, whose numerators or
denominators have as many bits as the exponent is far from 0.
---
 src/fp192/arith/sub.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/fp192/arith/sub.rs b/src/fp192/arith/sub.rs
index 0ce307d..94954ec 100644
--- a/src/fp192/arith/sub.rs
+++ b/src/fp192/arith/sub.rs
@@ -1,4 +1,5 @@
 use crate::{F192, Ratio};
+use crate::fp192::EXP_COEFF;
 
 impl F192 {
 
@@ -22,7 +23,22 @@ impl F192 {
             return self.clone();
         }
 
+        // the smaller one is far below the last digit of the larger one
+        if self.exp.abs_diff(other.exp) > 256 {
+            return if self.exp > other.exp { self.clone() } else { other.neg() };
+        }
+
         // TODO
-        Ratio::from(self).sub(&other.into()).into()
+        // the operands are shifted to around 1: otherwise, the ratios would have as many digits as `exp` is far from 0
+        let exp = self.exp.max(other.exp);
+        let n1 = F192 { digits: self.digits, exp: self.exp + EXP_COEFF - exp };
+        let n2 = F192 { digits: other.digits, exp: other.exp + EXP_COEFF - exp };
+        let result: F192 = Ratio::from(&n1).sub(&Ratio::from(&n2)).into();
+
+        if result.is_zero() || result.exp + exp < EXP_COEFF {
+            return F192::ZERO;
+        }
+
+        F192 { digits: result.digits, exp: result.exp + exp - EXP_COEFF }
     }
 }
-- 
2.43.0

