From bab9fcbc8599b3dd1466a0e31e31fbd7371efd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 01/43] fix: log2(1) returned a zero with exponent 64

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index f477fb9..63e5021 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1461,7 +1461,7 @@ impl BigFloatNumber {
     pub(crate) fn from_usize(u: usize) -> Result<Self, Error> {
         let (shift, m) = Mantissa::from_usize(u)?;
         let s = Sign::Pos;
-        let e = (m.max_bit_len() - shift) as Exponent;
+        let e = if u == 0 { 0 } else { (m.max_bit_len() - shift) as Exponent };
 
         Ok(BigFloatNumber {
             m,
-- 
2.43.0


From 4bcdcdc19474a8a5d2ad73d060125816be76cabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 02/43] fix: mul and div lost the inexact flag of the arguments
 when the result is zero

---
 astro-float-num/src/num.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 63e5021..e572b5a 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -313,9 +313,7 @@ impl BigFloatNumber {
         let s = if self.s == d2.s { Sign::Pos } else { Sign::Neg };
 
         if self.m.is_zero() || d2.m.is_zero() {
-            let mut ret = Self::new(p)?;
-            ret.set_sign(s);
-            return Ok(ret);
+            return Self::new2(p, s, self.inexact || d2.inexact);
         }
 
         let (e1, m1_opt) = self.normalize()?;
@@ -385,9 +383,7 @@ impl BigFloatNumber {
         let s = if self.s == d2.s { Sign::Pos } else { Sign::Neg };
 
         if self.m.is_zero() {
-            let mut ret = Self::new(p)?; // self / d2 = 0
-            ret.set_sign(s);
-            return Ok(ret);
+            return Self::new2(p, s, self.inexact || d2.inexact); // self / d2 = 0
         }
 
         let (e1, m1_opt) = self.normalize()?;
-- 
2.43.0


From b12d16a44c21c2dd0ef2cac65fabd97af8741814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 03/43] fix: full precision addition and subtraction of zero
 lost the value, and the inexact flag of a zero argument was ignored

---
 astro-float-num/src/num.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index e572b5a..241e187 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -586,7 +586,11 @@ impl BigFloatNumber {
         if self.m.is_zero() {
             let mut ret = if op < 0 { d2.neg() } else { d2.clone() }?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
+
+            ret.inexact |= self.inexact;
 
             return Ok(ret);
         }
@@ -594,7 +598,11 @@ impl BigFloatNumber {
         if d2.m.is_zero() {
             let mut ret = self.clone()?;
 
-            ret.set_precision(p, rm)?;
+            if !full_prec {
+                ret.set_precision(p, rm)?;
+            }
+
+            ret.inexact |= d2.inexact;
 
             return Ok(ret);
         }
-- 
2.43.0


From 700909cf917a7e3bddea9645eca1bbfea4934078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 04/43] fix: conversion to decimal lost groups of zeroes inside
 of the number

---
 astro-float-num/src/mantissa/conv.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index ed5c15c..1826412 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -72,7 +72,17 @@ impl Mantissa {
             let mut r = Mantissa::from_word_buf(r);
 
             if q.is_zero() {
-                let part1 = Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
+                let mut part1 =
+                    Self::conv_to_dec(&mut r, l / 2, tenpowers, p - 1, most_significant)?;
+
+                if !most_significant {
+                    // leading zeroes are significant
+                    let mut ret = Vec::new();
+                    ret.try_reserve_exact(l)?;
+                    ret.resize(l - part1.len(), 0);
+                    ret.append(&mut part1);
+                    part1 = ret;
+                }
 
                 Ok(part1)
             } else {
-- 
2.43.0


From 854f88429f6b821a85934a3f03c64499941b823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 05/43] fix: comparison of a non-zero number with zero

---
 astro-float-num/src/num.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 241e187..8d14195 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -773,6 +773,8 @@ impl BigFloatNumber {
             } else {
                 return -1;
             }
+        } else if d2.m.is_zero() {
+            return 1;
         }
 
         let n1 = self.mantissa_max_bit_len() as isize - self.precision() as isize;
-- 
2.43.0


From 4d3f07d9af71ba8a42d4bcd73cbdae2e52596ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:07 +0000
Subject: [PATCH 06/43] fix: BigFloat::abs_cmp compared signed values

---
 astro-float-num/src/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 60822c9..124a122 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -352,7 +352,7 @@ impl BigFloat {
     pub fn abs_cmp(&self, d2: &Self) -> Option<SignedWord> {
         match &self.inner {
             Flavor::Value(v1) => match &d2.inner {
-                Flavor::Value(v2) => Some(v1.cmp(v2)),
+                Flavor::Value(v2) => Some(v1.abs_cmp(v2)),
                 Flavor::Inf(_) => Some(-1),
                 Flavor::NaN(_) => None,
             },
-- 
2.43.0


From 503e218fddc35097bc7912d2ab57c3862f388fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 07/43] fix: subnormal results were rounded twice, and values
 above a half of the smallest number were rounded to zero

---
 astro-float-num/src/num.rs | 151 +++++++++++++++++++++++++++++--------
 1 file changed, 120 insertions(+), 31 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 8d14195..d3cd286 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -339,16 +339,33 @@ impl BigFloatNumber {
         }
 
         if e < EXPONENT_MIN as isize {
-            let mut ret = BigFloatNumber {
-                m: m3,
-                s,
-                e: EXPONENT_MIN,
-                inexact,
-            };
+            if full_prec {
+                let mut ret = BigFloatNumber {
+                    m: m3,
+                    s,
+                    e: EXPONENT_MIN,
+                    inexact,
+                };
 
-            ret.subnormalize(e, rm);
+                ret.subnormalize(e, rm);
 
-            Ok(ret)
+                Ok(ret)
+            } else {
+                // round just once
+                let mut lost = false;
+                let (e_shift, m3) = m1_normalized.mul(
+                    m2_normalized,
+                    p + WORD_BIT_SIZE,
+                    RoundingMode::ToZero,
+                    true,
+                    false,
+                    &mut lost,
+                )?;
+
+                inexact = self.inexact || d2.inexact;
+
+                Self::new_subnormal(m3, e1 + e2 - e_shift, s, inexact, lost, p, rm)
+            }
         } else {
             Ok(BigFloatNumber {
                 m: m3,
@@ -403,16 +420,19 @@ impl BigFloatNumber {
         }
 
         if e < EXPONENT_MIN as isize {
-            let mut ret = BigFloatNumber {
-                m: m3,
-                s,
-                e: EXPONENT_MIN,
-                inexact,
-            };
-
-            ret.subnormalize(e, rm);
-
-            Ok(ret)
+            // round just once
+            let mut lost = false;
+            let (e_shift, m3) = m1_normalized.div(
+                m2_normalized,
+                p + WORD_BIT_SIZE,
+                RoundingMode::ToZero,
+                true,
+                &mut lost,
+            )?;
+
+            inexact = self.inexact || d2.inexact;
+
+            Self::new_subnormal(m3, e1 - e2 + e_shift, s, inexact, lost, p, rm)
         } else {
             Ok(BigFloatNumber {
                 m: m3,
@@ -690,6 +710,19 @@ impl BigFloatNumber {
         d3.m = m3;
 
         if e < EXPONENT_MIN as isize {
+            if !full_prec {
+                // round just once
+                let mut ret = self.add_sub(d2, 0, op, rm, true)?;
+                ret.set_precision(p, rm)?;
+                return Ok(ret);
+            }
+
+            // the exact value is a multiple of the least significant digit of one of the arguments
+            let p =
+                d3.m.max_bit_len()
+                    .max(self.mantissa_max_bit_len())
+                    .max(d2.mantissa_max_bit_len());
+            d3.m.set_length(p)?;
             d3.e = EXPONENT_MIN;
             d3.subnormalize(e, rm);
         } else {
@@ -699,18 +732,58 @@ impl BigFloatNumber {
         Ok(d3)
     }
 
+    // Returns `0.m * 2 ^ e`, where `e` is smaller than EXPONENT_MIN, rounded to precision `p`.
+    // `m` is a normalized mantissa truncated to `p` + WORD_BIT_SIZE bits,
+    // `lost` is true if the truncated part is not zero.
+    fn new_subnormal(
+        mut m: Mantissa,
+        e: isize,
+        s: Sign,
+        inexact: bool,
+        lost: bool,
+        p: usize,
+        rm: RoundingMode,
+    ) -> Result<Self, Error> {
+        if lost {
+            m.digits_mut()[0] |= 1; // sticky bit
+        }
+
+        let mut ret = BigFloatNumber {
+            m,
+            s,
+            e: EXPONENT_MIN,
+            inexact,
+        };
+
+        ret.subnormalize_to(e, p, rm)?;
+
+        Ok(ret)
+    }
+
     /// Make `self` subnormal
     pub(crate) fn subnormalize(&mut self, e: isize, rm: RoundingMode) {
+        let p = self.mantissa_max_bit_len();
+
+        // the length of the mantissa does not change
+        let ret = self.subnormalize_to(e, p, rm);
+
+        debug_assert!(ret.is_ok());
+    }
+
+    // Make `self` subnormal and reduce the precision to `p`.
+    fn subnormalize_to(&mut self, e: isize, p: usize, rm: RoundingMode) -> Result<(), Error> {
         debug_assert_eq!(self.exponent(), EXPONENT_MIN);
         debug_assert!(!self.is_subnormal());
 
+        debug_assert!(self.m.max_bit_len() >= p);
+
         if self.is_zero() {
-            return;
+            return self.m.set_length(p);
         }
 
         let is_positive = self.is_positive();
 
-        if (self.m.max_bit_len() as isize) + e > EXPONENT_MIN as isize {
+        if (p as isize) + e > EXPONENT_MIN as isize {
             // subnormal
 
             let mut shift = (EXPONENT_MIN as isize - e) as usize;
@@ -718,7 +791,7 @@ impl BigFloatNumber {
             let mut inexact = self.inexact;
 
             if self.m.round_mantissa(
-                shift,
+                shift + self.m.max_bit_len() - p,
                 rm,
                 is_positive,
                 &mut false,
@@ -734,20 +807,36 @@ impl BigFloatNumber {
                 self.m.shift_right(shift);
                 self.m.update_bit_len();
             }
-        } else if rm == RoundingMode::FromZero
-            || (is_positive && rm == RoundingMode::Up)
-            || (!is_positive && rm == RoundingMode::Down)
-        {
-            // non zero for directed rounding modes
-            self.m.set_zero();
-            self.m.digits_mut()[0] = 1;
-            self.m.set_bit_len(1);
-            self.inexact |= true;
+
+            self.m.set_length(p)?;
         } else {
+            let round_up = match rm {
+                // non zero for directed rounding modes
+                RoundingMode::FromZero => true,
+                RoundingMode::Up => is_positive,
+                RoundingMode::Down => !is_positive,
+                RoundingMode::ToEven | RoundingMode::ToOdd => {
+                    // at least a half of the minimum positive value
+                    (p as isize) + e == EXPONENT_MIN as isize
+                        && (rm == RoundingMode::ToOdd || self.m.find_one_from(1).is_some())
+                }
+                _ => false,
+            };
+
+            self.m.set_length(p)?;
             self.m.set_zero();
-            self.e = 0;
+
+            if round_up {
+                self.m.digits_mut()[0] = 1;
+                self.m.set_bit_len(1);
+            } else {
+                self.e = 0;
+            }
+
             self.inexact |= true;
         }
+
+        Ok(())
     }
 
     /// Compares `self` to `d2`.
-- 
2.43.0


From 57f4a98a41bec9ee19694659b976440bbd0ca4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 08/43] fix: a number rounded to zero could keep the minimum
 exponent

---
 astro-float-num/src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index d3cd286..c8dc221 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1523,6 +1523,10 @@ impl BigFloatNumber {
 
         self.m.set_length(p)?;
 
+        if self.m.bit_len() == 0 {
+            self.e = 0;
+        }
+
         Ok(true)
     }
 
-- 
2.43.0


From a34a94885bb7843d496f1fee853212cbde859f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 09/43] fix: pow did not terminate or was marked inexact when
 the result is exact, and pow(x, 1) did not round the precision up

---
 astro-float-num/src/ops/pow.rs | 53 ++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index cfcfab5..24c5d54 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -434,6 +434,49 @@ impl BigFloatNumber {
         Ok(sinh)
     }
 
+    // Compute `self`^`n` as an integer power of a root or of the reciprocal of `self`, if they are exact.
+    // If there is no such base then `self`^`n` is not a finite binary fraction, and the function returns None.
+    fn pow_exact_base(&self, n: &Self, p: usize, rm: RoundingMode) -> Result<Option<Self>, Error> {
+        let mut x = self.clone()?;
+        let mut y = n.clone()?;
+
+        x.set_inexact(false);
+
+        while !y.is_int() {
+            // x^y = sqrt(x)^(2*y)
+            if y.is_subnormal() {
+                return Ok(None);
+            }
+
+            x = x.sqrt(x.mantissa_max_bit_len(), RoundingMode::ToZero)?;
+            if x.inexact() {
+                return Ok(None);
+            }
+
+            y.set_exponent(y.exponent() + 1);
+        }
+
+        if y.is_negative() {
+            x = ONE
+                .div(&x, x.mantissa_max_bit_len(), RoundingMode::ToZero)
+                .map_err(|e| match e {
+                    Error::ExponentOverflow(s) if !y.is_odd_int() && s.is_negative() => {
+                        Error::ExponentOverflow(Sign::Pos)
+                    }
+                    e => e,
+                })?;
+            if x.inexact() {
+                return Ok(None);
+            }
+        }
+
+        match y.int_as_usize() {
+            Ok(i) => x.powi(i, p, rm).map(Some),
+            Err(Error::InvalidArgument) => Ok(None), // the result is out of range or has too many digits
+            Err(e) => Err(e),
+        }
+    }
+
     /// Compute the power of `self` to the `n` with precision `p`. The result is rounded using the rounding mode `rm`.
     /// This function requires constants cache `cc` for computing the result.
     /// Precision is rounded upwards to the word size.
@@ -450,6 +493,8 @@ impl BigFloatNumber {
         rm: RoundingMode,
         cc: &mut Consts,
     ) -> Result<Self, Error> {
+        let p = round_p(p);
+
         let nint = n.is_int();
         if n.is_zero() {
             let mut ret = Self::from_word(1, p)?;
@@ -502,9 +547,13 @@ impl BigFloatNumber {
             }
         }
 
-        // actual pow : self^n = e^(n * ln(self))
+        // the result can be exact, and must not depend on an approximation then
+        if let Some(mut ret) = self.pow_exact_base(n, p, rm)? {
+            ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
+            return Ok(ret);
+        }
 
-        let p = round_p(p);
+        // actual pow : self^n = e^(n * ln(self))
 
         let mut x = self.clone()?;
         let mut y = n.clone()?;
-- 
2.43.0


From de89c4782a73d1a567fd6fab5552ca66953c4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 10/43] fix: the test of roundability for rounding to nearest
 accepted undecidable cases

---
 astro-float-num/src/mantissa/mantissa.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 352ea0d..8b48045 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -897,10 +897,10 @@ impl Mantissa {
             let mut i;
             let mut t;
             let mut c = false;
-            let mut cc = (n - (self.max_bit_len() - s)) / WORD_BIT_SIZE; // num of roundable significant words
 
             if rm == RoundingMode::ToEven || rm == RoundingMode::ToOdd {
                 let n = n - 1;
+                let mut cc = n.saturating_sub(self.max_bit_len() - s) / WORD_BIT_SIZE; // num of roundable significant words below n
                 let mut rem_zero = true;
                 let mut td = 0; // either all bits set, or zero (default)
 
@@ -920,10 +920,9 @@ impl Mantissa {
 
                         if *check_roundable {
                             // try to get information from preceding bits
-                            let msk = rb & (WORD_MAX << (WORD_BIT_SIZE - t));
-                            if msk == rb {
+                            if rb == WORD_MAX << (WORD_BIT_SIZE - t) {
                                 td = WORD_MAX;
-                            } else if msk != 0 {
+                            } else {
                                 *check_roundable = false; // self is roundable
                             }
                         }
@@ -944,7 +943,7 @@ impl Mantissa {
                 let nump1 = if ip1 < self_len { (self.m[ip1] >> tp1) & 1 } else { 0 };
 
                 // anything before n'th word becomes 0
-                for v in &mut self.m[..n / WORD_BIT_SIZE] {
+                for v in self.m[..z].iter_mut().rev() {
                     if *check_roundable && cc > 0 {
                         if *v != td {
                             *check_roundable = false; // self is roundable
@@ -996,6 +995,7 @@ impl Mantissa {
                     t += 1;
                 }
             } else {
+                let mut cc = (n - (self.max_bit_len() - s)) / WORD_BIT_SIZE; // num of roundable significant words
                 let mut rem_zero = true;
                 let mut td = 0; // either all bits set, or zero (default)
 
-- 
2.43.0


From 1f80ebacc110c6eb6cf7966678cf64617c05217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 11/43] fix: exp and pow results close to and below the
 smallest number

---
 astro-float-num/src/ops/pow.rs | 68 +++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 24c5d54..1a68fee 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -122,8 +122,8 @@ impl BigFloatNumber {
                 let x = match self.exp_positive_arg(p_x, cc) {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
-                        Error::ExponentOverflow(sign) => {
-                            return Self::new2(p, sign, self.inexact());
+                        Error::ExponentOverflow(_) => {
+                            return self.exp_small_result(p, rm, cc);
                         }
                         Error::DivisionByZero => Err(Error::DivisionByZero),
                         Error::InvalidArgument => Err(Error::InvalidArgument),
@@ -146,6 +146,49 @@ impl BigFloatNumber {
         }
     }
 
+    // exp for negative argument when e^(-self) is out of range
+    fn exp_small_result(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
+        let mut x = self.clone()?;
+        x.set_inexact(false);
+        x.div_by_2(RoundingMode::None);
+
+        let mut p_inc = WORD_BIT_SIZE;
+        let mut p_wrk = p.max(self.mantissa_max_bit_len()) + p_inc;
+
+        loop {
+            let p_x = p_wrk + 4;
+
+            // e^self = (1 / e^(-self/2))^2
+            let mut ret = match x.exp_positive_arg(p_x, cc) {
+                Ok(v) => {
+                    let v = ONE.div(&v, p_x, RoundingMode::FromZero)?;
+                    v.mul(&v, p_x, RoundingMode::FromZero)?
+                }
+                Err(Error::ExponentOverflow(_)) => return Self::underflow(p, rm),
+                Err(e) => return Err(e),
+            };
+
+            if ret.exponent() == EXPONENT_MIN && ret.precision() == 1 {
+                return Self::underflow(p, rm);
+            }
+
+            if ret.try_set_precision(p, rm, p_wrk)? {
+                return Ok(ret);
+            }
+
+            p_wrk += p_inc;
+            p_inc = round_p(p_wrk / 5);
+        }
+    }
+
+    // Positive value that is much smaller than the smallest number with precision `p`, rounded to precision `p`.
+    fn underflow(p: usize, rm: RoundingMode) -> Result<Self, Error> {
+        let mut ret = Self::min_positive(p + WORD_BIT_SIZE)?;
+        ret.set_precision(p, rm)?;
+        ret.set_inexact(true);
+        Ok(ret)
+    }
+
     // exp for positive argument
     fn exp_positive_arg(&self, p: usize, cc: &mut Consts) -> Result<Self, Error> {
         debug_assert!(!self.is_zero());
@@ -587,7 +630,7 @@ impl BigFloatNumber {
                     Ok(v) => Ok(v),
                     Err(e) => match e {
                         Error::ExponentOverflow(Sign::Neg) => {
-                            return Self::new2(p, Sign::Pos, n.inexact() || ln.inexact());
+                            return Self::underflow(p, effective_rm);
                         }
                         Error::ExponentOverflow(Sign::Pos) => {
                             Err(Error::ExponentOverflow(Sign::Pos))
@@ -613,8 +656,23 @@ impl BigFloatNumber {
                     let u = match m.exp(p_ext, RoundingMode::None, cc) {
                         Ok(v) => Ok(v),
                         Err(e) => match e {
-                            Error::ExponentOverflow(sign) => {
-                                return Self::new2(p, sign, self.inexact());
+                            Error::ExponentOverflow(_) => {
+                                m.set_sign(Sign::Neg);
+
+                                let mut ret =
+                                    m.exp_small_result(round_p(p_ext), RoundingMode::FromZero, cc)?;
+
+                                if ret.exponent() == EXPONENT_MIN && ret.precision() == 1 {
+                                    return Self::underflow(p, effective_rm);
+                                }
+
+                                if ret.try_set_precision(p, effective_rm, p_wrk)? {
+                                    return Ok(ret);
+                                }
+
+                                p_wrk += p_inc;
+                                p_inc = round_p(p_wrk / 5);
+                                continue;
                             }
                             Error::DivisionByZero => Err(Error::DivisionByZero),
                             Error::InvalidArgument => Err(Error::InvalidArgument),
-- 
2.43.0


From 62e32f304f90e3572676c634734d3017f4117668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 12/43] fix: pow of zero lost the inexact flag of the exponent

---
 astro-float-num/src/ops/pow.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 1a68fee..28b625b 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -558,7 +558,7 @@ impl BigFloatNumber {
                 }
             } else {
                 let s = if n.is_odd_int() { self.sign() } else { Sign::Pos };
-                Self::new2(p, s, self.inexact())
+                Self::new2(p, s, self.inexact() || n.inexact())
             };
         } else if self.exponent() == 1 && self.abs_cmp(&ONE) == 0 {
             // 1^n or (-1)^n
-- 
2.43.0


From cc5df64da1b2f23c062d73a5b62ad6aeea61cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 13/43] fix: log did not terminate on some exact results, and
 exact results of log and log10 were marked inexact

---
 astro-float-num/src/ops/log.rs | 58 +++++++++++++++++++---------------
 astro-float-num/src/ops/pow.rs |  7 +++-
 2 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index 40cecbc..8221513 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -319,28 +319,41 @@ impl BigFloatNumber {
 
             let mut ret = p1.div(&p2, p_x, RoundingMode::None)?;
 
-            // check if x is exactly power of 10
-            if ret.is_int() {
-                let n = ret.int_as_usize()?;
-
-                let tp = TEN.powi(n, p_x, RoundingMode::None)?;
-
-                if tp.cmp(&x) == 0 {
-                    ret.set_precision(p, rm)?;
-                    return Ok(ret);
-                }
-            }
-
+            let mut ret2 = ret.clone()?; // clone, becuase try_set_precision modifies ret
             if ret.try_set_precision(p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact());
                 return Ok(ret);
             }
 
+            // check if the result is exact
+            if ret2.log_is_exact(&TEN, &x, p_wrk)? {
+                ret2.set_precision(p, rm)?;
+                ret2.set_inexact(ret2.inexact() | self.inexact());
+                return Ok(ret2);
+            }
+
             p_wrk += p_inc;
             p_inc = round_p(p_wrk / 5);
         }
     }
 
+    // Given `self` is an approximation of the logarithm of `x` to the base `n` with `s` correct digits,
+    // check if the logarithm has an exact value near `self`, and, if so, replace `self` with it.
+    fn log_is_exact(&mut self, n: &Self, x: &Self, s: usize) -> Result<bool, Error> {
+        self.set_precision(s - WORD_BIT_SIZE / 2, RoundingMode::ToEven)?;
+        self.set_inexact(false);
+
+        if self.is_zero() {
+            return Ok(true); // log(1)
+        }
+
+        match n.pow_exact_base(self, x.mantissa_max_bit_len(), RoundingMode::ToZero) {
+            Ok(Some(pwr)) => Ok(!pwr.inexact() && pwr.cmp(x) == 0),
+            Ok(None) | Err(Error::ExponentOverflow(_)) => Ok(false),
+            Err(e) => Err(e),
+        }
+    }
+
     /// Computes the logarithm base `n` of a number with precision `p`. The result is rounded using the rounding mode `rm`.
     /// This function requires constants cache `cc` for computing the result.
     /// Precision is rounded upwards to the word size.
@@ -388,20 +401,13 @@ impl BigFloatNumber {
             if ret.try_set_precision(p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact() | n.inexact());
                 return Ok(ret);
-            } else {
-                // check if the result is exact
-                let pwr = y.pow(
-                    &ret2,
-                    p_x.max(self.mantissa_max_bit_len()),
-                    RoundingMode::None,
-                    cc,
-                )?;
-
-                if pwr.cmp(self) == 0 {
-                    ret2.set_inexact(ret2.inexact() | self.inexact() | n.inexact());
-                    ret2.set_precision(p, rm)?;
-                    return Ok(ret2);
-                }
+            }
+
+            // check if the result is exact
+            if ret2.log_is_exact(&y, &x, p_wrk)? {
+                ret2.set_precision(p, rm)?;
+                ret2.set_inexact(ret2.inexact() | self.inexact() | n.inexact());
+                return Ok(ret2);
             }
 
             p_wrk += p_inc;
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 28b625b..e70976d 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -479,7 +479,12 @@ impl BigFloatNumber {
 
     // Compute `self`^`n` as an integer power of a root or of the reciprocal of `self`, if they are exact.
     // If there is no such base then `self`^`n` is not a finite binary fraction, and the function returns None.
-    fn pow_exact_base(&self, n: &Self, p: usize, rm: RoundingMode) -> Result<Option<Self>, Error> {
+    pub(crate) fn pow_exact_base(
+        &self,
+        n: &Self,
+        p: usize,
+        rm: RoundingMode,
+    ) -> Result<Option<Self>, Error> {
         let mut x = self.clone()?;
         let mut y = n.clone()?;
 
-- 
2.43.0


From f33d44fbdfdaf679ef4758f11ad7d9ab6f0e5e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 14/43] fix: sinh and cosh overflowed when the result is in the
 upper half of the range

---
 astro-float-num/src/ops/cosh.rs | 10 ++++-----
 astro-float-num/src/ops/pow.rs  | 21 +++++++++++++++++++
 astro-float-num/src/ops/sinh.rs | 36 +++++++++++++--------------------
 3 files changed, 40 insertions(+), 27 deletions(-)

diff --git a/astro-float-num/src/ops/cosh.rs b/astro-float-num/src/ops/cosh.rs
index 87ecd83..d841656 100644
--- a/astro-float-num/src/ops/cosh.rs
+++ b/astro-float-num/src/ops/cosh.rs
@@ -48,19 +48,19 @@ impl BigFloatNumber {
             {
                 // e^x / 2
 
-                x.exp(p_x, RoundingMode::None, cc)
+                x.exp_half(p_x, cc)
             } else {
                 // (e^x + e^(-x)) / 2
 
-                let ex = x.exp(p_x, RoundingMode::None, cc)?;
+                let ex = x.exp_half(p_x, cc)?;
 
-                let xe = ex.reciprocal(p_x, RoundingMode::None)?;
+                let mut xe = ex.reciprocal(p_x, RoundingMode::None)?;
+                xe.div_by_2(RoundingMode::None);
+                xe.div_by_2(RoundingMode::None);
 
                 ex.add(&xe, p_x, RoundingMode::None)
             }?;
 
-            ret.div_by_2(RoundingMode::None);
-
             if ret.try_set_precision(p, rm, p_wrk)? {
                 ret.set_inexact(ret.inexact() | self.inexact());
                 break Ok(ret);
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index e70976d..76032de 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -146,6 +146,27 @@ impl BigFloatNumber {
         }
     }
 
+    // e^self / 2 for positive argument, also when e^self is out of range.
+    pub(crate) fn exp_half(&self, p: usize, cc: &mut Consts) -> Result<Self, Error> {
+        match self.exp(p, RoundingMode::None, cc) {
+            Ok(mut ret) => {
+                ret.div_by_2(RoundingMode::None);
+                Ok(ret)
+            }
+            Err(Error::ExponentOverflow(_)) => {
+                let mut x = self.clone()?;
+                x.div_by_2(RoundingMode::None);
+
+                let ex = x.exp(p, RoundingMode::None, cc)?;
+
+                let mut ret = ex.clone()?;
+                ret.div_by_2(RoundingMode::None);
+                ret.mul(&ex, p, RoundingMode::None)
+            }
+            Err(e) => Err(e),
+        }
+    }
+
     // exp for negative argument when e^(-self) is out of range
     fn exp_small_result(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let mut x = self.clone()?;
diff --git a/astro-float-num/src/ops/sinh.rs b/astro-float-num/src/ops/sinh.rs
index d799f55..f7115a0 100644
--- a/astro-float-num/src/ops/sinh.rs
+++ b/astro-float-num/src/ops/sinh.rs
@@ -45,26 +45,8 @@ impl BigFloatNumber {
             let mut ret = if x.exponent() <= 0 {
                 Self::sinh_series(x.clone()?, p_x, RoundingMode::None)?
             } else {
-                let mut val = if ethres > x.mantissa_max_bit_len() + 2 {
-                    // e^|x| / 2 * signum(self)
-
-                    x.exp(p_x, RoundingMode::None, cc)
-                } else {
-                    // (e^x - e^(-x)) / 2
-
-                    let ex = match x.exp(p_x, RoundingMode::None, cc) {
-                        Ok(val) => val,
-                        Err(Error::ExponentOverflow(_)) => {
-                            return Err(Error::ExponentOverflow(self.sign()));
-                        }
-                        Err(err) => return Err(err),
-                    };
-
-                    let xe = ex.reciprocal(p_x, RoundingMode::None)?;
-
-                    ex.sub(&xe, p_x, RoundingMode::None)
-                }
-                .map_err(|e| -> Error {
+                // e^|x| / 2
+                let ex = x.exp_half(p_x, cc).map_err(|e| -> Error {
                     if let Error::ExponentOverflow(_) = e {
                         Error::ExponentOverflow(self.sign())
                     } else {
@@ -72,9 +54,19 @@ impl BigFloatNumber {
                     }
                 })?;
 
-                val.div_by_2(RoundingMode::None);
+                if ethres > x.mantissa_max_bit_len() + 2 {
+                    // e^|x| / 2 * signum(self)
 
-                val
+                    ex
+                } else {
+                    // (e^x - e^(-x)) / 2
+
+                    let mut xe = ex.reciprocal(p_x, RoundingMode::None)?;
+                    xe.div_by_2(RoundingMode::None);
+                    xe.div_by_2(RoundingMode::None);
+
+                    ex.sub(&xe, p_x, RoundingMode::None)?
+                }
             };
 
             ret.set_sign(self.sign());
-- 
2.43.0


From 256369d62ba0e437f7fba42461898df1ebb7f519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:49 +0000
Subject: [PATCH 15/43] fix: incorrect precision caused panic or an invalid
 number

---
 astro-float-num/src/mantissa/mantissa.rs | 8 ++++++++
 astro-float-num/src/ops/acos.rs          | 1 +
 astro-float-num/src/ops/acosh.rs         | 1 +
 astro-float-num/src/ops/asin.rs          | 1 +
 astro-float-num/src/ops/asinh.rs         | 1 +
 astro-float-num/src/ops/atan.rs          | 1 +
 astro-float-num/src/ops/atanh.rs         | 1 +
 astro-float-num/src/ops/consts/mod.rs    | 4 ++++
 astro-float-num/src/ops/cos.rs           | 1 +
 astro-float-num/src/ops/cosh.rs          | 1 +
 astro-float-num/src/ops/log.rs           | 4 ++++
 astro-float-num/src/ops/pow.rs           | 5 +++++
 astro-float-num/src/ops/sin.rs           | 1 +
 astro-float-num/src/ops/sinh.rs          | 1 +
 astro-float-num/src/ops/tan.rs           | 1 +
 astro-float-num/src/ops/tanh.rs          | 1 +
 16 files changed, 33 insertions(+)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 8b48045..7bdfc53 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -54,6 +54,10 @@ impl Mantissa {
     pub fn oned_mantissa(p: usize) -> Result<Self, Error> {
         let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
 
+        if m.len() == 0 {
+            return Err(Error::InvalidArgument);
+        }
+
         let n = WORD_BIT_SIZE * m.len();
 
         m.fill(WORD_MAX);
@@ -65,6 +69,10 @@ impl Mantissa {
     pub fn min(p: usize) -> Result<Self, Error> {
         let mut m = Self::reserve_new(Self::bit_len_to_word_len(p))?;
 
+        if m.len() == 0 {
+            return Err(Error::InvalidArgument);
+        }
+
         m.fill(0);
 
         m[0] = 1;
diff --git a/astro-float-num/src/ops/acos.rs b/astro-float-num/src/ops/acos.rs
index dc9e998..4fdf0e6 100644
--- a/astro-float-num/src/ops/acos.rs
+++ b/astro-float-num/src/ops/acos.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn acos(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let cmpone = self.abs_cmp(&ONE);
         if cmpone == 0 && self.is_positive() {
diff --git a/astro-float-num/src/ops/acosh.rs b/astro-float-num/src/ops/acosh.rs
index 93bef52..f9f43ba 100644
--- a/astro-float-num/src/ops/acosh.rs
+++ b/astro-float-num/src/ops/acosh.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: when `self` < 1, or the precision is incorrect.
     pub fn acosh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let cmpone = self.cmp(&ONE);
         if cmpone == 0 {
diff --git a/astro-float-num/src/ops/asin.rs b/astro-float-num/src/ops/asin.rs
index 0f76d86..d2a2bf3 100644
--- a/astro-float-num/src/ops/asin.rs
+++ b/astro-float-num/src/ops/asin.rs
@@ -22,6 +22,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn asin(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/asinh.rs b/astro-float-num/src/ops/asinh.rs
index eadcd3a..78906fc 100644
--- a/astro-float-num/src/ops/asinh.rs
+++ b/astro-float-num/src/ops/asinh.rs
@@ -24,6 +24,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn asinh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/atan.rs b/astro-float-num/src/ops/atan.rs
index 0f40485..7366d12 100644
--- a/astro-float-num/src/ops/atan.rs
+++ b/astro-float-num/src/ops/atan.rs
@@ -89,6 +89,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn atan(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/atanh.rs b/astro-float-num/src/ops/atanh.rs
index 4a92ea0..59e1aef 100644
--- a/astro-float-num/src/ops/atanh.rs
+++ b/astro-float-num/src/ops/atanh.rs
@@ -22,6 +22,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: when |`self`| > 1, or the precision is incorrect.
     pub fn atanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = self.clone()?;
diff --git a/astro-float-num/src/ops/consts/mod.rs b/astro-float-num/src/ops/consts/mod.rs
index 2a7f09b..d7c22b4 100644
--- a/astro-float-num/src/ops/consts/mod.rs
+++ b/astro-float-num/src/ops/consts/mod.rs
@@ -55,6 +55,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn pi_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.pi.for_prec(p, rm)
     }
 
@@ -67,6 +68,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn e_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.e.for_prec(p, rm)
     }
 
@@ -79,6 +81,7 @@ impl Consts {
     ///  - InvalidArgument: the precision is incorrect.
     pub(crate) fn ln_2_num(&mut self, p: usize, rm: RoundingMode) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.ln2.for_prec(p, rm)
     }
 
@@ -95,6 +98,7 @@ impl Consts {
         rm: RoundingMode,
     ) -> Result<BigFloatNumber, Error> {
         let p = round_p(p);
+        BigFloatNumber::p_assertion(p)?;
         self.ln10.for_prec(p, rm)
     }
 
diff --git a/astro-float-num/src/ops/cos.rs b/astro-float-num/src/ops/cos.rs
index 99277c7..f7ac164 100644
--- a/astro-float-num/src/ops/cos.rs
+++ b/astro-float-num/src/ops/cos.rs
@@ -109,6 +109,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn cos(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/cosh.rs b/astro-float-num/src/ops/cosh.rs
index d841656..4390a07 100644
--- a/astro-float-num/src/ops/cosh.rs
+++ b/astro-float-num/src/ops/cosh.rs
@@ -21,6 +21,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn cosh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
diff --git a/astro-float-num/src/ops/log.rs b/astro-float-num/src/ops/log.rs
index 8221513..9bf0b6b 100644
--- a/astro-float-num/src/ops/log.rs
+++ b/astro-float-num/src/ops/log.rs
@@ -93,6 +93,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn ln(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // factoring: ln(self) = ln(x * 2^n) = ln(x) + n*ln(2), 0.5 <= x < 1
         // reduction: ln(x) = 2*ln(sqrt(x))
@@ -221,6 +222,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn log2(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // log2(self) = ln(x * 2^n) / ln(2) = ln(x) / ln(2) + n, 0.5 <= x < 1
 
@@ -300,6 +302,7 @@ impl BigFloatNumber {
     ///  - MemoryAllocation: failed to allocate memory.
     pub fn log10(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         // ln(self) / ln(10)
 
@@ -371,6 +374,7 @@ impl BigFloatNumber {
         cc: &mut Consts,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() || self.is_negative() || n.is_zero() || n.is_negative() {
             return Err(Error::InvalidArgument);
diff --git a/astro-float-num/src/ops/pow.rs b/astro-float-num/src/ops/pow.rs
index 76032de..f147c62 100644
--- a/astro-float-num/src/ops/pow.rs
+++ b/astro-float-num/src/ops/pow.rs
@@ -94,6 +94,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn exp(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             let mut ret = Self::from_word(1, p)?;
@@ -264,6 +265,7 @@ impl BigFloatNumber {
             self.powi_internal(n as usize, p, rm, true)
         } else {
             let p = round_p(p);
+            Self::p_assertion(p)?;
 
             if self.is_zero() {
                 return Err(Error::DivisionByZero);
@@ -317,6 +319,7 @@ impl BigFloatNumber {
         update_inexact: bool,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let mut i = n;
 
@@ -344,6 +347,7 @@ impl BigFloatNumber {
         let bit_pos = bit_pos; // make immutable
 
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let mut p_inc = WORD_BIT_SIZE;
         let mut p_wrk = p.max(self.mantissa_max_bit_len()) + p_inc;
@@ -563,6 +567,7 @@ impl BigFloatNumber {
         cc: &mut Consts,
     ) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         let nint = n.is_int();
         if n.is_zero() {
diff --git a/astro-float-num/src/ops/sin.rs b/astro-float-num/src/ops/sin.rs
index dd8f87d..ace2010 100644
--- a/astro-float-num/src/ops/sin.rs
+++ b/astro-float-num/src/ops/sin.rs
@@ -109,6 +109,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn sin(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/sinh.rs b/astro-float-num/src/ops/sinh.rs
index f7115a0..effa886 100644
--- a/astro-float-num/src/ops/sinh.rs
+++ b/astro-float-num/src/ops/sinh.rs
@@ -20,6 +20,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn sinh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/tan.rs b/astro-float-num/src/ops/tan.rs
index b1c58a8..ae175d8 100644
--- a/astro-float-num/src/ops/tan.rs
+++ b/astro-float-num/src/ops/tan.rs
@@ -72,6 +72,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn tan(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
diff --git a/astro-float-num/src/ops/tanh.rs b/astro-float-num/src/ops/tanh.rs
index 797b325..b0cb0c4 100644
--- a/astro-float-num/src/ops/tanh.rs
+++ b/astro-float-num/src/ops/tanh.rs
@@ -23,6 +23,7 @@ impl BigFloatNumber {
     ///  - InvalidArgument: the precision is incorrect.
     pub fn tanh(&self, p: usize, rm: RoundingMode, cc: &mut Consts) -> Result<Self, Error> {
         let p = round_p(p);
+        Self::p_assertion(p)?;
 
         if self.is_zero() {
             return Self::new2(p, self.sign(), self.inexact());
-- 
2.43.0


From 1f15c26bf5c75955ce7b1943fbe693e51a9fac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:32 +0000
Subject: [PATCH 16/43] fix: integers with precision below their size were
 rejected, and from_f64 of zero ignored the precision

---
 astro-float-num/src/num.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index c8dc221..8b5ec23 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -905,7 +905,7 @@ impl BigFloatNumber {
         let mut ret = Self::new(0)?;
 
         if f == 0.0f64 {
-            return Ok(ret);
+            return Self::new(p);
         }
 
         if f.is_infinite() {
@@ -1604,7 +1604,7 @@ impl BigFloatNumber {
     pub fn from_u128(mut v: u128, p: usize) -> Result<Self, Error> {
         const SZ: usize = core::mem::size_of::<u128>() * 8;
 
-        if p < SZ {
+        if round_p(p) < SZ {
             return Err(Error::InvalidArgument);
         }
 
@@ -1693,7 +1693,7 @@ macro_rules! impl_int_conv {
             pub fn $from_u(u: $u, p: usize) -> Result<Self, Error> {
                 const SZ: usize = core::mem::size_of::<$u>() * 8;
 
-                if p < SZ {
+                if round_p(p) < SZ {
                     return Err(Error::InvalidArgument);
                 }
 
-- 
2.43.0


From 98838b76179fa87ceffebe1240692c61836f2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:39 +0000
Subject: [PATCH 17/43] fix: remainder was zero for subnormal results, and lost
 the inexact flag of the divisor

---
 astro-float-num/src/num.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 8b5ec23..502a589 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -456,7 +456,9 @@ impl BigFloatNumber {
         }
 
         if self.m.is_zero() {
-            return self.clone();
+            let mut ret = self.clone()?;
+            ret.inexact |= d2.inexact;
+            return Ok(ret);
         }
 
         // represent as mN * 2 ^ eNeff
@@ -476,23 +478,18 @@ impl BigFloatNumber {
                     // first, see if m3 is already subnormal, then shift accordingly
                     let mut excess = m3.max_bit_len() - m3.bit_len();
 
-                    if EXPONENT_MIN as isize - e > usize::MAX as isize {
-                        m3.set_zero();
-                        e = 0;
-                    } else {
-                        let shift = (EXPONENT_MIN as isize - e) as usize;
+                    let shift = (EXPONENT_MIN as isize - e) as usize;
 
-                        if excess < shift {
-                            m3.extend_subnormal(shift)?;
-                            excess = m3.max_bit_len() - m3.bit_len();
-                        }
+                    if excess < shift {
+                        m3.extend_subnormal(shift)?;
+                        excess = m3.max_bit_len() - m3.bit_len();
+                    }
 
-                        let shift = excess - shift;
-                        m3.shift_left(shift);
-                        m3.set_bit_len(m3.bit_len() + shift);
+                    let shift = excess - shift;
+                    m3.shift_left(shift);
+                    m3.set_bit_len(m3.bit_len() + shift);
 
-                        e = EXPONENT_MIN as isize;
-                    }
+                    e = EXPONENT_MIN as isize;
                 } else {
                     m3.normilize2();
                 }
@@ -530,11 +527,11 @@ impl BigFloatNumber {
             let e = e2eff + m3.bit_len() as isize;
 
             finalize(m3, e)
-        } else if (self.m.bit_len() as isize + self.e as isize)
-            < (m2_normalized.bit_len() as isize + e)
-        {
+        } else if self.e as isize - ((self.m.max_bit_len() - self.m.bit_len()) as isize) < e {
             // self < d2, remainder = self
-            self.clone()
+            let mut ret = self.clone()?;
+            ret.inexact |= d2.inexact;
+            Ok(ret)
         } else {
             // since self.e >= d2.e and e1eff <= e2eff, then e2eff - e1eff < m1.len()
             // (m1 * 2 ^ e1eff) mod (m2 * 2 ^ e2eff) = m1 mod (m2 * 2 ^ (e2eff - e1eff))
-- 
2.43.0


From 85ff271b015d1aa655ecd43e075c7d778fad4989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:53 +0000
Subject: [PATCH 18/43] fix: division of a number by infinity ignored the
 precision

---
 astro-float-num/src/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 124a122..d510547 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -289,7 +289,7 @@ impl BigFloat {
                 Flavor::Value(v2) => {
                     Self::result_to_ext(v1.div(v2, p, rm), v1.is_zero(), v1.sign() == v2.sign())
                 }
-                Flavor::Inf(_) => Self::new(v1.mantissa_max_bit_len()),
+                Flavor::Inf(_) => Self::new(p),
                 Flavor::NaN(err) => Self::nan(*err),
             },
             Flavor::Inf(s1) => match &d2.inner {
-- 
2.43.0


From 06f1821ea0639366e9c7135155abbbb80ee8fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 19/43] fix: atan of negative infinity was rounded in the
 opposite direction

---
 astro-float-num/src/ext.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index d510547..af0c0a5 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -780,6 +780,13 @@ impl BigFloat {
         rm: RoundingMode,
         cc: &mut Consts,
     ) -> Result<BigFloatNumber, Error> {
+        // the magnitude is rounded, the sign is set after that
+        let rm = match rm {
+            RoundingMode::Up if s.is_negative() => RoundingMode::Down,
+            RoundingMode::Down if s.is_negative() => RoundingMode::Up,
+            _ => rm,
+        };
+
         let mut half_pi = cc.pi_num(p, rm)?;
 
         half_pi.set_exponent(1);
-- 
2.43.0


From 71bcddc2294495e47ba04b9cf4a8adbfe068b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:54 +0000
Subject: [PATCH 20/43] fix: power of infinity with base between -1 and 1, or
 less than -1

---
 astro-float-num/src/ext.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index af0c0a5..48e75db 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -389,13 +389,23 @@ impl BigFloat {
                     ),
                     Flavor::Inf(s2) => {
                         // v1^inf
-                        let val = v1.cmp(&crate::common::consts::ONE);
+                        let val = v1.abs_cmp(&crate::common::consts::ONE);
                         if val > 0 {
-                            BigFloat {
-                                inner: Flavor::Inf(*s2),
+                            if v1.is_positive() {
+                                BigFloat {
+                                    inner: Flavor::Inf(*s2),
+                                }
+                            } else if s2.is_positive() {
+                                INF_POS
+                            } else {
+                                Self::new(p)
                             }
                         } else if val < 0 {
-                            Self::new(p)
+                            if s2.is_negative() && !v1.is_zero() {
+                                INF_POS
+                            } else {
+                                Self::new(p)
+                            }
                         } else {
                             Self::from_u8(1, p)
                         }
-- 
2.43.0


From cb3eb44e9d777da2dad101f0dfd00460e7c60dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 21/43] fix: signum of zero was not zero

---
 astro-float-num/src/ext.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 48e75db..4847c44 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -599,6 +599,8 @@ impl BigFloat {
     pub fn signum(&self) -> Self {
         if self.is_nan() {
             NAN
+        } else if self.is_zero() {
+            Self::new(DEFAULT_P)
         } else if self.is_negative() {
             let mut ret = Self::from_u8(1, DEFAULT_P);
             ret.inv_sign();
-- 
2.43.0


From 431dd2f18b7659c86eb9b65f609b2828ba5841db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:40 +0000
Subject: [PATCH 22/43] fix: zero was classified as subnormal

---
 astro-float-num/src/ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 4847c44..418fca1 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -749,10 +749,10 @@ impl BigFloat {
     pub fn classify(&self) -> FpCategory {
         match &self.inner {
             Flavor::Value(v) => {
-                if v.is_subnormal() {
-                    FpCategory::Subnormal
-                } else if v.is_zero() {
+                if v.is_zero() {
                     FpCategory::Zero
+                } else if v.is_subnormal() {
+                    FpCategory::Subnormal
                 } else {
                     FpCategory::Normal
                 }
-- 
2.43.0


From b1cc401ccd92f7ec8c80679156ae31208cf18a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:33 +0000
Subject: [PATCH 23/43] fix: binary digits with leading zeroes were converted
 to a number which is not normalized

---
 astro-float-num/src/conv.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index f0c43ed..e30fdb1 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -113,12 +113,9 @@ impl BigFloatNumber {
 
         mantissa.update_bit_len();
 
-        if p < usize::MAX {
-            let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
-
-            ret.set_precision(p, rm)?;
-
-            Ok(ret)
+        if mantissa.bit_len() == 0 {
+            // mantissa is zero
+            e = 0;
         } else {
             let shift = mantissa.max_bit_len() - mantissa.bit_len();
 
@@ -136,9 +133,15 @@ impl BigFloatNumber {
                     }
                 }
             }
+        }
+
+        let mut ret = BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false);
 
-            Ok(BigFloatNumber::from_raw_unchecked(mantissa, sign, e, false))
+        if p < usize::MAX {
+            ret.set_precision(p, rm)?;
         }
+
+        Ok(ret)
     }
 
     // radix is power of 2.
-- 
2.43.0


From 480ea41f642a0afa0d06f15705f2e8d62f775fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:56 +0000
Subject: [PATCH 24/43] fix: radix conversion to subnormal numbers was rounded
 incorrectly, and had incorrect bit length

---
 astro-float-num/src/conv.rs | 14 ++++++--------
 astro-float-num/src/num.rs  |  7 ++++++-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index e30fdb1..1ad4607 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -238,17 +238,14 @@ impl BigFloatNumber {
                 if p < usize::MAX {
                     let mut num = BigFloatNumber::from_raw_unchecked(m, sign, EXPONENT_MIN, false);
 
-                    if p + WORD_BIT_SIZE > num.mantissa_max_bit_len() {
-                        num.set_precision(p + WORD_BIT_SIZE, RoundingMode::None)?;
+                    if p > num.mantissa_max_bit_len() {
+                        num.set_precision(p, RoundingMode::None)?;
                     }
 
-                    num.subnormalize(e, RoundingMode::None);
+                    // round once
+                    num.subnormalize_to(e, p, rm)?;
 
-                    if num.inexact() {
-                        num.mantissa_mut().digits_mut()[0] |= 1; // sticky for correct rounding when calling set_precision()
-                    }
-
-                    num
+                    return Ok(num);
                 } else {
                     let e_shift = (EXPONENT_MIN as isize - e) as usize;
                     let newbitlen = m.bit_len().saturating_add(e_shift);
@@ -259,6 +256,7 @@ impl BigFloatNumber {
 
                     let leftshift = m.max_bit_len() - newbitlen;
                     m.shift_left(leftshift);
+                    m.update_bit_len();
 
                     BigFloatNumber::from_raw_unchecked(m, sign, EXPONENT_MIN, false)
                 }
diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 502a589..2f2c814 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -768,7 +768,12 @@ impl BigFloatNumber {
     }
 
     // Make `self` subnormal and reduce the precision to `p`.
-    fn subnormalize_to(&mut self, e: isize, p: usize, rm: RoundingMode) -> Result<(), Error> {
+    pub(crate) fn subnormalize_to(
+        &mut self,
+        e: isize,
+        p: usize,
+        rm: RoundingMode,
+    ) -> Result<(), Error> {
         debug_assert_eq!(self.exponent(), EXPONENT_MIN);
         debug_assert!(!self.is_subnormal());
 
-- 
2.43.0


From d73c468331b3935f9f53cdc8e56e07c09b75c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:19 +0000
Subject: [PATCH 25/43] fix: parsing of numbers with exponent out of range when
 the value is zero, representable, or subnormal

---
 astro-float-num/src/conv.rs   | 65 ++++++++++++++++++++++++++++++-----
 astro-float-num/src/ext.rs    | 10 ++++--
 astro-float-num/src/parser.rs | 38 ++++++++++++++++----
 3 files changed, 95 insertions(+), 18 deletions(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 1ad4607..fc484bc 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -44,6 +44,24 @@ impl BigFloatNumber {
         digits: &[u8],
         e: Exponent,
         rdx: Radix,
+        p: usize,
+        rm: RoundingMode,
+        cc: &mut Consts,
+    ) -> Result<Self, Error> {
+        #[cfg(target_arch = "x86")]
+        if e < EXPONENT_MIN || e > EXPONENT_MAX {
+            return Err(Error::InvalidArgument);
+        }
+
+        Self::convert_from_radix_wide(sign, digits, e as isize, rdx, p, rm, cc)
+    }
+
+    /// The same as `convert_from_radix`, but `e` can be less than EXPONENT_MIN.
+    pub(crate) fn convert_from_radix_wide(
+        sign: Sign,
+        digits: &[u8],
+        e: isize,
+        rdx: Radix,
         mut p: usize,
         rm: RoundingMode,
         cc: &mut Consts,
@@ -57,19 +75,48 @@ impl BigFloatNumber {
             }
         }
 
-        #[cfg(target_arch = "x86")]
-        if e < EXPONENT_MIN || e > EXPONENT_MAX {
-            return Err(Error::InvalidArgument);
-        }
-
         match rdx {
-            Radix::Bin => Self::conv_from_binary(sign, digits, e, p, rm),
+            Radix::Bin => {
+                if e < EXPONENT_MIN as isize {
+                    Self::conv_from_commensurable(sign, digits, e, 1, p, rm)
+                } else {
+                    Self::conv_from_binary(sign, digits, e as Exponent, p, rm)
+                }
+            }
             Radix::Oct => Self::conv_from_commensurable(sign, digits, e, 3, p, rm),
-            Radix::Dec => Self::conv_from_dec(sign, digits, e, p, rm, cc),
+            Radix::Dec => {
+                if e < EXPONENT_MIN as isize {
+                    Self::conv_from_dec_tiny(sign, digits, p, rm)
+                } else {
+                    Self::conv_from_dec(sign, digits, e as Exponent, p, rm, cc)
+                }
+            }
             Radix::Hex => Self::conv_from_commensurable(sign, digits, e, 4, p, rm),
         }
     }
 
+    // Decimal exponent is less than EXPONENT_MIN, i.e. the number is much smaller than the minimum positive number.
+    fn conv_from_dec_tiny(
+        sign: Sign,
+        digits: &[u8],
+        p: usize,
+        rm: RoundingMode,
+    ) -> Result<Self, Error> {
+        let p = if p < usize::MAX { p } else { DEFAULT_P };
+
+        if digits.iter().all(|&d| d == 0) {
+            return Self::new(p);
+        }
+
+        let mut ret = Self::min_positive_normal(p)?;
+
+        ret.set_sign(sign);
+
+        ret.subnormalize_to(EXPONENT_MIN as isize - p as isize - 1, p, rm)?;
+
+        Ok(ret)
+    }
+
     fn conv_from_binary(
         sign: Sign,
         digits: &[u8],
@@ -148,7 +195,7 @@ impl BigFloatNumber {
     fn conv_from_commensurable(
         sign: Sign,
         digits: &[u8],
-        e: Exponent,
+        e: isize,
         shift: usize,
         p: usize,
         rm: RoundingMode,
@@ -193,7 +240,7 @@ impl BigFloatNumber {
             let mut m = Mantissa::new(msz)?;
 
             // exponent
-            let e = e as isize * shift as isize + e_shift;
+            let e = e.saturating_mul(shift as isize).saturating_add(e_shift);
 
             if e > EXPONENT_MAX as isize {
                 return Err(Error::ExponentOverflow(sign));
diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 418fca1..94c799d 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -647,9 +647,15 @@ impl BigFloat {
                 } else if ps.is_nan() {
                     NAN
                 } else {
-                    let (m, s, e) = ps.raw_parts();
+                    let (m, s, e) = if p < usize::MAX {
+                        ps.raw_parts_wide()
+                    } else {
+                        let (m, s, e) = ps.raw_parts();
+                        (m, s, e as isize)
+                    };
+
                     Self::result_to_ext(
-                        BigFloatNumber::convert_from_radix(s, m, e, rdx, p, rm, cc),
+                        BigFloatNumber::convert_from_radix_wide(s, m, e, rdx, p, rm, cc),
                         false,
                         true,
                     )
diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index 6f0aaf7..e68fba4 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -20,6 +20,7 @@ pub struct ParserState<'a> {
     e: isize,
     inf: bool,
     nan: bool,
+    underflow: bool,
 }
 
 impl<'a> ParserState<'a> {
@@ -33,6 +34,7 @@ impl<'a> ParserState<'a> {
             e: 0,
             inf: false,
             nan: true,
+            underflow: false,
         }
     }
 
@@ -60,8 +62,18 @@ impl<'a> ParserState<'a> {
     }
 
     /// Returns mantissa digits, mantissa length, sign, exponent.
+    /// If the exponent is less than EXPONENT_MIN, then zero is returned.
     pub fn raw_parts(&self) -> (&[u8], Sign, Exponent) {
-        (&self.mantissa_bytes, self.sign, self.e as Exponent)
+        if self.underflow {
+            (&[0], self.sign, 0)
+        } else {
+            (&self.mantissa_bytes, self.sign, self.e as Exponent)
+        }
+    }
+
+    /// Returns mantissa digits, sign, exponent, which can be less than EXPONENT_MIN.
+    pub fn raw_parts_wide(&self) -> (&[u8], Sign, isize) {
+        (&self.mantissa_bytes, self.sign, self.e)
     }
 }
 
@@ -139,13 +151,25 @@ fn parse_num(parser_state: &mut ParserState, rdx: Radix) -> Result<(), Error> {
         }
 
         if parser_state.e < EXPONENT_MIN as isize {
-            let mut zero = Vec::new();
-            zero.try_reserve_exact(1)?;
-            zero.push(0);
-            parser_state.mantissa_bytes = zero;
-            parser_state.e = 0;
+            parser_state.underflow = true;
         } else if parser_state.e > EXPONENT_MAX as isize {
-            parser_state.inf = true;
+            // leading zeroes of the fractional part reduce the exponent
+            let lz = parser_state
+                .mantissa_bytes
+                .iter()
+                .take_while(|&&d| d == 0)
+                .count();
+
+            if lz == parser_state.mantissa_bytes.len() {
+                // just zeroes
+                parser_state.e = 0;
+            } else {
+                let shift = lz.min((parser_state.e - EXPONENT_MAX as isize) as usize);
+                parser_state.mantissa_bytes.drain(..shift);
+                parser_state.e -= shift as isize;
+
+                parser_state.inf = parser_state.e > EXPONENT_MAX as isize;
+            }
         }
     } else if skip_cnt1 > 0 {
         // just zeroes
-- 
2.43.0


From 0942654551022edb4256448a54b7bed4281e7a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:12 +0000
Subject: [PATCH 26/43] fix: overflow in conversion of binary digits with
 leading zeroes

---
 astro-float-num/src/conv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index fc484bc..ffb1e35 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -168,7 +168,7 @@ impl BigFloatNumber {
 
             if shift > 0 {
                 if e > EXPONENT_MIN {
-                    let e_shift = (e - EXPONENT_MIN) as usize;
+                    let e_shift = (e as isize - EXPONENT_MIN as isize) as usize;
 
                     if e_shift >= shift {
                         mantissa.normilize2();
-- 
2.43.0


From 16cbf549fa6b5e80b72b2dd1d9158bac4d566982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 27/43] fix: negative integers could not be deserialized

---
 astro-float-num/src/for_3rd/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/for_3rd/de.rs b/astro-float-num/src/for_3rd/de.rs
index 6efc628..1ea880b 100644
--- a/astro-float-num/src/for_3rd/de.rs
+++ b/astro-float-num/src/for_3rd/de.rs
@@ -25,7 +25,14 @@ impl<'de> Visitor<'de> for BigFloatVisitor {
     }
 
     fn visit_u64<E: Error>(self, v: u64) -> Result<Self::Value, E> {
-        match BigFloatNumber::from_usize(v as usize) {
+        match BigFloatNumber::from_u64(v, 64) {
+            Ok(o) => Ok(o.into()),
+            Err(e) => Err(Error::custom(format!("{e:?}"))),
+        }
+    }
+
+    fn visit_i64<E: Error>(self, v: i64) -> Result<Self::Value, E> {
+        match BigFloatNumber::from_i64(v, 64) {
             Ok(o) => Ok(o.into()),
             Err(e) => Err(Error::custom(format!("{e:?}"))),
         }
-- 
2.43.0


From 1217656c2bc3aad70f5a6fef0b2c5c32e7232d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 28/43] fix: try_set_precision panicked, or accepted an
 undecided rounding, unless the number of correct digits was a multiple of the
 word size greater than the precision

---
 astro-float-num/src/num.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 2f2c814..89dc488 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -1471,6 +1471,16 @@ impl BigFloatNumber {
         rm: RoundingMode,
         s: usize,
     ) -> Result<bool, Error> {
+        Self::p_assertion(p)?;
+
+        // only whole words of correct digits are taken into account
+        let max_bit_len = self.mantissa_max_bit_len();
+        let s = s.min(max_bit_len) / WORD_BIT_SIZE * WORD_BIT_SIZE;
+
+        if self.inexact() && rm != RoundingMode::None && p > 0 && p < max_bit_len && s <= p {
+            return Ok(false);
+        }
+
         self.set_precision_internal(p, rm, self.inexact(), s)
     }
 
-- 
2.43.0


From d685e864745b88c17e9a77c809a60fa40e55cb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 29/43] fix: directed rounding refused some decidable numbers
 for ever

---
 astro-float-num/src/mantissa/mantissa.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 7bdfc53..69bd1ec 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -1018,10 +1018,9 @@ impl Mantissa {
 
                         if *check_roundable {
                             // try to get information from preceding bits
-                            let msk = rb & (WORD_MAX << (WORD_BIT_SIZE - t));
-                            if msk == rb {
+                            if rb == WORD_MAX << (WORD_BIT_SIZE - t) {
                                 td = WORD_MAX;
-                            } else if msk != 0 {
+                            } else {
                                 *check_roundable = false; // self is roundable
                             }
                         }
-- 
2.43.0


From 89c9504ae94d94c9b3e8d7a3b862d61386c99d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 30/43] fix: formatting a number by a writer which formats
 numbers panicked

---
 astro-float-num/src/ext.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index 94c799d..f6dfaa4 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -1654,10 +1654,13 @@ macro_rules! impl_format_rdx {
             /// Formats the number.
             /// The implementation is not available in no_std environment.
             fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), core::fmt::Error> {
+                // the writer can format other numbers: it must not be called while the cache is borrowed.
+                let mut s = String::new();
                 crate::common::consts::TENPOWERS.with(|tp| {
                     let cc = &mut tp.borrow_mut();
-                    self.write_str(f, $rdx, RoundingMode::ToEven, cc)
-                })
+                    self.write_str(&mut s, $rdx, RoundingMode::ToEven, cc)
+                })?;
+                f.write_str(&s)
             }
         }
     };
-- 
2.43.0


From f08b70c457ea975681bc6cb171afadc12878d9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 31/43] fix: rounding of an exact number with few correct
 digits panicked

---
 astro-float-num/src/mantissa/mantissa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/mantissa/mantissa.rs b/astro-float-num/src/mantissa/mantissa.rs
index 69bd1ec..5ce088e 100644
--- a/astro-float-num/src/mantissa/mantissa.rs
+++ b/astro-float-num/src/mantissa/mantissa.rs
@@ -1003,7 +1003,7 @@ impl Mantissa {
                     t += 1;
                 }
             } else {
-                let mut cc = (n - (self.max_bit_len() - s)) / WORD_BIT_SIZE; // num of roundable significant words
+                let mut cc = n.saturating_sub(self.max_bit_len() - s) / WORD_BIT_SIZE; // num of roundable significant words
                 let mut rem_zero = true;
                 let mut td = 0; // either all bits set, or zero (default)
 
-- 
2.43.0


From 0cb3e47ac40695c210435742f2cbe94b1731ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 32/43] fix: conversion of a zero precision number to octal and
 hexadecimal digits panicked

---
 astro-float-num/src/conv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index ffb1e35..fbbfe2f 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -713,6 +713,10 @@ impl BigFloatNumber {
 
     /// Conversion for radixes of power of 2.
     fn conv_to_commensurable(&self, shift: usize) -> Result<(Sign, Vec<u8>, Exponent), Error> {
+        if self.mantissa_max_bit_len() == 0 {
+            return Ok((self.sign(), Vec::new(), 0));
+        }
+
         let mut e = self.exponent();
         let mut e_shift = e.unsigned_abs() as usize % shift;
         e /= shift as Exponent;
-- 
2.43.0


From fb8faa6fb3d98eec8255576d4bcf457bf789eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 33/43] fix: zero precision product below the smallest number
 panicked

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 89dc488..183f3b4 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -828,7 +828,7 @@ impl BigFloatNumber {
             self.m.set_length(p)?;
             self.m.set_zero();
 
-            if round_up {
+            if round_up && p > 0 {
                 self.m.digits_mut()[0] = 1;
                 self.m.set_bit_len(1);
             } else {
-- 
2.43.0


From 97eddbadd5f8e23fadd189d2e659615b4c4a2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 34/43] fix: parsing of decimal numbers with exponents from
 about -1.3e9 down never finished

---
 astro-float-num/src/conv.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index fbbfe2f..9058108 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -399,6 +399,11 @@ impl BigFloatNumber {
                 }
             }
 
+            if f.is_zero() {
+                // the number is much smaller than the minimum positive number.
+                return Self::conv_from_dec_tiny(sign, digits, p, rm);
+            }
+
             f.set_sign(sign);
 
             if f.try_set_precision(p, rm, p_wrk)? {
-- 
2.43.0


From 0949bb5d521ca697c45da19eea98bd4f87002071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 35/43] fix: exponents greater than 2^31 were cut when parsed,
 and a long mantissa could bring them back in range

---
 astro-float-num/src/parser.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/astro-float-num/src/parser.rs b/astro-float-num/src/parser.rs
index e68fba4..beaf140 100644
--- a/astro-float-num/src/parser.rs
+++ b/astro-float-num/src/parser.rs
@@ -262,12 +262,8 @@ fn parse_exp(parser_state: &mut ParserState, rdx: Radix) {
             _ => {}
         };
     }
-    let e_thres = EXPONENT_MAX.unsigned_abs().max(EXPONENT_MIN.unsigned_abs()) as isize;
     while let Some(c) = ch {
         if is_radix_digit(c, rdx) {
-            if parser_state.e > e_thres {
-                break;
-            }
             parser_state.e = parser_state.e.saturating_mul(rdx as isize);
             let digit = c.to_digit(rdx as u32).unwrap(); // call to unwrap() is unreachable, because c is surely a digit.
             parser_state.e = parser_state.e.saturating_add(digit as isize);
-- 
2.43.0


From 4694a8323e301e6659c5a0a3dc32364f91d483b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 36/43] fix: underflow of a decimal number parsed with
 automatic precision was not rounded and not flagged

---
 astro-float-num/src/ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index f6dfaa4..dac9195 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -647,7 +647,7 @@ impl BigFloat {
                 } else if ps.is_nan() {
                     NAN
                 } else {
-                    let (m, s, e) = if p < usize::MAX {
+                    let (m, s, e) = if p < usize::MAX || rdx == Radix::Dec {
                         ps.raw_parts_wide()
                     } else {
                         let (m, s, e) = ps.raw_parts();
-- 
2.43.0


From 5defdc215874ece28ab47e60d449c135f2b20132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 37/43] fix: on 32-bit words 64-bit integers were refused at
 precisions from 33 to 63 bits

---
 astro-float-num/src/num.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/astro-float-num/src/num.rs b/astro-float-num/src/num.rs
index 183f3b4..81458f2 100644
--- a/astro-float-num/src/num.rs
+++ b/astro-float-num/src/num.rs
@@ -185,7 +185,7 @@ impl BigFloatNumber {
                     shift += 1;
                 }
                 let words = [d as Word, (d >> WORD_BIT_SIZE) as Word];
-                if p < WORD_BIT_SIZE * 2 {
+                if round_p(p) < WORD_BIT_SIZE * 2 {
                     if words[0] != 0 {
                         return Err(Error::InvalidArgument);
                     } else {
-- 
2.43.0


From bcc81a18d24922a34a8022f8e84a2836f625963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 38/43] fix: extending a mantissa could abort the process when
 there was not enough memory

---
 astro-float-num/src/common/buf.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/astro-float-num/src/common/buf.rs b/astro-float-num/src/common/buf.rs
index 844d8e5..93fb947 100644
--- a/astro-float-num/src/common/buf.rs
+++ b/astro-float-num/src/common/buf.rs
@@ -73,10 +73,9 @@ impl WordBuf {
     /// Try to exted the size to fit the precision p. Fill new elements with 0. Data is not moved.
     pub fn try_extend_2(&mut self, p: usize) -> Result<(), Error> {
         let n = (p + WORD_BIT_SIZE - 1) / WORD_BIT_SIZE;
-        if n > self.inner.capacity() {
-            self.inner.try_reserve(n - self.inner.capacity())?;
-        }
-        if n > self.inner.len() {
+        let l = self.inner.len();
+        if n > l {
+            self.inner.try_reserve(n - l)?;
             self.inner.resize(n, 0);
         }
         Ok(())
-- 
2.43.0


From 9070f312bc003cce1818e94fbb9d1bbe213f48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 39/43] fix: digits of a number were stored without checking
 that there is enough memory

---
 astro-float-num/src/conv.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/astro-float-num/src/conv.rs b/astro-float-num/src/conv.rs
index 9058108..18f8523 100644
--- a/astro-float-num/src/conv.rs
+++ b/astro-float-num/src/conv.rs
@@ -544,6 +544,9 @@ impl BigFloatNumber {
 
                         let rsz = if digits.len() > n { n } else { digits.len() };
 
+                        if rsz + e_subn > digits.len() {
+                            digits.try_reserve(rsz + e_subn - digits.len())?;
+                        }
                         digits.resize(rsz + e_subn, 0);
                         digits[rsz..].fill(0);
                         digits.rotate_right(e_subn);
@@ -731,7 +734,7 @@ impl BigFloatNumber {
         }
 
         let mut ret = Vec::new();
-        ret.try_reserve_exact(self.mantissa_max_bit_len() / shift)?;
+        ret.try_reserve_exact(self.mantissa_max_bit_len() / shift + 2)?;
 
         let mask = (WORD_MAX >> (WORD_BIT_SIZE - shift)) as DoubleWord;
         let mut iter = self.mantissa().digits().iter().rev();
-- 
2.43.0


From 86194e326c9322ebc1ea117a3c64a3a89936cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 40/43] fix: the table of powers of ten grew without checking
 that there is enough memory

---
 astro-float-num/src/mantissa/conv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/mantissa/conv.rs b/astro-float-num/src/mantissa/conv.rs
index 1826412..97fae32 100644
--- a/astro-float-num/src/mantissa/conv.rs
+++ b/astro-float-num/src/mantissa/conv.rs
@@ -111,6 +111,7 @@ impl Mantissa {
             let mut wb2 = WordBuf::new(1)?;
             wb2[0] = 10;
 
+            tenpowers.try_reserve(1)?;
             tenpowers.push((wb, wb2, shift));
         }
 
@@ -129,6 +130,7 @@ impl Mantissa {
 
                 let shift = Self::maximize(&mut wb);
 
+                tenpowers.try_reserve(1)?;
                 tenpowers.push((wb, wb2, shift));
             }
         }
-- 
2.43.0


From 149ec7c382a90f263505ac621cd1da3eb1e06c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:04 +0000
Subject: [PATCH 41/43] fix: summation of series cached powers without checking
 that there is enough memory

---
 astro-float-num/src/ops/series.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/astro-float-num/src/ops/series.rs b/astro-float-num/src/ops/series.rs
index 0a95814..e358914 100644
--- a/astro-float-num/src/ops/series.rs
+++ b/astro-float-num/src/ops/series.rs
@@ -327,6 +327,7 @@ fn series_horner<T: PolycoeffGen>(
         let coeff = polycoeff_gen.next(RoundingMode::None)?;
         coef_p = -coeff.exponent() as isize;
         x_p += -x_step.exponent() as isize;
+        cache.try_reserve(1)?;
         cache.push(coeff.clone()?);
     }
 
@@ -379,6 +380,7 @@ fn ndim_series<T: PolycoeffGen>(
         let cache_step = x_pow.clone()?;
 
         for _ in 0..cache_dim_sz {
+            cache.try_reserve(1)?;
             cache.push(x_pow.clone()?);
             x_pow = x_pow.mul(&cache_step, p, RoundingMode::None)?;
         }
-- 
2.43.0


From 8e53a28d4067615938bfe6cb7dd73ddb6bb19e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 42/43] fix: formatting returned the text Err instead of the
 error when there was not enough memory

---
 astro-float-num/src/ext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astro-float-num/src/ext.rs b/astro-float-num/src/ext.rs
index dac9195..399dc47 100644
--- a/astro-float-num/src/ext.rs
+++ b/astro-float-num/src/ext.rs
@@ -716,6 +716,7 @@ impl BigFloat {
                             "-Inf"
                         }
                     }
+                    Error::MemoryAllocation => return Err(e),
                     _ => "Err",
                 },
             },
-- 
2.43.0


From 731cc3d5fefdbac77a2fcb14e3e26304c89c837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 43/43] fix: arguments of expr! which do not fit in the working
 precision were treated as exact

---
 astro-float-macro/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/astro-float-macro/src/lib.rs b/astro-float-macro/src/lib.rs
index 0d22876..72207ce 100644
--- a/astro-float-macro/src/lib.rs
+++ b/astro-float-macro/src/lib.rs
@@ -411,8 +411,10 @@ fn traverse_path(expr: &ExprPath) -> Result<TokenStream, Error> {
         quote!({ cc.ln_10(p_wrk, astro_float::RoundingMode::None) })
     } else {
         quote!({
-            let mut arg = astro_float::BigFloat::from_ext((#expr).clone(), p_wrk, astro_float::RoundingMode::ToEven, cc);
-            arg.set_inexact(false);
+            let mut arg = astro_float::BigFloat::from_ext((#expr).clone(), p_wrk, astro_float::RoundingMode::Down, cc);
+            // the argument itself is exact, but it may not fit in the working precision
+            let arg_up = astro_float::BigFloat::from_ext((#expr).clone(), p_wrk, astro_float::RoundingMode::Up, cc);
+            arg.set_inexact(arg != arg_up);
             arg = astro_float::macro_util::check_exponent_range(arg, emin, emax);
             arg
         })
-- 
2.43.0

