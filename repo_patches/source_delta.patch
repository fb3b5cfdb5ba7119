From 465c2347a14f7885c9411d9420b67a9e20e4d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 01/22] fix: make vector DivAssign all-or-nothing when a
 component division fails

---
 src/vector/vector2d.rs | 3 +--
 src/vector/vector3d.rs | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/vector/vector2d.rs b/src/vector/vector2d.rs
index 562ba00..bd123d5 100644
--- a/src/vector/vector2d.rs
+++ b/src/vector/vector2d.rs
@@ -282,8 +282,7 @@ where
     C: Component,
 {
     fn div_assign(&mut self, rhs: C) {
-        self.x = self.x / rhs;
-        self.y = self.y / rhs;
+        *self = *self / rhs;
     }
 }
 
diff --git a/src/vector/vector3d.rs b/src/vector/vector3d.rs
index fa95183..f09a113 100644
--- a/src/vector/vector3d.rs
+++ b/src/vector/vector3d.rs
@@ -298,9 +298,7 @@ where
     C: Component,
 {
     fn div_assign(&mut self, rhs: C) {
-        self.x = self.x / rhs;
-        self.y = self.y / rhs;
-        self.z = self.z / rhs;
+        *self = *self / rhs;
     }
 }
 
-- 
2.43.0


From aa6aabcc92de3d47dd9862a1c56e72d6e9eb7f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 02/22] fix: powi must terminate for an exponent of i32::MIN

---
 src/float/powi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index b867125..8482056 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -12,7 +12,7 @@ impl F32 {
     /// Approximates a number raised to an integer power.
     pub fn powi(self, n: i32) -> Self {
         let mut base = self;
-        let mut abs_n = i32::abs(n);
+        let mut abs_n = n.unsigned_abs();
         let mut result = 1.0;
 
         if n < 0 {
-- 
2.43.0


From 2fc6f7ca4f2cec607c93008e686b4a0c429a370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 03/22] fix: powi must not overflow when estimating the final
 exponent

The estimate wrapped for large exponents (and panicked with overflow checks),
so that for example 1e-45 to the power 33554432 became infinity.
---
 src/float/powi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index 8482056..b9ad8b3 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -33,7 +33,7 @@ impl F32 {
         if !(0.5..2.0).contains(&self.abs().0) {
             // Approximation if we end up outside of the range of floating point values,
             // then we end early
-            let approx_final_exponent = self.extract_exponent_value() * n;
+            let approx_final_exponent = self.extract_exponent_value().saturating_mul(n);
             let max_representable_exponent = 127;
             let min_representable_exponent = -126 - (MANTISSA_BITS as i32);
             if approx_final_exponent > max_representable_exponent
-- 
2.43.0


From 3f25a3c0e555373491fb4040e720f5b04feeb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 04/22] fix: invsqrt must not panic on overflow for negative
 inputs

The subtraction underflows below about -0.233, which panics in builds with
overflow checks only: asin(-10), for example, panicked there and returned NaN
elsewhere.
---
 src/float/invsqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/invsqrt.rs b/src/float/invsqrt.rs
index d85e9ce..88cfc97 100644
--- a/src/float/invsqrt.rs
+++ b/src/float/invsqrt.rs
@@ -7,7 +7,7 @@ use super::F32;
 impl F32 {
     /// Approximate inverse square root with an average deviation of ~5%.
     pub fn invsqrt(self) -> Self {
-        Self::from_bits(0x5f37_5a86 - (self.to_bits() >> 1))
+        Self::from_bits(0x5f37_5a86_u32.wrapping_sub(self.to_bits() >> 1))
     }
 }
 
-- 
2.43.0


From 11ab0d11bd80870d622f636439288fb941830801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 05/22] fix: exp must overflow to infinity, not to NaN

An exponent of 128 encodes infinities and NaNs, so exp(88.75) was NaN (and
failed a debug assertion in debug builds).
---
 src/float/exp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/exp.rs b/src/float/exp.rs
index ef68faf..fbb1270 100644
--- a/src/float/exp.rs
+++ b/src/float/exp.rs
@@ -46,7 +46,7 @@ impl F32 {
             return Self::ZERO;
         }
 
-        if fract_exponent > ((EXPONENT_BIAS + 1) as i32) {
+        if fract_exponent > EXPONENT_BIAS as i32 {
             return Self::INFINITY;
         }
 
-- 
2.43.0


From 614fbfbb3a543501bfe5627d71e79c242b2bd985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 06/22] fix: invsqrt must return NaN for NaN

---
 src/float/invsqrt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/float/invsqrt.rs b/src/float/invsqrt.rs
index 88cfc97..b900112 100644
--- a/src/float/invsqrt.rs
+++ b/src/float/invsqrt.rs
@@ -6,7 +6,15 @@ use super::F32;
 
 impl F32 {
     /// Approximate inverse square root with an average deviation of ~5%.
+    ///
+    /// Returns [`Self::NAN`] if `self` is NaN.
     pub fn invsqrt(self) -> Self {
+        if self.is_nan() {
+            // The sign of a computed NaN is unspecified and may differ
+            // between builds: don't turn it into the sign of a number.
+            return Self::NAN;
+        }
+
         Self::from_bits(0x5f37_5a86_u32.wrapping_sub(self.to_bits() >> 1))
     }
 }
-- 
2.43.0


From 1813d3000339b57c1e9af9c1711d747f6590dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:27 +0000
Subject: [PATCH 07/22] fix: count the samples of a mean in 64 bits

A mean over 2^31 or more samples overflowed the 32-bit item counter: builds
with overflow checks panicked and others divided by a negative count.
---
 src/statistics/mean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/mean.rs b/src/statistics/mean.rs
index 9f07aca..52bd808 100644
--- a/src/statistics/mean.rs
+++ b/src/statistics/mean.rs
@@ -14,7 +14,7 @@ where
     type Result = f32;
 
     fn mean(self) -> f32 {
-        let mut num_items = 0;
+        let mut num_items = 0u64;
         let mut sum = 0.0;
 
         for item in self {
-- 
2.43.0


From 5c1d666378097bd75abd23bf63e3525b59b6811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 08/22] fix: floor and ceil of numbers beyond the i32 range,
 infinities and NaN

---
 src/float/floor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/float/floor.rs b/src/float/floor.rs
index 31025ee..dc47e07 100644
--- a/src/float/floor.rs
+++ b/src/float/floor.rs
@@ -1,10 +1,15 @@
 //! Floating point floor approximation for a single-precision float.
 
-use super::F32;
+use super::{F32, MANTISSA_BITS};
 
 impl F32 {
     /// Returns the largest integer less than or equal to a number.
     pub fn floor(self) -> Self {
+        // numbers this large have no fractional part (and may not fit an `i32`)
+        if self.extract_exponent_value() >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let mut res = (self.0 as i32) as f32;
 
         if self.0 < res {
-- 
2.43.0


From 8e4bad5219ce28927df4d291971a5296b8564350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:59 +0000
Subject: [PATCH 09/22] fix: trunc and fract of numbers from 2^32 on,
 infinities and NaN

---
 src/float/fract.rs | 6 ++++++
 src/float/trunc.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/float/fract.rs b/src/float/fract.rs
index c99a0b5..16c83e9 100644
--- a/src/float/fract.rs
+++ b/src/float/fract.rs
@@ -14,6 +14,12 @@ impl F32 {
             return self;
         }
 
+        // there is no fraction (and the shift below would wrap around);
+        // infinities and NaN give NaN
+        if exponent >= MANTISSA_BITS as i32 {
+            return (self - self).copysign(self);
+        }
+
         // find the part of the fraction that would be left over
         let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;
 
diff --git a/src/float/trunc.rs b/src/float/trunc.rs
index 0c29a43..a201eed 100644
--- a/src/float/trunc.rs
+++ b/src/float/trunc.rs
@@ -1,6 +1,6 @@
 //! Floating point whole number for a single-precision float.
 
-use super::{F32, MANTISSA_MASK};
+use super::{F32, MANTISSA_BITS, MANTISSA_MASK};
 
 impl F32 {
     /// Returns the integer part of a number.
@@ -13,6 +13,11 @@ impl F32 {
             return F32::ZERO.copysign(self);
         }
 
+        // there is no fraction (and the shift below would wrap around)
+        if exponent >= MANTISSA_BITS as i32 {
+            return self;
+        }
+
         let exponent_clamped = i32::max(exponent, 0) as u32;
 
         // find the part of the fraction that would be left over
-- 
2.43.0


From f189182664c9af8161bb00556dbf35a26252519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 10/22] fix: round just below a half, beyond 2^23, and of
 infinities and NaN

---
 src/float/round.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/float/round.rs b/src/float/round.rs
index 2db3f9b..4756ec0 100644
--- a/src/float/round.rs
+++ b/src/float/round.rs
@@ -5,7 +5,13 @@ use super::F32;
 impl F32 {
     /// Returns the nearest integer to a number.
     pub fn round(self) -> Self {
-        Self(((self.0 + Self(0.5).copysign(self).0) as i32) as f32)
+        // adding 0.5 to the number itself could round up, and the sum may not
+        // fit an `i32`; the fraction is exact
+        if self.fract().abs() >= 0.5 {
+            self.trunc() + Self::ONE.copysign(self)
+        } else {
+            self.trunc()
+        }
     }
 }
 
-- 
2.43.0


From e0c212b09b25db24998c65c9bebb5a6c32a1cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 11/22] fix: cos, sin and tan of large numbers stay in range

---
 src/float/cos.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/float/cos.rs b/src/float/cos.rs
index 7925883..d625915 100644
--- a/src/float/cos.rs
+++ b/src/float/cos.rs
@@ -226,6 +226,8 @@ impl F32 {
     pub fn cos(self) -> Self {
         let mut x = self;
         x *= FRAC_1_PI / 2.0;
+        // whole turns go first: for large numbers the steps below would round
+        x = x.fract();
         x -= 0.25 + (x + 0.25).floor().0;
         x *= 16.0 * (x.abs() - 0.5);
         x += 0.225 * x * (x.abs() - 1.0);
-- 
2.43.0


From 96ba889ee3f30229662eb4acde3d12306d921135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:48 +0000
Subject: [PATCH 12/22] fix: exp of NaN is NaN, not infinity

---
 src/float/exp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/float/exp.rs b/src/float/exp.rs
index fbb1270..01ae841 100644
--- a/src/float/exp.rs
+++ b/src/float/exp.rs
@@ -14,6 +14,10 @@ impl F32 {
 
     /// Exp approximation for `f32`.
     pub(crate) fn exp_ln2_approx(self, partial_iter: u32) -> Self {
+        if self.is_nan() {
+            return self;
+        }
+
         if self == Self::ZERO {
             return Self::ONE;
         }
-- 
2.43.0


From 1b74bfb83939df88f1cd806447a95df4559578e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:49 +0000
Subject: [PATCH 13/22] fix: ln below one must not use the coarse inverse, and
 ln of negative numbers is NaN

---
 src/float/ln.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/float/ln.rs b/src/float/ln.rs
index f3990e3..b85c174 100644
--- a/src/float/ln.rs
+++ b/src/float/ln.rs
@@ -14,6 +14,10 @@ impl F32 {
     // ln(1.0->2.0) polynomial
     #[allow(clippy::excessive_precision)]
     pub fn ln(self) -> Self {
+        if self < Self::ZERO {
+            return Self::NAN;
+        }
+
         // x may essentially be 1.0 but, as clippy notes, these kinds of
         // floating point comparisons can fail when the bit pattern is not the sames
         if (self - Self::ONE).abs() < f32::EPSILON {
@@ -24,7 +28,12 @@ impl F32 {
 
         // Note: we could use the fast inverse approximation here found in super::inv::inv_approx, but
         // the precision of such an approximation is assumed not good enough.
-        let x_working = if x_less_than_1 { self.inv() } else { self };
+        let x_working = if x_less_than_1 {
+            // the reciprocal of zero and of the smallest numbers is not finite
+            Self((1.0 / self.0).min(f32::MAX))
+        } else {
+            self
+        };
 
         // according to the SO post ln(x) = ln((2^n)*y)= ln(2^n) + ln(y) = ln(2) * n + ln(y)
         // get exponent value
-- 
2.43.0


From d4baa18e1a97d9c33c45fb80f315ca1775bc5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:50 +0000
Subject: [PATCH 14/22] fix: powf must tell integers from fractions for small
 and large exponents

---
 src/float.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index 2da35fc..6ad1a34 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -211,11 +211,18 @@ impl F32 {
         let exponent = self.extract_exponent_value();
         let self_bits = self.to_bits();
 
-        // if exponent is negative we shouldn't remove anything, this stops an opposite shift.
-        let exponent_clamped = i32::max(exponent, 0) as u32;
+        // below one, only zero is an integer; this also stops an opposite shift.
+        if exponent < 0 {
+            return *self == Self::ZERO;
+        }
+
+        // there is no fraction left; this also stops a shift that is too large.
+        if exponent >= MANTISSA_BITS as i32 {
+            return true;
+        }
 
         // find the part of the fraction that would be left over
-        let fractional_part = (self_bits).overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;
+        let fractional_part = (self_bits).overflowing_shl(exponent as u32).0 & MANTISSA_MASK;
 
         // if fractional part contains anything, we know it *isn't* an integer.
         // if zero there will be nothing in the fractional part
-- 
2.43.0


From 3e336bc9b62f040b6704096ed64f9644c135f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 15/22] fix: inv of negative numbers

---
 src/float/inv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/float/inv.rs b/src/float/inv.rs
index 1751be0..2ae079b 100644
--- a/src/float/inv.rs
+++ b/src/float/inv.rs
@@ -14,8 +14,8 @@ impl F32 {
         // The constant 0x7f00_0000 corresponds to the bit pattern for 1.0 in IEEE 754 format.
         // Subtracting the bits of the original number from this constant effectively inverts the exponent,
         // resulting in an approximation of the reciprocal.
-        match 0x7f00_0000_u32.checked_sub(self.0.to_bits()) {
-            Some(result) => Self(f32::from_bits(result)),
+        match 0x7f00_0000_u32.checked_sub(self.without_sign().to_bits()) {
+            Some(result) => Self(f32::from_bits(result)).copysign(self),
             // Check if the value is too large for the approximation, NaN (e.g. 0x7fC0_0000) or infinity.
             None => {
                 if self.0.is_infinite() {
@@ -29,7 +29,7 @@ impl F32 {
                     Self(f32::NAN)
                 } else {
                     // Values larger than the threshold result in zero for 1/x
-                    Self(0.0)
+                    Self(0.0).copysign(self)
                 }
             }
         }
-- 
2.43.0


From f37bfaf9660eff338c84101a524f6001153bf1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:10 +0000
Subject: [PATCH 16/22] fix: powi must not saturate while the result is
 representable, nor lose NaN

---
 src/float/powi.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/float/powi.rs b/src/float/powi.rs
index b9ad8b3..0b45e35 100644
--- a/src/float/powi.rs
+++ b/src/float/powi.rs
@@ -23,6 +23,10 @@ impl F32 {
             return Self::ONE;
         }
 
+        if self.is_nan() {
+            return self;
+        }
+
         // 0.0 == 0.0 and -0.0 according to IEEE standards.
         if self == Self::ZERO && n > 0 {
             return self;
@@ -33,18 +37,22 @@ impl F32 {
         if !(0.5..2.0).contains(&self.abs().0) {
             // Approximation if we end up outside of the range of floating point values,
             // then we end early
-            let approx_final_exponent = self.extract_exponent_value().saturating_mul(n);
+            // A number lies between 2^exponent and 2^(exponent + 1), and so do its powers.
+            let exponent = self.extract_exponent_value();
+            let (least_final_exponent, most_final_exponent) = if n > 0 {
+                (exponent.saturating_mul(n), (exponent + 1).saturating_mul(n))
+            } else {
+                ((exponent + 1).saturating_mul(n), exponent.saturating_mul(n))
+            };
             let max_representable_exponent = 127;
             let min_representable_exponent = -126 - (MANTISSA_BITS as i32);
-            if approx_final_exponent > max_representable_exponent
-                || (self == Self::ZERO && approx_final_exponent < 0)
-            {
+            if least_final_exponent > max_representable_exponent || self == Self::ZERO {
                 if self.is_sign_positive() || n & 1 == 0 {
                     return Self::INFINITY;
                 } else {
                     return Self::NEG_INFINITY;
                 }
-            } else if approx_final_exponent < min_representable_exponent {
+            } else if most_final_exponent < min_representable_exponent {
                 // We may want to copy the sign and do the same thing as above,
                 // but that seems like an awful amount of work when 99.99999% of people only care
                 // about bare zero
-- 
2.43.0


From 978b1a07148d29c9d2168fe291963a25ddd5c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:11 +0000
Subject: [PATCH 17/22] fix: sqrt of negative zero

---
 src/float/sqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/sqrt.rs b/src/float/sqrt.rs
index 73c109b..f22a4da 100644
--- a/src/float/sqrt.rs
+++ b/src/float/sqrt.rs
@@ -10,7 +10,7 @@ impl F32 {
     /// Returns [`Self::NAN`] if `self` is a negative number.
     pub fn sqrt(self) -> Self {
         if self >= Self::ZERO {
-            Self::from_bits((self.to_bits() + 0x3f80_0000) >> 1)
+            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)
         } else {
             Self::NAN
         }
-- 
2.43.0


From ae9e57c27e0c3ab84467e91ceea91502a80dfacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 18/22] fix: ln of negative zero is that of zero

---
 src/float/ln.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/float/ln.rs b/src/float/ln.rs
index b85c174..d71056a 100644
--- a/src/float/ln.rs
+++ b/src/float/ln.rs
@@ -30,7 +30,7 @@ impl F32 {
         // the precision of such an approximation is assumed not good enough.
         let x_working = if x_less_than_1 {
             // the reciprocal of zero and of the smallest numbers is not finite
-            Self((1.0 / self.0).min(f32::MAX))
+            Self((1.0 / self.abs().0).min(f32::MAX))
         } else {
             self
         };
-- 
2.43.0


From 16fe59c785a1740882dcde77517dbfbc922839ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:07 +0000
Subject: [PATCH 19/22] fix: atan of numbers whose square is not finite

---
 src/float/atan.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/float/atan.rs b/src/float/atan.rs
index a54e2a7..c24d366 100644
--- a/src/float/atan.rs
+++ b/src/float/atan.rs
@@ -21,12 +21,21 @@ impl F32 {
         const SIGN_MASK: u32 = 0x8000_0000;
         const B: f32 = 0.596_227;
 
+        // The square of a larger number is not finite, and its arctangent is no longer
+        // distinguishable from a right angle.
+        const LIMIT: f32 = 4_294_967_296.0;
+
         // Extract the sign bit
         let ux_s = SIGN_MASK & self.to_bits();
 
         // Calculate the arctangent in the first quadrant
-        let bx_a = (B * self).abs();
-        let n = bx_a + self * self;
+        let x = if self.abs() > LIMIT {
+            Self(LIMIT)
+        } else {
+            self
+        };
+        let bx_a = (B * x).abs();
+        let n = bx_a + x * x;
         let atan_1q = n / (1.0 + bx_a + n);
 
         // Restore the sign bit and convert to float
-- 
2.43.0


From 10f16f44e3a457cfc5188624f17198b60065904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 20/22] fix: atan2 of the origin, and of very short and very
 long sides

---
 src/float/atan2.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/float/atan2.rs b/src/float/atan2.rs
index f071be9..1960cf8 100644
--- a/src/float/atan2.rs
+++ b/src/float/atan2.rs
@@ -24,8 +24,18 @@ impl F32 {
         const SIGN_MASK: u32 = 0x8000_0000;
         const B: f32 = 0.596_227;
 
-        let y = self;
-        let x = rhs;
+        let mut y = self;
+        let mut x = rhs;
+
+        // The squares below neither overflow nor vanish for sides of moderate size.
+        let longest = y.abs().0.max(x.abs().0);
+        if longest == 0.0 && !x.is_nan() && !y.is_nan() {
+            return Self::ZERO;
+        }
+        if !(1e-15..=1e15).contains(&longest) && longest.is_finite() {
+            y = y / longest;
+            x = x / longest;
+        }
 
         // Extract sign bits from floating point values
         let ux_s = SIGN_MASK & x.to_bits();
-- 
2.43.0


From 0f3024aa79f64388e37e18c668efba057b6efe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:40 +0000
Subject: [PATCH 21/22] fix: from_two_vectors of opposite vectors is half a
 turn

---
 src/quaternion.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 668a5c3..a7767be 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -67,7 +67,15 @@ impl Quaternion {
         C: Component + Into<f32>,
     {
         // Implementation from http://lolengine.net/blog/2014/02/24/quaternion-from-two-vectors-final
-        let n_uv = F32(u.dot(u).into() * v.dot(v).into()).sqrt();
+        let square = F32(u.dot(u).into() * v.dot(v).into());
+        let mut n_uv = square.sqrt();
+        if square.0.is_normal() {
+            // The approximation does not cancel against the dot product of opposite vectors:
+            // three of Newton's steps make it precise.
+            for _ in 0..3 {
+                n_uv = (n_uv + square / n_uv) * 0.5;
+            }
+        }
         let mut realpart = n_uv + u.dot(v).into();
 
         let w = if realpart < 1e-6 * n_uv {
-- 
2.43.0


From a94df356e36d5a7bfa04493b11ad504ceb5cedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:41 +0000
Subject: [PATCH 22/22] fix: to_euler of a pitch by a right angle

---
 src/quaternion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index a7767be..162ce38 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -210,7 +210,8 @@ impl Quaternion {
     pub fn to_euler(&self) -> (f32, f32, f32) {
         let r = F32(2. * (self.0 * self.1 + self.2 * self.3))
             .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));
-        let p = F32(2. * (self.0 * self.2 - self.1 * self.3)).asin();
+        // rounding can push the sine of a right angle beyond one
+        let p = F32((2. * (self.0 * self.2 - self.1 * self.3)).clamp(-1., 1.)).asin();
         let y = F32(2. * (self.0 * self.3 + self.1 * self.2))
             .atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));
 
-- 
2.43.0

