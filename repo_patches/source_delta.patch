From 512d19d9fd0e7821f26f5112abf548d9a8ca1ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 01/12] fix: overflow in rmul when doubling the remainder
 (i128, 38 digits, Nearest)

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5351f2c..6bebb5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,8 +289,12 @@ macro_rules! impl_fixed_point {
                 let sign = self.inner.signum() * rhs.inner.signum();
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    sign as i32 >= 0 && loss + loss >= Self::COEF
-                                     || loss + loss <= Self::NEG_COEF
+                    // `loss + loss` can overflow the layout.
+                    if sign >= 0 {
+                        loss >= Self::COEF - loss
+                    } else {
+                        loss <= Self::NEG_COEF - loss
+                    }
                 } else {
                     loss != 0 && mode as i32 == sign as i32
                 };
-- 
2.43.0


From 603e5f9169fad7d126c8c8bdb8ac8ceffc6fdaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 02/12] fix: overflow in rdiv with Nearest and a divisor beyond
 half of the range

---
 src/lib.rs     | 5 +++--
 src/ops/mod.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6bebb5b..636bfac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -336,8 +336,9 @@ macro_rules! impl_fixed_point {
                     let sign = self.inner.signum() * rhs.inner.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.inner.abs()
+                        // `loss_abs + loss_abs` and `rhs.abs()` can overflow the layout.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.inner.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 81f41c3..23c162c 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -459,8 +459,9 @@ macro_rules! impl_for_ints {
                     let sign = self.signum() * rhs.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.abs()
+                        // `loss_abs + loss_abs` and `rhs.abs()` can overflow the layout.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 050731d0514762cea0b593079ef852f5c8fc0222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 03/12] fix: integer rdiv of MIN by -1 panics instead of
 returning Overflow

---
 src/ops/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 23c162c..1a61fb1 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -452,7 +452,7 @@ macro_rules! impl_for_ints {
                     return Err(ArithmeticError::DivisionByZero);
                 }
 
-                let mut result = self / rhs;
+                let mut result = self.checked_div(rhs).ok_or(ArithmeticError::Overflow)?;
                 let loss = self - result * rhs;
 
                 if loss != 0 {
-- 
2.43.0


From 58bdcc2aa2c233d1ed17607d7cd45d3a4b386c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 04/12] fix: overflow in integral for MIN and for i128 with 38
 digits

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 636bfac..87b8650 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -505,10 +505,10 @@ macro_rules! impl_fixed_point {
             #[inline]
             pub fn integral(self, mode: RoundMode) -> $layout {
                 let sign = self.inner.signum();
-                let (mut int, frac) = (self.inner / Self::COEF, self.inner.abs() % Self::COEF);
+                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    frac + frac >= Self::COEF
+                    frac >= Self::COEF - frac
                 } else {
                     mode as i32 == sign as i32 && frac > 0
                 };
-- 
2.43.0


From bafb8f91fa53f039753ccfe39e9cd50fcfb80754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 05/12] fix: from_decimal panics when the scale does not fit in
 the layout

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 87b8650..73b9ae5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -676,7 +676,9 @@ macro_rules! impl_fixed_point {
                 }
 
                 let ten: $layout = 10;
-                let multiplier = ten.pow((exponent + Self::PRECISION) as u32);
+                let multiplier = ten
+                    .checked_pow((exponent + Self::PRECISION) as u32)
+                    .ok_or(ConvertError::new("unsupported exponent"))?;
 
                 mantissa
                     .checked_mul(multiplier)
-- 
2.43.0


From 91608a53c4616b120efb3d980d67b9e91d61c3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 06/12] fix: formatting panics for MIN without fractional
 digits and for i128 with 38 digits

---
 src/string.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6e59efc..d6d038e 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -108,14 +108,15 @@ macro_rules! impl_for {
                     let _ = buf.push('-');
                 }
 
-                let integral = (self.inner / Self::COEF).abs();
-                let fractional = (self.inner % Self::COEF).abs();
+                // `MIN.abs()` and `fractional + COEF` can overflow the layout.
+                let integral = (self.inner / Self::COEF).unsigned_abs();
+                let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
                 let _ = buf.push('.');
 
                 if fractional > 0 {
-                    let fractional_with_leading_one = fractional + Self::COEF;
+                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                     let s = &fmt.format(fractional_with_leading_one)[1..];
                     let _ = buf.push_str(s.trim_end_matches('0'));
                 } else {
-- 
2.43.0


From 179417b3024d817e7c680401c31a4d62d48414a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 07/12] fix: formatting buffer is too short for numbers without
 fractional digits

---
 src/string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index d6d038e..3f5017e 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -128,9 +128,9 @@ macro_rules! impl_for {
 }
 
 // Serialize as a string in case of human readable formats.
-// The maximum length can be calculated as `len(str(-2**bits)) + 1`,
-// where `1` is reserved for `.` after integral part.
-const MAX_LEN: usize = if cfg!(feature = "i128") { 41 } else { 21 };
+// The maximum length can be calculated as `len(str(-2**bits)) + 2`,
+// where `2` is reserved for `.0` after integral part (if there are no fractional digits).
+const MAX_LEN: usize = if cfg!(feature = "i128") { 42 } else { 22 };
 
 // TODO: try `staticvec` after stabilization.
 // Now it works faster than `arrayvec`.
-- 
2.43.0


From 061da3f24160b33364458c995d42ffb4182e6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:56 +0000
Subject: [PATCH 08/12] fix: parsing numbers with fractional digits without
 precision

---
 src/string.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 3f5017e..dac6de6 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -46,6 +46,10 @@ macro_rules! impl_for {
                     .parse()
                     .map_err(|_| ConvertError::new("can't parse integral part"))?;
 
+                if fractional_str.is_empty() {
+                    return Err(ConvertError::new("can't parse fractional part"));
+                }
+
                 if !fractional_str.chars().all(|c| c.is_digit(10)) {
                     return Err(ConvertError::new(
                         "can't parse fractional part: must contain digits only",
@@ -78,9 +82,14 @@ macro_rules! impl_for {
 
                 debug_assert!(exp <= Self::COEF);
 
-                let fractional: $layout = fractional_str
-                    .parse()
-                    .map_err(|_| ConvertError::new("can't parse fractional part"))?;
+                // All fractional digits have been cut off if there is no room for them.
+                let fractional: $layout = if fractional_str.is_empty() {
+                    0
+                } else {
+                    fractional_str
+                        .parse()
+                        .map_err(|_| ConvertError::new("can't parse fractional part"))?
+                };
 
                 let final_integral = integral
                     .checked_mul(Self::COEF)
-- 
2.43.0


From 642ceea23fc10a62c9c3328f8fd4b367c2d42de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:48 +0000
Subject: [PATCH 09/12] fix: serde::str rejects strings which are not borrowed
 from the input

---
 src/serde.rs | 56 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index a233906..63f5a44 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -228,13 +228,44 @@ pub mod str {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = <&str>::deserialize(deserializer)?;
-        s.parse().map(F::from).map_err(|_| {
-            D::Error::invalid_value(
-                de::Unexpected::Str(s),
-                &"string containing a fixed-point number",
-            )
-        })
+        deserializer.deserialize_str(StrVisitor(PhantomData)).map(F::from)
+    }
+
+    // Not every deserializer is able to lend a string, so `<&str>::deserialize` isn't enough.
+    struct StrVisitor<I, P>(PhantomData<(I, P)>);
+
+    impl<'de, I, P> de::Visitor<'de> for StrVisitor<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        type Value = FixedPoint<I, P>;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+            formatter.write_str("string containing a fixed-point number")
+        }
+
+        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+            s.parse()
+                .map_err(|_| E::invalid_value(de::Unexpected::Str(s), &self))
+        }
+
+        fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Self::Value, E> {
+            match core::str::from_utf8(b) {
+                Ok(s) => self.visit_str(s),
+                Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(b), &self)),
+            }
+        }
+    }
+
+    pub(super) struct Str<I, P>(pub(super) FixedPoint<I, P>);
+
+    impl<'de, I, P> Deserialize<'de> for Str<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+            deserialize(deserializer).map(Self)
+        }
     }
 }
 
@@ -265,16 +296,7 @@ pub mod str_option {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = Option::<&str>::deserialize(deserializer)?;
-        s.map(|s| {
-            s.parse().map(F::from).map_err(|_| {
-                D::Error::invalid_value(
-                    de::Unexpected::Str(s),
-                    &"string containing a fixed-point number",
-                )
-            })
-        })
-        .transpose()
+        Option::<str::Str<I, P>>::deserialize(deserializer).map(|s| s.map(|s| F::from(s.0)))
     }
 }
 
-- 
2.43.0


From e997b1a6c5e5dbc1fb1dd26876efd5e2574c84dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 10/12] fix: literals out of the layout's range must not be
 truncated

---
 src/macros.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 34ab741..823b963 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -181,7 +181,9 @@ macro_rules! fixnum_const {
         use $crate::FixedPoint;
         use $crate::_priv::*;
         const VALUE_INNER: Int = parse_fixed(stringify!($value), pow10($precision));
-        FixedPoint::from_bits(VALUE_INNER as _)
+        let bits = VALUE_INNER as _;
+        assert!(bits as Int == VALUE_INNER, "the literal is out of range");
+        FixedPoint::from_bits(bits)
     }};
 }
 
-- 
2.43.0


From 786d21a732b7595211b7162a7251671d4238c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:29 +0000
Subject: [PATCH 11/12] fix: a precision too big for the layout must not
 truncate the coefficient

FixedPoint<i16, U5>::ONE was -31072 units and rmul, rdiv, parsing and
formatting used the same truncated coefficient.
---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 73b9ae5..02145bd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -245,7 +245,14 @@ macro_rules! impl_fixed_point {
             /// The difference between `0.0` and the next larger representable number.
             pub const EPSILON: Self = Self::from_bits(1);
 
-            const COEF: $layout = const_fn::pow10(Self::PRECISION) as _;
+            const COEF: $layout = {
+                let coef = const_fn::pow10(Self::PRECISION);
+                assert!(
+                    coef <= $layout::MAX as const_fn::Int,
+                    "the precision is too big for the layout"
+                );
+                coef as _
+            };
             const NEG_COEF: $layout = -Self::COEF;
             const COEF_PROMOTED: $promotion = $convert(Self::COEF) as _;
         }
-- 
2.43.0


From 35297c37e34c52a48ddadb5ed71d5720defbd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 12/12] fix: conversion of the minimum from f64

TryFrom<f64> converted the absolute value first, and so rejected a float
that is exactly the minimum: FixedPoint::<i16, U2>::try_from(-327.68).
---
 src/float.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index e833677..1e450fd 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -168,17 +168,17 @@ macro_rules! impl_try_from_f64 {
                     bits = rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32);
                 }
 
-                let bits: $layout = bits
-                    .try_into()
-                    .map_err(|_| ConvertError::new("too big number"))?;
-
-                if positive {
-                    Ok(Self::from_bits(bits))
+                // The minimum doesn't have a positive counterpart, so the sign is applied first.
+                let bits = if positive {
+                    $layout::try_from(bits).ok()
+                } else if bits <= $layout::MIN.unsigned_abs() as u128 {
+                    Some((bits as $layout).wrapping_neg())
                 } else {
-                    bits.checked_neg()
-                        .map(Self::from_bits)
-                        .ok_or_else(|| ConvertError::new("too big number"))
-                }
+                    None
+                };
+
+                bits.map(Self::from_bits)
+                    .ok_or_else(|| ConvertError::new("too big number"))
             }
         }
     };
-- 
2.43.0

