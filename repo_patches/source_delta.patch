From 97158dfd10fc95c2e94b8fa3764e6b726996fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 01/24] fix: dawson must add each term of Rybicki's sum before
 advancing to the next

---
 src/dawson.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dawson.rs b/src/dawson.rs
index 0aa913c..80a5d14 100644
--- a/src/dawson.rs
+++ b/src/dawson.rs
@@ -40,11 +40,11 @@ pub fn dawson(x: f64) -> f64 {
 
         for i in 0..NMAX {
             let cval = f64::exp(-((2. * i as f64 + 1.) * h).powi(2));
+            sum += cval * (e1 / d1 + 1.0 / (d2 * e1));
+
             d1 += 2.;
             d2 -= 2.;
             e1 *= e2;
-
-            sum += cval * (e1 / d1 + 1.0 / (d2 * e1));
         }
 
         ans = (1. / PI.sqrt()) * sign(f64::exp(-xp * xp), x) * sum;
-- 
2.43.0


From d5f3445e9ca31cbeced6d30dd73b754691dad5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 02/24] fix: dawson overflowed its sampling index for huge
 arguments

---
 src/dawson.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dawson.rs b/src/dawson.rs
index 80a5d14..9857830 100644
--- a/src/dawson.rs
+++ b/src/dawson.rs
@@ -28,6 +28,10 @@ pub fn dawson(x: f64) -> f64 {
     if x.abs() < 0.2 {
         x2 = x * x;
         ans = x * (1.0 - a1 * x2 * (1.0 - a2 * x2 * (1.0 - a3 * x2)));
+    } else if x.abs() > 1e8 {
+        // The leading term of the asymptotic series is exact to double precision here,
+        // while the sampling point below loses its digits (and its index overflows).
+        ans = 0.5 / x;
     } else {
         xx = x.abs();
         n0 = 2 * (0.5 * xx / h + 0.5) as u64; // Simply truncates the decimal places, as in NR.
-- 
2.43.0


From 7f7a0109f3990799302aa025e42dbf0429eaa43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 03/24] fix: I_1 must use exp(|x|) for large negative arguments

---
 src/bessel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 4d91682..2bb3e0d 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -1007,7 +1007,7 @@ fn i1(x: f64) -> f64 {
         x * poly(y, &I1P, 13) / poly(225f64 - y, &I1Q, 4)
     } else {
         let z = 1f64 - 15f64 / ax;
-        let ans = x.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
+        let ans = ax.exp() * poly(z, &I1PP, 4) / (ax.sqrt() * poly(z, &I1QQ, 5));
         if x < 0f64 {
             -ans
         } else {
-- 
2.43.0


From b3de58c5d946b69f1c25ba5e6e57d2699b725ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:32 +0000
Subject: [PATCH 04/24] fix: gammp/gammq returned NaN for a >= 100 and x below
 the mode

---
 src/gamma.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 62a4dc9..f900b19 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -399,7 +399,7 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
 
     // Compute final answer with overflow/underflow protection
     let log_scale = a1 * (lna1 - 1f64) - gln;
-    let log_ans = log_max + sum.ln() + (xu - x).ln() + log_scale;
+    let log_ans = log_max + sum.ln() + (xu - x).abs().ln() + log_scale;
 
     let ans = if log_ans > 700.0 {
         f64::INFINITY
@@ -409,14 +409,15 @@ fn gammpapprox(a: f64, x: f64, psig: IncGamma) -> f64 {
         log_ans.exp()
     };
 
-    // Clamp results to [0, 1] and handle the P vs Q case
-    match psig {
-        IncGamma::P => {
-            let result = 1f64 - ans;
-            result.clamp(0.0, 1.0)
-        }
-        IncGamma::Q => ans.clamp(0.0, 1.0),
-    }
+    // The quadrature covers the upper tail Q when integrating up from x, and the lower tail P
+    // when integrating down from x. Take the complement if the other one is wanted.
+    let is_upper_tail = xu > x;
+    let result = match (psig, is_upper_tail) {
+        (IncGamma::P, true) | (IncGamma::Q, false) => 1f64 - ans,
+        (IncGamma::P, false) | (IncGamma::Q, true) => ans,
+    };
+    // Clamp results to [0, 1]
+    result.clamp(0.0, 1.0)
 }
 
 /// Calculates the inverse of the regularized lower incomplete gamma function.
-- 
2.43.0


From 9dea0192aaa220596155e09009b77289e3aecd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:07 +0000
Subject: [PATCH 05/24] fix: betai for large a and b weighted its log-mean
 wrongly and misplaced underflowed tails

---
 src/beta.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/beta.rs b/src/beta.rs
index aec936a..4ed185f 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -144,12 +144,13 @@ fn betaiapprox(a: f64, b: f64, x: f64) -> f64 {
     let mut sum = 0f64;
     for j in 0..18 {
         t = x + (xu - x) * Y[j];
-        sum += W[j] * (a1 * (t.ln() - lnmu) + b1 * (1f64 - t).ln() - lnmuc).exp();
+        sum += W[j] * (a1 * (t.ln() - lnmu) + b1 * ((1f64 - t).ln() - lnmuc)).exp();
     }
     let ans = sum
         * (xu - x)
         * (a1 * lnmu - ln_gamma(a) + b1 * lnmuc - ln_gamma(b) + ln_gamma(a + b)).exp();
-    if ans > 0f64 {
+    // The tail integral may underflow to zero, so its sign does not tell which tail it is.
+    if xu > x {
         1f64 - ans
     } else {
         -ans
-- 
2.43.0


From 3fc5d5fb168d73d0c5ee248f8697fa2172ffacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 06/24] fix: frexp and ldexp mishandled subnormal, infinite,
 NaN and underflowing values

---
 src/utils.rs | 54 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index b8b90c7..86d32ba 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,6 +40,17 @@ pub fn frexp(x: f64) -> (f64, i32) {
         return (0.0, 0);
     }
 
+    // Infinities and NaN have no binary exponent
+    if !x.is_finite() {
+        return (x, 0);
+    }
+
+    // Subnormal numbers have no implicit leading bit: scale them (exactly) into the normal range
+    if x.abs() < f64::MIN_POSITIVE {
+        let (mantissa, exponent) = frexp(x * (1u64 << 54) as f64);
+        return (mantissa, exponent - 54);
+    }
+
     // Convert the input to its IEEE 754 binary representation
     let bits = x.to_bits();
 
@@ -64,34 +75,35 @@ pub fn frexp(x: f64) -> (f64, i32) {
 
 /// Pure Rust implementation of ldexp
 pub fn ldexp(x: f64, exp: i32) -> f64 {
-    // If the input is zero or the exponent is zero, return the input unchanged
-    if x == 0.0 || exp == 0 {
+    // If the input is zero or not finite, or the exponent is zero, return the input unchanged
+    if x == 0.0 || exp == 0 || !x.is_finite() {
         return x;
     }
 
-    // Convert the input to its IEEE 754 binary representation
-    let bits = x.to_bits();
+    // Normalize the input, so that the result is mantissa * 2^new_exponent
+    let (mantissa, exponent) = frexp(x);
+    let new_exponent = exponent.saturating_add(exp);
 
-    // Extract the exponent from the binary representation
-    // Bits 52 to 62 represent the exponent in IEEE 754 format
-    let exponent = ((bits >> 52) & 0x7ff) as i32;
-
-    // Calculate the new exponent by adding the input exponent to the existing exponent
-    let new_exponent = exponent + exp;
-
-    // Check if the new exponent is within the valid range for IEEE 754 format
-    if !(0..=0x7ff).contains(&new_exponent) {
-        // If the exponent is out of range, return infinity or zero depending on the input sign
-        return if (bits >> 63) != 0 {
-            f64::NEG_INFINITY
-        } else {
-            f64::INFINITY
-        };
+    // The result is too large to represent
+    if new_exponent > f64::MAX_EXP {
+        return f64::INFINITY.copysign(x);
+    }
+
+    // The result rounds to zero
+    if new_exponent < -1074 {
+        return 0f64.copysign(x);
     }
 
     // Combine the new exponent with the mantissa and sign bits to create the result
-    let result_bits = (bits & 0x800fffffffffffff) | ((new_exponent as u64) << 52);
-    f64::from_bits(result_bits)
+    let with_exponent = |e: i32| {
+        f64::from_bits((mantissa.to_bits() & 0x800fffffffffffff) | (((e + 1022) as u64) << 52))
+    };
+    if new_exponent >= f64::MIN_EXP {
+        with_exponent(new_exponent)
+    } else {
+        // The result is subnormal: let a single multiplication round it
+        with_exponent(f64::MIN_EXP) * 2f64.powi(new_exponent - f64::MIN_EXP)
+    }
 }
 
 /// The sign function is a helper that returns
-- 
2.43.0


From 9a2578021ca73a36a17dc818dab44d153a672931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 07/24] fix: Jn and In overflowed their downward recurrence for
 tiny arguments

---
 src/bessel.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 2bb3e0d..f7ee0e2 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -29,7 +29,8 @@ use std::collections::HashMap;
 pub fn Jn(n: u32, x: f64) -> f64 {
     let n_f64 = n as f64;
     let acc = 160f64;
-    let iexp = f64::MAX_EXP / 2;
+    // Leaves room for a recurrence step with the smallest accepted arguments.
+    let iexp = f64::MAX_EXP / 4;
 
     if n == 0 {
         j0(x)
@@ -63,10 +64,10 @@ pub fn Jn(n: u32, x: f64) -> f64 {
                 bj = bjm;
                 let (_, k) = frexp(bj);
                 if k > iexp {
-                    bj = ldexp(bj, -iexp);
-                    bjp = ldexp(bjp, -iexp);
-                    ans = ldexp(ans, -iexp);
-                    sum = ldexp(sum, -iexp);
+                    bj = ldexp(bj, -k);
+                    bjp = ldexp(bjp, -k);
+                    ans = ldexp(ans, -k);
+                    sum = ldexp(sum, -k);
                 }
                 if jsum {
                     sum += bj;
@@ -141,7 +142,8 @@ pub fn Yn(n: u32, x: f64) -> f64 {
 #[allow(non_snake_case)]
 pub fn In(n: u32, x: f64) -> f64 {
     let acc = 200f64;
-    let iexp = f64::MAX_EXP / 2;
+    // Leaves room for a recurrence step with the smallest accepted arguments.
+    let iexp = f64::MAX_EXP / 4;
     let n_f64 = n as f64;
     if n == 0 {
         i0(x)
@@ -160,9 +162,9 @@ pub fn In(n: u32, x: f64) -> f64 {
             bi = bim;
             let (_, k) = frexp(bi);
             if k > iexp {
-                bi = ldexp(bi, -iexp);
-                bip = ldexp(bip, -iexp);
-                ans = ldexp(ans, -iexp);
+                bi = ldexp(bi, -k);
+                bip = ldexp(bip, -k);
+                ans = ldexp(ans, -k);
             }
             if j == n {
                 ans = bip;
-- 
2.43.0


From c572f6505392b34bef3abe682e3e91faad0b7863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:49 +0000
Subject: [PATCH 08/24] fix: In started its downward recurrence too low for x
 much larger than n

---
 src/bessel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index f7ee0e2..9188171 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -156,7 +156,9 @@ pub fn In(n: u32, x: f64) -> f64 {
         let mut bip = 0f64;
         let mut ans = 0f64;
         let mut bi = 1f64;
-        for j in (1..2 * (n + (acc * n_f64).sqrt() as u32)).rev() {
+        // The starting order must also grow with x (up to where the result overflows anyway).
+        let spread = (acc * n_f64.max(x.abs().min(1e4))).sqrt() as u32;
+        for j in (1..2 * (n + spread)).rev() {
             let bim = j as f64 * tox * bi + bip;
             bip = bi;
             bi = bim;
-- 
2.43.0


From 1d4dd16b4a0b8f40c5dc3b596753abf61379a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 09/24] fix: Yn returned NaN once its recurrence had overflowed

---
 src/bessel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bessel.rs b/src/bessel.rs
index 9188171..49eb32f 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -118,6 +118,10 @@ pub fn Yn(n: u32, x: f64) -> f64 {
             let byp = j as f64 * tox * by - bym;
             bym = by;
             by = byp;
+            if by.is_infinite() {
+                // All higher orders are infinite as well; continuing would compute inf - inf.
+                break;
+            }
         }
         by
     }
-- 
2.43.0


From c6259a2c057948cb9835096ee6ebfef16cd53f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 10/24] fix: ln_gamma lost all digits of tiny arguments

---
 src/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index f900b19..2c8f7ad 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -31,14 +31,14 @@ const N: usize = 7;
 ///
 /// The natural logarithm of the gamma function at `z`
 pub fn ln_gamma(z: f64) -> f64 {
-    let z = z - 1f64;
-    let base = z + G + 0.5;
+    let base = z + (G - 0.5);
     let mut s = 0f64;
     for (i, &coeff) in LG5N7.iter().enumerate().skip(1) {
-        s += coeff / (z + i as f64);
+        // z + (i - 1) instead of (z - 1) + i keeps all digits of a small z
+        s += coeff / (z + (i - 1) as f64);
     }
     s += LG5N7[0];
-    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z + 0.5)
+    (2f64 * PI).sqrt().ln() + s.ln() - base + base.ln() * (z - 0.5)
 }
 
 /// Calculates the gamma function.
-- 
2.43.0


From c2cde6a53ccce9a333c4383655afba8add2e8489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 11/24] fix: erf, erfc and their inverses panicked on NaN

---
 src/error.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index b3470d9..e82ebc0 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -320,7 +320,10 @@ fn erfccheb(z: f64) -> f64 {
     let mut d = 0f64;
     let mut dd = 0f64;
 
-    assert!(z >= 0f64, "erfccheb requires nonnegative argument");
+    assert!(
+        z >= 0f64 || z.is_nan(),
+        "erfccheb requires nonnegative argument"
+    );
     let t = 2f64 / (2f64 + z);
     let ty = 4f64 * t - 2f64;
     for j in (1..NCOEF - 1).rev() {
-- 
2.43.0


From cac6a88c6c2157c9157378200c96d3394e6bebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 12/24] fix: inverfc panicked on the smallest subnormal number

---
 src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index e82ebc0..51d9d0d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -75,7 +75,8 @@ pub fn inverfc(p: f64) -> f64 {
     }
 
     let pp = if p < 1f64 { p } else { 2f64 - p };
-    let t = (-2f64 * (pp / 2f64).ln()).sqrt();
+    // ln(pp) - ln(2) rather than ln(pp / 2), which underflows for the smallest pp
+    let t = (-2f64 * (pp.ln() - core::f64::consts::LN_2)).sqrt();
     let mut x = -std::f64::consts::FRAC_1_SQRT_2
         * ((2.30753 + t * 0.27061) / (1f64 + t * (0.99229 + t * 0.04481)) - t);
     for _j in 0..2 {
-- 
2.43.0


From 16286bc1be6b8ccccc60b7c0689a4ca862f48d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 13/24] fix: faddeeva cancelled close to the axes for large |z|

---
 src/faddeeva.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/faddeeva.rs b/src/faddeeva.rs
index d304b97..625bcba 100644
--- a/src/faddeeva.rs
+++ b/src/faddeeva.rs
@@ -58,7 +58,10 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
         if yabs == 0. {
             return (e2, wi);
         }
-        return (e2 + y * 2. * (x * wi - INV_SQRT_PI), wi - 2. * x * y * e2);
+        // For larger |x| the difference below cancels, and the asymptotic series is accurate.
+        if xabs <= 27. {
+            return (e2 + y * 2. * (x * wi - INV_SQRT_PI), wi - 2. * x * y * e2);
+        }
     }
 
     /* **************************************************************** */
@@ -72,7 +75,10 @@ pub fn faddeeva(re: f64, im: f64) -> (f64, f64) {
         if xabs == 0. {
             return (wr, 0.);
         }
-        return (wr, x * (2. * (INV_SQRT_PI - y * wr)));
+        // For larger y the difference below cancels, and the asymptotic series is accurate.
+        if y <= 27. {
+            return (wr, x * (2. * (INV_SQRT_PI - y * wr)));
+        }
     }
 
     /* **************************************************************** */
-- 
2.43.0


From 244cd65f431091f0ab19decc09d0fd07dd5230b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:48 +0000
Subject: [PATCH 14/24] fix: betai switched to its complement at the wrong
 point, which made invbetai diverge

---
 src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index 4ed185f..8fa5b5c 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -70,7 +70,7 @@ pub fn betai(a: f64, b: f64, x: f64) -> f64 {
         return betaiapprox(a, b, x);
     }
     let bt = (ln_gamma(a + b) - ln_gamma(a) - ln_gamma(b) + a * x.ln() + b * (1f64 - x).ln()).exp();
-    if x < (a + 1f64) / (a + b * 2f64) {
+    if x < (a + 1f64) / (a + b + 2f64) {
         bt * betacf(a, b, x) / a
     } else {
         1f64 - bt * betacf(b, a, 1f64 - x) / b
-- 
2.43.0


From 7f28e7a3132c3f095f052e565646a318e8c5ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 15/24] fix: invgammp stopped too early for results below
 machine epsilon

---
 src/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 2c8f7ad..96b92f7 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -490,7 +490,7 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
         if x <= 0f64 {
             x = 0.5 * (x + t);
         }
-        if t.abs() < (x * EPS).max(EPS) {
+        if t.abs() < x * EPS {
             break;
         }
     }
-- 
2.43.0


From 476e556dec6b5b0f7f1e9bb7168550b2a8260f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 16/24] fix: gammp and gammq are not 0 and 1 for tiny x when a
 is small too

---
 src/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index 96b92f7..eb0dc25 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -194,8 +194,8 @@ pub fn gammp(a: f64, x: f64) -> f64 {
         return 0f64;
     }
 
-    // For very small x relative to a, use series (always more accurate)
-    if x < a * EPS {
+    // For very small x relative to a, result approaches 0 (slowly, if a is small)
+    if a >= 1f64 && x < a * EPS {
         return 0f64;
     }
 
@@ -251,8 +251,8 @@ pub fn gammq(a: f64, x: f64) -> f64 {
         return 1f64;
     }
 
-    // For very small x relative to a, result approaches 1
-    if x < a * EPS {
+    // For very small x relative to a, result approaches 1 (slowly, if a is small)
+    if a >= 1f64 && x < a * EPS {
         return 1f64;
     }
 
-- 
2.43.0


From 0eb9395878e7ec456cbd20b68e96277e97ccd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:50 +0000
Subject: [PATCH 17/24] fix: invbetai gave up before converging in the tails

---
 src/beta.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index 8fa5b5c..7e63c01 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -211,7 +211,8 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
         };
     }
     let afac = -ln_gamma(a) - ln_gamma(b) + ln_gamma(a + b);
-    for j in 0..10 {
+    // Convergence is slow in the far tails when a or b is close to 1
+    for j in 0..40 {
         if x == 0f64 || x == 1f64 {
             return x;
         }
-- 
2.43.0


From 83e6a6863f374ece0dd202a7478646ee926dfee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:36 +0000
Subject: [PATCH 18/24] fix: factorial looped over n factors long after the
 product had overflowed

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 86d32ba..b7452f3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -24,7 +24,8 @@ fn rising_factorial(z: f64, n: usize) -> f64 {
     let mut k = 0usize;
     let mut r = 1f64;
 
-    while k < n {
+    // Once the product has overflowed it stays infinite, so further factors cannot change it
+    while k < n && r.is_finite() {
         let l = m.min(n - k);
         let t = (k..k + l).fold(1f64, |acc, i| acc * (z + i as f64));
         r *= t;
-- 
2.43.0


From b6dc994dac2dead62b8c476a9536ae5ff362f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:34 +0000
Subject: [PATCH 19/24] fix: invgammp panicked in the far lower tail for large
 a

---
 src/gamma.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gamma.rs b/src/gamma.rs
index eb0dc25..3ec9c90 100644
--- a/src/gamma.rs
+++ b/src/gamma.rs
@@ -462,7 +462,9 @@ pub fn invgammp(p: f64, a: f64) -> f64 {
         if p < 0.5 {
             x = -x;
         }
-        1e-3_f64.max(a * (1f64 - 1f64 / (9f64 * a) - x / (3f64 * a.sqrt())).powi(3))
+        // P(a,x) <= x^a / gamma(a+1) bounds x from below, where the cube fails in the far tail
+        let lower = ((p.ln() + ln_gamma(a + 1f64)) / a).exp();
+        lower.max(a * (1f64 - 1f64 / (9f64 * a) - x / (3f64 * a.sqrt())).powi(3))
     } else {
         t = 1f64 - a * (0.253 + a * 0.12);
         if p < t {
-- 
2.43.0


From e4f0487982dc527a08d8588c75a05d1369f55194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:34 +0000
Subject: [PATCH 20/24] fix: invbetai panicked in the far lower tail

---
 src/beta.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/beta.rs b/src/beta.rs
index 7e63c01..35dd1b5 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -197,7 +197,9 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
         let w = (x * (al + h).sqrt() / h)
             - (1f64 / (2f64 * b - 1f64) - 1f64 / (2f64 * a - 1f64))
                 * (al + 5f64 / 6f64 - 2f64 / (3f64 * h));
-        x = a / (a + b * (2f64 * w).exp());
+        // I_x(a,b) <= x^a / (a*beta(a,b)) bounds x from below, where the guess fails in the far tail
+        let lower = (((a * p).ln() + ln_gamma(a) + ln_gamma(b) - ln_gamma(a + b)) / a).exp();
+        x = (a / (a + b * (2f64 * w).exp())).max(lower);
     } else {
         let lna = (a / (a + b)).ln();
         let lnb = (b / (a + b)).ln();
-- 
2.43.0


From f5979b07184c1157a87d5d78f7cd0262195a4ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:42 +0000
Subject: [PATCH 21/24] fix: invbetai panicked or did not converge in the far
 upper tail

---
 src/beta.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/beta.rs b/src/beta.rs
index 35dd1b5..404ef4e 100644
--- a/src/beta.rs
+++ b/src/beta.rs
@@ -197,9 +197,15 @@ pub fn invbetai(p: f64, a: f64, b: f64) -> f64 {
         let w = (x * (al + h).sqrt() / h)
             - (1f64 / (2f64 * b - 1f64) - 1f64 / (2f64 * a - 1f64))
                 * (al + 5f64 / 6f64 - 2f64 / (3f64 * h));
-        // I_x(a,b) <= x^a / (a*beta(a,b)) bounds x from below, where the guess fails in the far tail
-        let lower = (((a * p).ln() + ln_gamma(a) + ln_gamma(b) - ln_gamma(a + b)) / a).exp();
-        x = (a / (a + b * (2f64 * w).exp())).max(lower);
+        x = a / (a + b * (2f64 * w).exp());
+        // I_x(a,b) <= x^a / (a*beta(a,b)) bounds x from below, and 1-I_x(a,b) <= (1-x)^b / (b*beta(a,b))
+        // bounds it from above, where the guess fails in the far tails
+        let lnbeta = ln_gamma(a) + ln_gamma(b) - ln_gamma(a + b);
+        x = if p < 0.5 {
+            x.max((((a * p).ln() + lnbeta) / a).exp())
+        } else {
+            x.min(-(((b * (1f64 - p)).ln() + lnbeta) / b).exp_m1())
+        };
     } else {
         let lna = (a / (a + b)).ln();
         let lnb = (b / (a + b)).ln();
-- 
2.43.0


From c17e8a2a666c7f55be2642707cad7c960e2fa410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:20 +0000
Subject: [PATCH 22/24] fix: In: keep the scale of the recurrence apart, so
 that high orders do not underflow at large x

---
 src/bessel.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 49eb32f..7c02f6a 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -160,6 +160,8 @@ pub fn In(n: u32, x: f64) -> f64 {
         let mut bip = 0f64;
         let mut ans = 0f64;
         let mut bi = 1f64;
+        // Exponent of the factor between `ans` and `bi`, which can be far too small for a float.
+        let mut scale = 0i32;
         // The starting order must also grow with x (up to where the result overflows anyway).
         let spread = (acc * n_f64.max(x.abs().min(1e4))).sqrt() as u32;
         for j in (1..2 * (n + spread)).rev() {
@@ -170,13 +172,16 @@ pub fn In(n: u32, x: f64) -> f64 {
             if k > iexp {
                 bi = ldexp(bi, -k);
                 bip = ldexp(bip, -k);
-                ans = ldexp(ans, -k);
+                if j < n {
+                    scale = scale.saturating_sub(k);
+                }
             }
             if j == n {
                 ans = bip;
             }
         }
-        ans *= i0(x) / bi;
+        let (mantissa, exponent) = frexp(i0(x));
+        ans = ldexp(ans / bi * mantissa, scale.saturating_add(exponent));
         if x < 0f64 && n % 2 == 1 {
             -ans
         } else {
-- 
2.43.0


From 866a1b344fce3b2c925c7ce22dc0d480c2a7b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:35 +0000
Subject: [PATCH 23/24] fix: besseljy, besselik: functions of the first kind at
 small x

---
 src/bessel.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index 7c02f6a..f97251e 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -299,15 +299,16 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let mut rjl = isign as f64 * FPMIN;
     let mut rjpl = h * rjl;
     let rjl1 = rjl;
-    let rjp1 = rjpl;
 
     let rjmu: f64;
     let mut rymu: f64;
-    let rymup: f64;
     let mut ry1: f64;
 
     let mut fact = nu * xi;
+    // J_{xmu+1} in the units of rjl
+    let mut rjnext = (nu * xi - h) * rjl;
     for _ in (0..nl).rev() {
+        rjnext = rjl;
         let rjtemp = fact * rjl + rjpl;
         fact -= xi;
         rjpl = fact * rjtemp - rjl;
@@ -369,8 +370,8 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         }
         rymu = -sum;
         ry1 = -sum1 * xi2;
-        rymup = xmu * xi * rymu - ry1;
-        rjmu = w / (rymup - f * rymu);
+        // The Wronskian of J_xmu and Y_xmu without their derivatives, which cancel for small x
+        rjmu = w / (rjnext / rjl * rymu - ry1);
     } else {
         let mut a = 0.25 - xmu2;
         let mut p = -0.5 * xi;
@@ -424,12 +425,12 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         let rjmu_temp = (w / ((p - f) * gam + q)).sqrt();
         rjmu = if rjl < 0f64 { -rjmu_temp } else { rjmu_temp };
         rymu = gam * rjmu;
-        rymup = rymu * (p + q / gam);
+        let rymup = rymu * (p + q / gam);
         ry1 = xmu * xi * rymu - rymup;
     }
     let fact = rjmu / rjl;
     let jo = rjl1 * fact;
-    let jpo = rjp1 * fact;
+    let jpo = jo * h;
     for i in 1..=nl {
         let rytemp = (xmu + i as f64) * xi2 * ry1 - rymu;
         rymu = ry1;
@@ -628,15 +629,16 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let mut ril = FPMIN;
     let mut ripl = h * ril;
     let ril1 = ril;
-    let rip1 = ripl;
     let mut fact = nu * xi;
+    // I_{xmu+1} in the units of ril
+    let mut rinext = (h - nu * xi) * ril;
     for _ in (0..nl).rev() {
+        rinext = ril;
         let ritemp = fact * ril + ripl;
         fact -= xi;
         ripl = fact * ritemp + ril;
         ril = ritemp;
     }
-    let f = ripl / ril;
 
     let mut rkmu: f64;
     let mut rk1: f64;
@@ -724,10 +726,15 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         rkmu = (PI / (2.0 * x)).sqrt() * (-x).exp() / s;
         rk1 = rkmu * (xmu + x + 0.5 - h) * xi;
     }
-    let rkmup = xmu * xi * rkmu - rk1;
-    let rimu = xi / (f * rkmu - rkmup);
-    let io = (rimu * ril1) / ril;
-    let ipo = (rimu * rip1) / ril;
+    // The Wronskian of I_xmu and K_xmu without their derivatives, which cancel for small x
+    let rimu = xi / (rinext / ril * rkmu + rk1);
+    // In the order that neither overflows for large x nor underflows for small x
+    let io = if rimu < 1.0 {
+        rimu / ril * ril1
+    } else {
+        rimu * ril1 / ril
+    };
+    let ipo = io * h;
     for i in 1..=nl {
         let i_f64 = i as f64;
         let rktemp = (xmu + i_f64) * xi2 * rk1 + rkmu;
-- 
2.43.0


From 1ce5cbfec6b1cf2ac08dcd19e05686398f10f307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:10 +0000
Subject: [PATCH 24/24] fix: besseljy and besselik return infinities, not NaN,
 where Y or K overflows

---
 src/bessel.rs | 59 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/bessel.rs b/src/bessel.rs
index f97251e..87d8729 100644
--- a/src/bessel.rs
+++ b/src/bessel.rs
@@ -247,6 +247,7 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     const MAXIT: usize = 10000;
     const EPS: f64 = f64::EPSILON;
     const FPMIN: f64 = f64::MIN_POSITIVE / EPS;
+    const BIG: f64 = 1e50;
     const XMIN: f64 = 2.0;
     const PI: f64 = std::f64::consts::PI;
 
@@ -307,7 +308,15 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let mut fact = nu * xi;
     // J_{xmu+1} in the units of rjl
     let mut rjnext = (nu * xi - h) * rjl;
+    // Kept apart from rjl1, since J_nu can be far too small for a float.
+    let mut scale = 1f64;
     for _ in (0..nl).rev() {
+        let size = rjl.abs().max(rjpl.abs());
+        if size > BIG {
+            rjl /= size;
+            rjpl /= size;
+            scale /= size;
+        }
         rjnext = rjl;
         let rjtemp = fact * rjl + rjpl;
         fact -= xi;
@@ -371,7 +380,8 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         rymu = -sum;
         ry1 = -sum1 * xi2;
         // The Wronskian of J_xmu and Y_xmu without their derivatives, which cancel for small x
-        rjmu = w / (rjnext / rjl * rymu - ry1);
+        // (times x, since ry1 can overflow where the others do not)
+        rjmu = w * x / (rjnext / rjl * x * rymu + 2.0 * sum1);
     } else {
         let mut a = 0.25 - xmu2;
         let mut p = -0.5 * xi;
@@ -429,15 +439,24 @@ pub fn besseljy(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         ry1 = xmu * xi * rymu - rymup;
     }
     let fact = rjmu / rjl;
-    let jo = rjl1 * fact;
+    let jo = rjl1 * fact * scale;
     let jpo = jo * h;
     for i in 1..=nl {
         let rytemp = (xmu + i as f64) * xi2 * ry1 - rymu;
         rymu = ry1;
         ry1 = rytemp;
+        if rymu.is_infinite() {
+            // All higher orders are infinite as well; continuing would compute inf - inf.
+            ry1 = rymu;
+            break;
+        }
     }
     let yo = rymu;
-    let ypo = nu * xi * rymu - ry1;
+    let ypo = if ry1.is_infinite() {
+        -ry1
+    } else {
+        nu * xi * rymu - ry1
+    };
 
     (jo, yo, jpo, ypo)
 }
@@ -593,6 +612,7 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     const MAXIT: usize = 10000;
     const EPS: f64 = f64::EPSILON;
     const FPMIN: f64 = f64::MIN_POSITIVE / EPS;
+    const BIG: f64 = 1e50;
     const XMIN: f64 = 2.0;
     const PI: f64 = std::f64::consts::PI;
 
@@ -632,7 +652,15 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
     let mut fact = nu * xi;
     // I_{xmu+1} in the units of ril
     let mut rinext = (h - nu * xi) * ril;
+    // Kept apart from ril1, since I_nu can be far too small for a float.
+    let mut scale = 1f64;
     for _ in (0..nl).rev() {
+        let size = ril.max(ripl);
+        if size > BIG {
+            ril /= size;
+            ripl /= size;
+            scale /= size;
+        }
         rinext = ril;
         let ritemp = fact * ril + ripl;
         fact -= xi;
@@ -642,6 +670,7 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
 
     let mut rkmu: f64;
     let mut rk1: f64;
+    let xrk1: f64;
     if x < XMIN {
         let x2 = 0.5 * x;
         let pimu = PI * xmu;
@@ -686,6 +715,7 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
             panic!("besselik: failure to converge in cf1");
         }
         rkmu = sum;
+        xrk1 = 2.0 * sum1;
         rk1 = sum1 * xi2;
     } else {
         let mut b = 2.0 * (1.0 + x);
@@ -724,16 +754,19 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         }
         h *= a1;
         rkmu = (PI / (2.0 * x)).sqrt() * (-x).exp() / s;
-        rk1 = rkmu * (xmu + x + 0.5 - h) * xi;
+        xrk1 = rkmu * (xmu + x + 0.5 - h);
+        rk1 = xrk1 * xi;
     }
     // The Wronskian of I_xmu and K_xmu without their derivatives, which cancel for small x
-    let rimu = xi / (rinext / ril * rkmu + rk1);
+    // (times x, since rk1 can overflow where the others do not)
+    let rimu = 1.0 / (rinext / ril * x * rkmu + xrk1);
     // In the order that neither overflows for large x nor underflows for small x
-    let io = if rimu < 1.0 {
-        rimu / ril * ril1
-    } else {
-        rimu * ril1 / ril
-    };
+    let io = scale
+        * if rimu < 1.0 {
+            rimu / ril * ril1
+        } else {
+            rimu * ril1 / ril
+        };
     let ipo = io * h;
     for i in 1..=nl {
         let i_f64 = i as f64;
@@ -742,7 +775,11 @@ pub fn besselik(nu: f64, x: f64) -> (f64, f64, f64, f64) {
         rk1 = rktemp;
     }
     let ko = rkmu;
-    let kpo = nu * xi * rkmu - rk1;
+    let kpo = if rk1.is_infinite() {
+        -rk1
+    } else {
+        nu * xi * rkmu - rk1
+    };
 
     (io, ko, ipo, kpo)
 }
-- 
2.43.0

