From 112b7169c10354b5457a2bfeb1218cdb3210405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 01/29] fix: Exponential log partition is -log(rate)

---
 .../src/distributions/continuous/exponential.rs                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/continuous/exponential.rs b/measures-distributions/src/distributions/continuous/exponential.rs
index ac5e04e..3209725 100644
--- a/measures-distributions/src/distributions/continuous/exponential.rs
+++ b/measures-distributions/src/distributions/continuous/exponential.rs
@@ -100,7 +100,7 @@ where
 
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<T, T>>::NaturalParam, T) {
         let natural_param = [-self.rate];
-        let log_partition = self.rate.ln();
+        let log_partition = -self.rate.ln();
         (natural_param, log_partition)
     }
 }
-- 
2.43.0


From 625e62ee06dd9a2488693423fc90ab33b4ed1cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 02/29] fix: include log C(n, k) in the Binomial log-density

---
 .../src/distributions/discrete/binomial.rs               | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index 12c1f94..de6e0b2 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -19,7 +19,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::binomial_coefficient::BinomialCoefficientMeasure;
+use measures_combinators::measures::derived::binomial_coefficient::{
+    BinomialCoefficientMeasure, log_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -151,8 +153,9 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let k = T::from(*x).unwrap();
             let n = T::from(self.n).unwrap();
 
-            // Use log binomial coefficient (this is handled by the base measure)
-            k * self.prob.ln() + (n - k) * (T::one() - self.prob).ln()
+            log_binomial_coefficient::<T>(self.n, *x)
+                + k * self.prob.ln()
+                + (n - k) * (T::one() - self.prob).ln()
         } else {
             T::neg_infinity() // Outside support
         }
-- 
2.43.0


From 5417d23456ebf6cc92af4c284ac1e9ab1e884ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 03/29] fix: NegativeBinomial log-density uses its documented
 parametrisation and coefficient

---
 .../src/distributions/discrete/negative_binomial.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/negative_binomial.rs b/measures-distributions/src/distributions/discrete/negative_binomial.rs
index 4d7f4e8..e3319b2 100644
--- a/measures-distributions/src/distributions/discrete/negative_binomial.rs
+++ b/measures-distributions/src/distributions/discrete/negative_binomial.rs
@@ -20,7 +20,9 @@
 //! let log_density_value: f64 = ld.at(&3);
 //! ```
 
-use measures_combinators::measures::derived::negative_binomial_coefficient::NegativeBinomialCoefficientMeasure;
+use measures_combinators::measures::derived::negative_binomial_coefficient::{
+    NegativeBinomialCoefficientMeasure, log_negative_binomial_coefficient,
+};
 use measures_core::primitive::counting::CountingMeasure;
 use measures_core::{False, True};
 use measures_core::{Measure, MeasureMarker};
@@ -159,12 +161,13 @@ where
 // Implementation of HasLogDensity for NegativeBinomial distribution
 impl<T: Float> measures_core::HasLogDensity<u64, T> for NegativeBinomial<T> {
     fn log_density_wrt_root(&self, x: &u64) -> T {
-        // Negative Binomial PMF: P(X = k) = C(k+r-1, k) * p^r * (1-p)^k
-        // log P(X = k) = log(C(k+r-1, k)) + r*log(p) + k*log(1-p)
+        // k successes before r failures: P(X = k) = C(k+r-1, k) * p^k * (1-p)^r
+        // log P(X = k) = log(C(k+r-1, k)) + k*log(p) + r*log(1-p)
         let k = T::from(*x).unwrap();
         let r = T::from(self.r).unwrap();
 
-        // The log binomial coefficient is handled by the base measure
-        r * self.prob.ln() + k * (T::one() - self.prob).ln()
+        log_negative_binomial_coefficient::<T>(self.r, *x)
+            + k * self.prob.ln()
+            + r * (T::one() - self.prob).ln()
     }
 }
-- 
2.43.0


From 2185b55e03d8b259ba955270a100dc0e7bc1532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 04/29] fix: Geometric log partition matches its support {1, 2,
 ...}

---
 .../src/distributions/discrete/geometric.rs                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index fd5928b..e578d1f 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -30,7 +30,7 @@ use num_traits::Float;
 /// This is a member of the exponential family with:
 /// - Natural parameter: η = log(1-p)
 /// - Sufficient statistic: T(x) = x
-/// - Log partition: A(η) = -log(-η/(1+η)) = -log(1-p) - log(p)
+/// - Log partition: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
 /// - Base measure: Counting measure on {1, 2, 3, ...}
 #[derive(Clone, Debug)]
 pub struct Geometric<T> {
@@ -117,8 +117,8 @@ where
     fn natural_and_log_partition(&self) -> (<Self as ExponentialFamily<u64, T>>::NaturalParam, T) {
         let natural_param = [self.failure_prob().ln()];
 
-        // Log partition: A(η) = -log(1 - exp(η)) = -log(p)
-        let log_partition = -self.prob.ln();
+        // Log partition on {1, 2, ...}: A(η) = η - log(1 - exp(η)) = log(1-p) - log(p)
+        let log_partition = natural_param[0] - self.prob.ln();
 
         (natural_param, log_partition)
     }
-- 
2.43.0


From 4efc47c6daa443ecc2c4ace8de5250c2318f4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 05/29] fix: joint log-density of an IID sample is -inf when an
 element is outside the support

---
 measures-exponential-family/src/exponential_family/iid.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/measures-exponential-family/src/exponential_family/iid.rs b/measures-exponential-family/src/exponential_family/iid.rs
index 6a76ceb..2eef017 100644
--- a/measures-exponential-family/src/exponential_family/iid.rs
+++ b/measures-exponential-family/src/exponential_family/iid.rs
@@ -298,7 +298,7 @@ where
 /// Implementation of `HasLogDensity` for IID distributions
 impl<D, X, F> HasLogDensity<Vec<X>, F> for IID<D>
 where
-    D: ExponentialFamily<X, F>,
+    D: ExponentialFamily<X, F> + Measure<X>,
     X: Clone,
     F: Float + std::iter::Sum,
     D::NaturalParam: DotProduct<D::SufficientStat, Output = F>,
@@ -306,6 +306,10 @@ where
     D::BaseMeasure: HasLogDensity<X, F>,
 {
     fn log_density_wrt_root(&self, xs: &Vec<X>) -> F {
+        // A sample containing a point outside the support has joint density zero
+        if !xs.iter().all(|x| self.distribution.in_support(x.clone())) {
+            return F::neg_infinity();
+        }
         self.iid_log_density(xs)
     }
 }
-- 
2.43.0


From c75bfd327edcecc472b9e37317c59f273ba69183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 06/29] fix: Binomial log-density at p = 0 and p = 1

---
 .../src/distributions/discrete/binomial.rs          | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/measures-distributions/src/distributions/discrete/binomial.rs b/measures-distributions/src/distributions/discrete/binomial.rs
index de6e0b2..fc93f88 100644
--- a/measures-distributions/src/distributions/discrete/binomial.rs
+++ b/measures-distributions/src/distributions/discrete/binomial.rs
@@ -153,9 +153,18 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Binomial<T> {
             let k = T::from(*x).unwrap();
             let n = T::from(self.n).unwrap();
 
+            // 0^0 = 1: a zero count contributes nothing, also for p = 0 or p = 1
+            let log_power = |count: T, base: T| {
+                if count.is_zero() {
+                    T::zero()
+                } else {
+                    count * base.ln()
+                }
+            };
+
             log_binomial_coefficient::<T>(self.n, *x)
-                + k * self.prob.ln()
-                + (n - k) * (T::one() - self.prob).ln()
+                + log_power(k, self.prob)
+                + log_power(n - k, T::one() - self.prob)
         } else {
             T::neg_infinity() // Outside support
         }
-- 
2.43.0


From 50af7f8ebfbf4e5531490f7eb3781664c043806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 07/29] fix: Geometric log-density at p = 1

---
 .../src/distributions/discrete/geometric.rs                   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/measures-distributions/src/distributions/discrete/geometric.rs b/measures-distributions/src/distributions/discrete/geometric.rs
index e578d1f..452a2c3 100644
--- a/measures-distributions/src/distributions/discrete/geometric.rs
+++ b/measures-distributions/src/distributions/discrete/geometric.rs
@@ -154,7 +154,9 @@ impl<T: Float> measures_core::HasLogDensity<u64, T> for Geometric<T> {
     fn log_density_wrt_root(&self, x: &u64) -> T {
         // Geometric PMF: P(X = k) = (1-p)^(k-1) * p for k = 1, 2, 3, ...
         // log P(X = k) = (k-1)*log(1-p) + log(p)
-        if *x >= 1 {
+        if *x == 1 {
+            self.prob.ln() // (1-p)^0 = 1, also for p = 1
+        } else if *x > 1 {
             let k = T::from(*x).unwrap();
             (k - T::one()) * (T::one() - self.prob).ln() + self.prob.ln()
         } else {
-- 
2.43.0


From 10b97670343a250a34912dd1262f18872bdeb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 08/29] fix: log-density of a zero-sized measure is no longer
 taken for the density with respect to itself

---
 measures-core/src/core/density.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/measures-core/src/core/density.rs b/measures-core/src/core/density.rs
index b021466..cea8b02 100644
--- a/measures-core/src/core/density.rs
+++ b/measures-core/src/core/density.rs
@@ -223,14 +223,6 @@ where
 {
     #[inline]
     fn at(&self, x: &T) -> F {
-        // Check if we're computing density with respect to self
-        if std::ptr::eq(
-            (&raw const self.measure).cast::<()>(),
-            (&raw const self.base_measure).cast::<()>(),
-        ) {
-            return F::zero(); // log(dm/dm) = 0
-        }
-
         // Use type-level dispatch based on IsExponentialFamily markers
         <(M1::IsExponentialFamily, M2::IsExponentialFamily) as ExpFamDispatch<T, M1, M2, F>>::compute(
             &self.measure,
-- 
2.43.0


From 19d6475984ad9641d0800009fb655ffb63369944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 09/29] fix: evaluate_batch_optimized reports unbound variables
 instead of evaluating them as 0

---
 symbolic-math/src/expr.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 4ad3a3a..c3f18a3 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -308,13 +308,6 @@ impl Expr {
             // Standard path with HashMap reuse
             let mut var_map = HashMap::with_capacity(vars.len());
 
-            // Pre-populate with any constants or other variables (if needed)
-            for var in &vars {
-                if var != var_name {
-                    var_map.insert(var.clone(), 0.0); // Will be overwritten if needed
-                }
-            }
-
             for &value in values {
                 var_map.insert(var_name.to_string(), value);
                 results.push(self.evaluate(&var_map)?);
-- 
2.43.0


From efb24d77fefe345626bbc751dc375211480306d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:33 +0000
Subject: [PATCH 10/29] fix: Expr::simplify applies power rules only where they
 preserve the value

---
 symbolic-math/src/expr.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index c3f18a3..57cc4ae 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -441,7 +441,23 @@ impl Expr {
         self.evaluate_single_var(var_name, value)
     }
 
+    /// Whether this expression is positive wherever it is defined
+    fn is_positive(&self) -> bool {
+        match self {
+            Expr::Const(value) => *value > 0.0,
+            Expr::Exp(_) => true,
+            _ => false,
+        }
+    }
+
+    /// Whether this expression is an integer constant
+    fn is_integer_const(&self) -> bool {
+        matches!(self, Expr::Const(value) if value.fract() == 0.0)
+    }
+
     /// Simplify the expression using algebraic rules
+    ///
+    /// Wherever the expression is defined, the simplified expression has the same value.
     #[must_use]
     pub fn simplify(self) -> Self {
         match self {
@@ -487,8 +503,11 @@ impl Expr {
                 (_, Expr::Const(0.0)) => Expr::Const(1.0),
                 (expr, Expr::Const(1.0)) => expr,
                 (Expr::Const(1.0), _) => Expr::Const(1.0),
-                // (x^a)^b = x^(a*b)
-                (Expr::Pow(inner_base, inner_exp), outer_exp) => {
+                // (x^a)^b = x^(a*b) for positive x or integer exponents
+                (Expr::Pow(inner_base, inner_exp), outer_exp)
+                    if inner_base.is_positive()
+                        || (inner_exp.is_integer_const() && outer_exp.is_integer_const()) =>
+                {
                     let combined_exp = Expr::Mul(inner_exp, Box::new(outer_exp));
                     Expr::Pow(inner_base, Box::new(combined_exp.simplify()))
                 }
@@ -498,8 +517,8 @@ impl Expr {
                 Expr::Const(a) if a > 0.0 => Expr::Const(a.ln()),
                 Expr::Const(1.0) => Expr::Const(0.0),
                 Expr::Exp(inner) => *inner,
-                // ln(x^a) = a * ln(x)
-                Expr::Pow(base, exp) => Expr::Mul(exp, Box::new(Expr::Ln(base))),
+                // ln(x^a) = a * ln(x) for positive x
+                Expr::Pow(base, exp) if base.is_positive() => Expr::Mul(exp, Box::new(Expr::Ln(base))),
                 expr => Expr::Ln(Box::new(expr)),
             },
             Expr::Exp(expr) => match expr.simplify() {
@@ -517,9 +536,9 @@ impl Expr {
                 Expr::Const(a) if a >= 0.0 => Expr::Const(a.sqrt()),
                 Expr::Const(0.0) => Expr::Const(0.0),
                 Expr::Const(1.0) => Expr::Const(1.0),
-                // sqrt(x^2) = |x| (simplified to x for positive domains)
+                // sqrt(x^2) = |x|, which is x for positive x
                 Expr::Pow(base, exp) => match exp.as_ref() {
-                    Expr::Const(2.0) => *base,
+                    Expr::Const(2.0) if base.is_positive() => *base,
                     _ => Expr::Sqrt(Box::new(Expr::Pow(base, exp))),
                 },
                 expr => Expr::Sqrt(Box::new(expr)),
-- 
2.43.0


From 38be22bd4fdae0f5a2a1c6d4c9c693c85795518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 11/29] fix: key the expression caches by Debug text, which
 tells a variable named 2 from the constant 2

---
 symbolic-math/src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 57cc4ae..9c428cf 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -565,7 +565,7 @@ impl Expr {
     /// Simplify the expression using algebraic rules with caching
     #[must_use]
     pub fn simplify_cached(self) -> Self {
-        let expr_str = format!("{self}");
+        let expr_str = format!("{self:?}");
 
         // Check cache first
         if let Ok(cache) = SIMPLIFICATION_CACHE.lock()
@@ -594,7 +594,7 @@ impl Expr {
 
     /// Evaluate the expression with caching for repeated evaluations
     pub fn evaluate_cached(&self, vars: &HashMap<String, f64>) -> Result<f64, EvalError> {
-        let expr_str = format!("{self}");
+        let expr_str = format!("{self:?}");
         let vars_str = format!("{vars:?}");
         let cache_key = (expr_str.clone(), vars_str);
 
-- 
2.43.0


From f7e0cc063bce4ee91619c453419ac4ca3d7d938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 12/29] fix: native ln returns -inf at 0, NaN below 0, +inf at
 +inf and handles subnormals

---
 symbolic-math/src/jit.rs | 45 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 4653189..285bff7 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -698,10 +698,24 @@ pub fn generate_accurate_ln_call(
     // Then ln(x) = k*ln(2) + ln(m)
     // This is the proper way to implement ln with good accuracy across all ranges
 
+    // Subnormal numbers have no implicit leading bit: scale them into the normal range first
+    let min_normal = builder.ins().f64const(f64::MIN_POSITIVE);
+    let is_small = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::LessThan,
+        val,
+        min_normal,
+    );
+    let two_54 = builder.ins().f64const(18_014_398_509_481_984.0);
+    let scaled = builder.ins().fmul(val, two_54);
+    let normal = builder.ins().select(is_small, scaled, val);
+    let fifty_four = builder.ins().f64const(54.0);
+    let k_scale = builder.ins().select(is_small, fifty_four, zero);
+
     // Convert to integer bits for manipulation
-    let x_bits = builder
-        .ins()
-        .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), val);
+    let x_bits =
+        builder
+            .ins()
+            .bitcast(types::I64, cranelift_codegen::ir::MemFlags::new(), normal);
 
     // Extract exponent (IEEE 754 format)
     let exponent_mask = builder.ins().iconst(types::I64, 0x7FF0000000000000);
@@ -709,7 +723,8 @@ pub fn generate_accurate_ln_call(
     let exponent_shifted = builder.ins().ushr_imm(exponent_bits, 52);
     let bias = builder.ins().iconst(types::I64, 1023);
     let k_i64 = builder.ins().isub(exponent_shifted, bias);
-    let k = builder.ins().fcvt_from_sint(types::F64, k_i64);
+    let k_normal = builder.ins().fcvt_from_sint(types::F64, k_i64);
+    let k = builder.ins().fsub(k_normal, k_scale);
 
     // Extract mantissa and normalize to [1, 2)
     let mantissa_mask = builder.ins().iconst(types::I64, 0x000FFFFFFFFFFFFF);
@@ -776,7 +791,27 @@ pub fn generate_accurate_ln_call(
 
     // Return ln(1) = 0 exactly, otherwise return computed value
     let result = builder.ins().select(is_one, zero, ln_x);
-    Ok(result)
+
+    // Outside the positive finite numbers: ln(inf) = inf, ln(0) = -inf, NaN elsewhere
+    let infinity = builder.ins().f64const(f64::INFINITY);
+    let neg_infinity = builder.ins().f64const(f64::NEG_INFINITY);
+    let nan = builder.ins().f64const(f64::NAN);
+    let is_finite = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::LessThan,
+        val,
+        infinity,
+    );
+    let result = builder.ins().select(is_finite, result, val);
+    let is_zero = builder
+        .ins()
+        .fcmp(cranelift_codegen::ir::condcodes::FloatCC::Equal, val, zero);
+    let result = builder.ins().select(is_zero, neg_infinity, result);
+    let is_negative = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::LessThan,
+        val,
+        zero,
+    );
+    Ok(builder.ins().select(is_negative, nan, result))
 }
 
 /// Generate CLIF IR for exponential function using proven rational function approximation
-- 
2.43.0


From e86d47879bc2effc724797e8eb81b66e22821c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 13/29] fix: native exp no longer traps or wraps around for
 large, infinite and NaN arguments

---
 symbolic-math/src/jit.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 285bff7..d279fe2 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -877,7 +877,8 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
     let exp_r = builder.ins().fdiv(numerator, denominator);
 
     // Apply 2^k scaling - use a simpler conditional approach
-    let k_int = builder.ins().fcvt_to_sint(types::I32, k_float);
+    // (saturating conversion: the plain one traps on NaN and on values beyond i32)
+    let k_int = builder.ins().fcvt_to_sint_sat(types::I32, k_float);
 
     // For common small integer powers, use exact multiplication
     // This avoids floating point precision issues
@@ -933,7 +934,23 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
         .ins()
         .select(is_k_neg_one, result_k_neg_one, temp_result2);
 
-    Ok(result)
+    // Beyond the range of f64 the exponent bits would wrap around: overflow to +inf, underflow to 0
+    let overflow_bound = builder.ins().f64const(709.782_712_893_384);
+    let underflow_bound = builder.ins().f64const(-708.396_418_532_264_1);
+    let infinity = builder.ins().f64const(f64::INFINITY);
+    let zero_f64 = builder.ins().f64const(0.0);
+    let overflows = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::GreaterThan,
+        val,
+        overflow_bound,
+    );
+    let result = builder.ins().select(overflows, infinity, result);
+    let underflows = builder.ins().fcmp(
+        cranelift_codegen::ir::condcodes::FloatCC::LessThan,
+        val,
+        underflow_bound,
+    );
+    Ok(builder.ins().select(underflows, zero_f64, result))
 }
 
 /// Generate CLIF IR for sine function using polynomial approximation
-- 
2.43.0


From 58df6436a8af59a7b95c9fa07786b7bcc59b1699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:20 +0000
Subject: [PATCH 14/29] fix: native pow of negative bases and zero exponents;
 sin and cos reduce their argument

---
 symbolic-math/src/jit.rs | 163 ++++++++++++++++++++++++++++++---------
 1 file changed, 125 insertions(+), 38 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index d279fe2..d6cda53 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -674,10 +674,35 @@ pub fn generate_pow_call(
     base: Value,
     exponent: Value,
 ) -> Result<Value, JITError> {
-    // Use the standard approach: exp(exponent * ln(base))
-    let ln_base = generate_accurate_ln_call(builder, base)?;
+    use cranelift_codegen::ir::condcodes::FloatCC;
+
+    // Use the standard approach: exp(exponent * ln(|base|))
+    let magnitude = builder.ins().fabs(base);
+    let ln_base = generate_accurate_ln_call(builder, magnitude)?;
     let product = builder.ins().fmul(exponent, ln_base);
-    generate_exp_call(builder, product)
+    let power = generate_exp_call(builder, product)?;
+
+    // A negative base: the sign alternates over the integer exponents, NaN for the others
+    let zero = builder.ins().f64const(0.0);
+    let half = builder.ins().f64const(0.5);
+    let nan = builder.ins().f64const(f64::NAN);
+    let rounded = builder.ins().floor(exponent);
+    let is_integer = builder.ins().fcmp(FloatCC::Equal, rounded, exponent);
+    let half_exponent = builder.ins().fmul(exponent, half);
+    let rounded_half = builder.ins().floor(half_exponent);
+    let is_even = builder
+        .ins()
+        .fcmp(FloatCC::Equal, rounded_half, half_exponent);
+    let neg_power = builder.ins().fneg(power);
+    let integer_power = builder.ins().select(is_even, power, neg_power);
+    let negative_result = builder.ins().select(is_integer, integer_power, nan);
+    let is_negative = builder.ins().fcmp(FloatCC::LessThan, base, zero);
+    let result = builder.ins().select(is_negative, negative_result, power);
+
+    // x^0 = 1 for every x (0 * ln(0) would be NaN)
+    let one = builder.ins().f64const(1.0);
+    let exponent_is_zero = builder.ins().fcmp(FloatCC::Equal, exponent, zero);
+    Ok(builder.ins().select(exponent_is_zero, one, result))
 }
 
 /// Generate CLIF IR for natural logarithm using range reduction and rational function approximation
@@ -953,50 +978,112 @@ pub fn generate_exp_call(builder: &mut FunctionBuilder, val: Value) -> Result<Va
     Ok(builder.ins().select(underflows, zero_f64, result))
 }
 
-/// Generate CLIF IR for sine function using polynomial approximation
+/// Reduce an angle to [-π/4, π/4]: returns (q mod 4, r) with val = q·π/2 + r
 #[cfg(feature = "jit")]
-pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for sin(x)
-    // sin(x) ≈ x - x³/6 + x⁵/120
-
-    let x2 = builder.ins().fmul(val, val);
-    let x3 = builder.ins().fmul(x2, val);
-    let x5 = builder.ins().fmul(x3, x2);
+fn reduce_quarter_turns(builder: &mut FunctionBuilder, val: Value) -> (Value, Value) {
+    let two_over_pi = builder.ins().f64const(std::f64::consts::FRAC_2_PI);
+    let turns = builder.ins().fmul(val, two_over_pi);
+    let q = builder.ins().nearest(turns);
+
+    // π/2 in three parts, so that the products with q are exact (Cody and Waite)
+    let part1 = builder.ins().f64const(1.570_796_326_734_125_6);
+    let part2 = builder.ins().f64const(6.077_100_506_303_966e-11);
+    let part3 = builder.ins().f64const(2.022_266_248_795_950_7e-21);
+    let q1 = builder.ins().fmul(q, part1);
+    let q2 = builder.ins().fmul(q, part2);
+    let q3 = builder.ins().fmul(q, part3);
+    let r1 = builder.ins().fsub(val, q1);
+    let r2 = builder.ins().fsub(r1, q2);
+    let r = builder.ins().fsub(r2, q3);
+
+    // q mod 4
+    let quarter = builder.ins().f64const(0.25);
+    let four = builder.ins().f64const(4.0);
+    let q_quarter = builder.ins().fmul(q, quarter);
+    let full_turns = builder.ins().floor(q_quarter);
+    let q_full = builder.ins().fmul(full_turns, four);
+    (builder.ins().fsub(q, q_full), r)
+}
 
-    let coeff2 = builder.ins().f64const(-0.16666666667);
-    let coeff3 = builder.ins().f64const(0.00833333333);
+/// Evaluate c₀ + c₁·x + c₂·x² + ... by Horner's rule
+#[cfg(feature = "jit")]
+fn generate_horner(builder: &mut FunctionBuilder, x: Value, coefficients: &[f64]) -> Value {
+    let mut result = builder.ins().f64const(0.0);
+    for &coefficient in coefficients.iter().rev() {
+        let product = builder.ins().fmul(result, x);
+        let constant = builder.ins().f64const(coefficient);
+        result = builder.ins().fadd(product, constant);
+    }
+    result
+}
 
-    let term1 = val;
-    let term2 = builder.ins().fmul(x3, coeff2);
-    let term3 = builder.ins().fmul(x5, coeff3);
+/// Sine and cosine of r in [-π/4, π/4] by their Taylor polynomials (error below 1e-13)
+#[cfg(feature = "jit")]
+fn generate_sin_cos_kernel(builder: &mut FunctionBuilder, r: Value) -> (Value, Value) {
+    let r2 = builder.ins().fmul(r, r);
+    let sin_over_r = generate_horner(
+        builder,
+        r2,
+        &[
+            1.0,
+            -1.0 / 6.0,
+            1.0 / 120.0,
+            -1.0 / 5040.0,
+            1.0 / 362_880.0,
+            -1.0 / 39_916_800.0,
+            1.0 / 6_227_020_800.0,
+        ],
+    );
+    let sin_r = builder.ins().fmul(sin_over_r, r);
+    let cos_r = generate_horner(
+        builder,
+        r2,
+        &[
+            1.0,
+            -0.5,
+            1.0 / 24.0,
+            -1.0 / 720.0,
+            1.0 / 40_320.0,
+            -1.0 / 3_628_800.0,
+            1.0 / 479_001_600.0,
+        ],
+    );
+    (sin_r, cos_r)
+}
 
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
+/// Select by quadrant: sin(r), cos(r), -sin(r), -cos(r) for q = 0, 1, 2, 3
+#[cfg(feature = "jit")]
+fn select_quadrant(builder: &mut FunctionBuilder, q: Value, s: Value, c: Value) -> Value {
+    let neg_s = builder.ins().fneg(s);
+    let neg_c = builder.ins().fneg(c);
+    let mut result = s;
+    for (quadrant, value) in [(1.0, c), (2.0, neg_s), (3.0, neg_c)] {
+        let number = builder.ins().f64const(quadrant);
+        let matches =
+            builder
+                .ins()
+                .fcmp(cranelift_codegen::ir::condcodes::FloatCC::Equal, q, number);
+        result = builder.ins().select(matches, value, result);
+    }
+    result
+}
 
-    Ok(result)
+/// Generate CLIF IR for sine function using range reduction and polynomial approximation
+#[cfg(feature = "jit")]
+pub fn generate_sin_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
+    let (q, r) = reduce_quarter_turns(builder, val);
+    let (sin_r, cos_r) = generate_sin_cos_kernel(builder, r);
+    Ok(select_quadrant(builder, q, sin_r, cos_r))
 }
 
-/// Generate CLIF IR for cosine function using polynomial approximation
+/// Generate CLIF IR for cosine function using range reduction and polynomial approximation
 #[cfg(feature = "jit")]
 pub fn generate_cos_call(builder: &mut FunctionBuilder, val: Value) -> Result<Value, JITError> {
-    // Use polynomial approximation for cos(x)
-    // cos(x) ≈ 1 - x²/2 + x⁴/24
-
-    let one = builder.ins().f64const(1.0);
-    let x2 = builder.ins().fmul(val, val);
-    let x4 = builder.ins().fmul(x2, x2);
-
-    let coeff2 = builder.ins().f64const(-0.5);
-    let coeff3 = builder.ins().f64const(0.04166666667);
-
-    let term1 = one;
-    let term2 = builder.ins().fmul(x2, coeff2);
-    let term3 = builder.ins().fmul(x4, coeff3);
-
-    let sum1 = builder.ins().fadd(term1, term2);
-    let result = builder.ins().fadd(sum1, term3);
-
-    Ok(result)
+    let (q, r) = reduce_quarter_turns(builder, val);
+    let (sin_r, cos_r) = generate_sin_cos_kernel(builder, r);
+    // cos(x) = sin(x + π/2)
+    let neg_s = builder.ins().fneg(sin_r);
+    Ok(select_quadrant(builder, q, cos_r, neg_s))
 }
 
 /// Generate CLIF IR for square root using Cranelift's built-in instruction
-- 
2.43.0


From b98b9ce48f32b193179d03bed586bc24a622d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 15/29] fix: call_batch passed pointers to code that takes its
 arguments as numbers

---
 symbolic-math/src/jit.rs | 94 +++++++++++++++++++++++++++++++++-------
 1 file changed, 78 insertions(+), 16 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index d6cda53..22beadb 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -185,29 +185,91 @@ impl GeneralJITFunction {
     }
 
     /// Call the JIT function with multiple data points and parameters (for batch processing)
+    ///
+    /// The compiled code takes every data point and parameter as a separate `f64` argument.
+    /// Functions with up to eight arguments in total are supported.
     pub fn call_batch(&self, data: &[f64], params: &[f64]) -> f64 {
-        match &self.signature {
+        let (data_dims, param_dims) = match &self.signature {
+            JITSignature::SingleInput => (1, 0),
+            JITSignature::DataAndParameter => (1, 1),
+            JITSignature::DataAndParameters(n) => (1, *n),
             JITSignature::MultipleDataAndParameters {
                 data_dims,
                 param_dims,
-            } => {
-                assert_eq!(data.len(), *data_dims, "Data dimension mismatch");
-                assert_eq!(params.len(), *param_dims, "Parameter dimension mismatch");
-                #[cfg(feature = "jit")]
-                {
-                    // For batch processing, we'd typically pass pointers to arrays
-                    // This is a simplified version - real implementation would be more complex
-                    let func: fn(*const f64, usize, *const f64, usize) -> f64 =
-                        unsafe { std::mem::transmute(self.function_ptr) };
-                    func(data.as_ptr(), data.len(), params.as_ptr(), params.len())
+            } => (*data_dims, *param_dims),
+            JITSignature::Custom { .. } => {
+                panic!("Function signature mismatch: expected batch data and parameters")
+            }
+        };
+        assert_eq!(data.len(), data_dims, "Data dimension mismatch");
+        assert_eq!(params.len(), param_dims, "Parameter dimension mismatch");
+        #[cfg(feature = "jit")]
+        {
+            use std::mem::transmute;
+
+            let ptr = self.function_ptr;
+            let arg = |i: usize| {
+                if i < data.len() {
+                    data[i]
+                } else {
+                    params[i - data.len()]
                 }
-                #[cfg(not(feature = "jit"))]
-                {
-                    let _ = (data, params);
-                    0.0
+            };
+            type F = f64;
+            unsafe {
+                match data.len() + params.len() {
+                    0 => transmute::<*const u8, fn() -> F>(ptr)(),
+                    1 => transmute::<*const u8, fn(F) -> F>(ptr)(arg(0)),
+                    2 => transmute::<*const u8, fn(F, F) -> F>(ptr)(arg(0), arg(1)),
+                    3 => transmute::<*const u8, fn(F, F, F) -> F>(ptr)(arg(0), arg(1), arg(2)),
+                    4 => transmute::<*const u8, fn(F, F, F, F) -> F>(ptr)(
+                        arg(0),
+                        arg(1),
+                        arg(2),
+                        arg(3),
+                    ),
+                    5 => transmute::<*const u8, fn(F, F, F, F, F) -> F>(ptr)(
+                        arg(0),
+                        arg(1),
+                        arg(2),
+                        arg(3),
+                        arg(4),
+                    ),
+                    6 => transmute::<*const u8, fn(F, F, F, F, F, F) -> F>(ptr)(
+                        arg(0),
+                        arg(1),
+                        arg(2),
+                        arg(3),
+                        arg(4),
+                        arg(5),
+                    ),
+                    7 => transmute::<*const u8, fn(F, F, F, F, F, F, F) -> F>(ptr)(
+                        arg(0),
+                        arg(1),
+                        arg(2),
+                        arg(3),
+                        arg(4),
+                        arg(5),
+                        arg(6),
+                    ),
+                    8 => transmute::<*const u8, fn(F, F, F, F, F, F, F, F) -> F>(ptr)(
+                        arg(0),
+                        arg(1),
+                        arg(2),
+                        arg(3),
+                        arg(4),
+                        arg(5),
+                        arg(6),
+                        arg(7),
+                    ),
+                    n => panic!("Unsupported argument count: {n}"),
                 }
             }
-            _ => panic!("Function signature mismatch: expected batch data and parameters"),
+        }
+        #[cfg(not(feature = "jit"))]
+        {
+            let _ = (data, params);
+            0.0
         }
     }
 }
-- 
2.43.0


From a578fefffa88bbbe5e89e8cdf3d46ecae6c87945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 16/29] fix: compile_custom_expression took a parameter for the
 input variable

---
 symbolic-math/src/jit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/jit.rs b/symbolic-math/src/jit.rs
index 22beadb..ff5d60f 100644
--- a/symbolic-math/src/jit.rs
+++ b/symbolic-math/src/jit.rs
@@ -1219,8 +1219,12 @@ fn generate_custom_log_density(
     // Create a variable mapping with the input value
     let mut var_map = std::collections::HashMap::new();
 
-    // Assume the first variable in the expression is the input variable
-    if let Some(var_name) = symbolic.variables.first() {
+    // Assume the first variable that is not a parameter is the input variable
+    if let Some(var_name) = symbolic
+        .variables
+        .iter()
+        .find(|name| !symbolic.parameters.contains_key(*name))
+    {
         var_map.insert(var_name.clone(), x_val);
     }
 
-- 
2.43.0


From d0da2835be4343b7ce2af6024fd001dc57d8f03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:54 +0000
Subject: [PATCH 17/29] fix: JITEval::compile assigned arguments in random
 order

---
 symbolic-math/src/final_tagless.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index a7b217d..b961749 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -991,10 +991,11 @@ impl MathExpr for JITEval {
 
 #[cfg(feature = "jit")]
 impl JITEval {
-    /// Compile expression with automatic signature detection
+    /// Compile expression with automatic signature detection (arguments in the order of their names)
     pub fn compile(expr: JITRepr) -> Result<GeneralJITFunction, JITError> {
         let variables = expr.collect_variables();
-        let var_list: Vec<String> = variables.into_iter().collect();
+        let mut var_list: Vec<String> = variables.into_iter().collect();
+        var_list.sort(); // a set has no order: arguments are taken by name
 
         let compiler = GeneralJITCompiler::new()?;
         compiler.compile_final_tagless(&expr, &var_list, &[], &HashMap::new())
-- 
2.43.0


From f189a0a95ea6c9a46346cf63317ab9ebfc907123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:18 +0000
Subject: [PATCH 18/29] fix: IID log-partition ignored the sample size in
 zero-overhead evaluators and nested samples

---
 .../src/exponential_family/iid.rs               |  6 ++++++
 .../src/exponential_family/jit.rs               |  2 +-
 .../src/exponential_family/traits.rs            | 17 ++++++++++++++---
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/measures-exponential-family/src/exponential_family/iid.rs b/measures-exponential-family/src/exponential_family/iid.rs
index 2eef017..3d2306b 100644
--- a/measures-exponential-family/src/exponential_family/iid.rs
+++ b/measures-exponential-family/src/exponential_family/iid.rs
@@ -281,6 +281,12 @@ where
         (natural_params, log_partition)
     }
 
+    fn observation_count(&self, xs: &Vec<X>) -> F {
+        xs.iter()
+            .map(|x| self.distribution.observation_count(x))
+            .sum()
+    }
+
     /// Override `exp_fam_log_density` to handle IID sample size scaling correctly
     ///
     /// This enables the standard API: `iid_normal.log_density().at(&samples)`
diff --git a/measures-exponential-family/src/exponential_family/jit.rs b/measures-exponential-family/src/exponential_family/jit.rs
index 72fb1ed..f14d9a1 100644
--- a/measures-exponential-family/src/exponential_family/jit.rs
+++ b/measures-exponential-family/src/exponential_family/jit.rs
@@ -115,7 +115,7 @@ where
         let sufficient_stat = distribution.sufficient_statistic(x);
         let eta_dot_t = natural_param.dot(&sufficient_stat);
         let log_h = base_measure.log_density_wrt_root(x);
-        eta_dot_t - log_partition + log_h
+        eta_dot_t - distribution.observation_count(x) * log_partition + log_h
     }
 }
 
diff --git a/measures-exponential-family/src/exponential_family/traits.rs b/measures-exponential-family/src/exponential_family/traits.rs
index beaa02e..2866be9 100644
--- a/measures-exponential-family/src/exponential_family/traits.rs
+++ b/measures-exponential-family/src/exponential_family/traits.rs
@@ -17,7 +17,6 @@
 
 use measures_core::DotProduct;
 use measures_core::True;
-use measures_core::float_constant;
 use measures_core::{HasLogDensity, Measure};
 use num_traits::Float;
 
@@ -71,6 +70,15 @@ pub trait ExponentialFamily<X: Clone, F: Float>: Clone {
     /// Get the base measure for this exponential family
     fn base_measure(&self) -> Self::BaseMeasure;
 
+    /// Number of independent observations represented by `x`, i.e. how often the
+    /// log-partition function enters the log-density of `x`.
+    ///
+    /// This is one, except for joint distributions such as `IID`.
+    #[inline]
+    fn observation_count(&self, _x: &X) -> F {
+        F::one()
+    }
+
     /// Exponential family log-density computation with automatic chain rule.
     ///
     /// Computes: η·T(x) - A(η) + `log(d(base_measure)/d(root_measure))(x)`
@@ -184,8 +192,11 @@ where
         samples.iter().map(|x| distribution.sufficient_statistic(x)),
     );
 
-    // Exponential family part: η·∑ᵢT(xᵢ) - n·A(η)
-    let n = float_constant::<F>(samples.len() as f64);
+    // Exponential family part: η·∑ᵢT(xᵢ) - n·A(η), where n is the number of underlying observations
+    let n: F = samples
+        .iter()
+        .map(|x| distribution.observation_count(x))
+        .sum();
     let exp_fam_part = natural_params.dot(&sum_sufficient_stats) - n * log_partition;
 
     // Base measure part: ∑ᵢlog h(xᵢ)
-- 
2.43.0


From b6fc6a68b50bd435b8c87f4dfbfe4c9b53bbaf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 19/29] fix: DistributionEval::log_gamma was off by up to 6e-3
 above 12 (Stirling formula without correction terms)

---
 .../src/distributions/final_tagless.rs                 | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/measures-distributions/src/distributions/final_tagless.rs b/measures-distributions/src/distributions/final_tagless.rs
index a48772f..3b0ebf3 100644
--- a/measures-distributions/src/distributions/final_tagless.rs
+++ b/measures-distributions/src/distributions/final_tagless.rs
@@ -293,16 +293,10 @@ impl DistributionEval {
         }
     }
 
-    /// Log-gamma function approximation (Stirling's approximation for large values)
+    /// Log-gamma function
     #[must_use]
     pub fn log_gamma(x: f64) -> f64 {
-        if x > 12.0 {
-            // Stirling's approximation for large x
-            (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln()
-        } else {
-            // Use built-in gamma function for smaller values
-            special::Gamma::ln_gamma(x).0
-        }
+        special::Gamma::ln_gamma(x).0
     }
 }
 
-- 
2.43.0


From 765957f31589b8775595b09c4313342feda5da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 20/29] fix: symbolic-math PrettyPrint printed a power of a
 negative constant as the negative of the power

---
 symbolic-math/src/final_tagless.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/final_tagless.rs b/symbolic-math/src/final_tagless.rs
index b961749..3e0f93b 100644
--- a/symbolic-math/src/final_tagless.rs
+++ b/symbolic-math/src/final_tagless.rs
@@ -544,7 +544,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        // a leading minus sign would apply to the whole power
+        if base.starts_with('-') {
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
-- 
2.43.0


From d2f27af27ff1863416e6f08be21f48786549590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 21/29] fix: mathjit PrettyPrint printed a power of a negative
 constant as the negative of the power

---
 mathjit/src/final_tagless.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mathjit/src/final_tagless.rs b/mathjit/src/final_tagless.rs
index 1dc4c6d..246be73 100644
--- a/mathjit/src/final_tagless.rs
+++ b/mathjit/src/final_tagless.rs
@@ -695,7 +695,12 @@ impl MathExpr for PrettyPrint {
     }
 
     fn pow<T: NumericType + Float>(base: Self::Repr<T>, exp: Self::Repr<T>) -> Self::Repr<T> {
-        format!("({base} ^ {exp})")
+        // a leading minus sign would apply to the whole power
+        if base.starts_with('-') {
+            format!("(({base}) ^ {exp})")
+        } else {
+            format!("({base} ^ {exp})")
+        }
     }
 
     fn neg<T: NumericType + Neg<Output = T>>(expr: Self::Repr<T>) -> Self::Repr<T> {
-- 
2.43.0


From cde49a2c0c4e43335440c6a589954830e2897976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 22/29] fix: Display printed a power of a negative constant as
 the negative of the power

---
 symbolic-math/src/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 9c428cf..fde5493 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -737,7 +737,11 @@ impl fmt::Display for Expr {
             Expr::Sub(left, right) => write!(f, "({left} - {right})"),
             Expr::Mul(left, right) => write!(f, "({left} * {right})"),
             Expr::Div(left, right) => write!(f, "({left} / {right})"),
-            Expr::Pow(base, exponent) => write!(f, "({base}^{exponent})"),
+            // a leading minus sign would apply to the whole power
+            Expr::Pow(base, exponent) => match base.as_ref() {
+                Expr::Const(value) if *value < 0.0 => write!(f, "(({base})^{exponent})"),
+                _ => write!(f, "({base}^{exponent})"),
+            },
             Expr::Ln(expr) => write!(f, "ln({expr})"),
             Expr::Exp(expr) => write!(f, "exp({expr})"),
             Expr::Sqrt(expr) => write!(f, "sqrt({expr})"),
-- 
2.43.0


From 95a5dcb2660c5b89875de8d7918a7419e5822dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 23/29] fix: to_python gave the wrong sign for powers of
 negations and negative constants

---
 symbolic-math/src/expr.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index fde5493..3d0bc4a 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -799,15 +799,19 @@ impl Expr {
             Expr::Sub(left, right) => format!("({} - {})", left.to_python(), right.to_python()),
             Expr::Mul(left, right) => format!("({} * {})", left.to_python(), right.to_python()),
             Expr::Div(left, right) => format!("({} / {})", left.to_python(), right.to_python()),
-            Expr::Pow(base, exponent) => {
-                format!("({} ** {})", base.to_python(), exponent.to_python())
-            }
+            // a leading minus sign would apply to the whole power
+            Expr::Pow(base, exponent) => match base.as_ref() {
+                Expr::Const(value) if *value < 0.0 => {
+                    format!("(({}) ** {})", base.to_python(), exponent.to_python())
+                }
+                _ => format!("({} ** {})", base.to_python(), exponent.to_python()),
+            },
             Expr::Ln(expr) => format!("math.log({})", expr.to_python()),
             Expr::Exp(expr) => format!("math.exp({})", expr.to_python()),
             Expr::Sqrt(expr) => format!("math.sqrt({})", expr.to_python()),
             Expr::Sin(expr) => format!("math.sin({})", expr.to_python()),
             Expr::Cos(expr) => format!("math.cos({})", expr.to_python()),
-            Expr::Neg(expr) => format!("-({})", expr.to_python()),
+            Expr::Neg(expr) => format!("(-({}))", expr.to_python()),
         }
     }
 }
-- 
2.43.0


From 506e7b1041e2fede8340a77e437291dfa1d33c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 24/29] fix: to_latex dropped the parentheses of sums in
 products and differences and of compound bases

---
 symbolic-math/src/expr.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/symbolic-math/src/expr.rs b/symbolic-math/src/expr.rs
index 3d0bc4a..ab3eb3b 100644
--- a/symbolic-math/src/expr.rs
+++ b/symbolic-math/src/expr.rs
@@ -766,19 +766,19 @@ impl Expr {
             }
             Expr::Var(name) => name.clone(),
             Expr::Add(left, right) => format!("{} + {}", left.to_latex(), right.to_latex()),
-            Expr::Sub(left, right) => format!("{} - {}", left.to_latex(), right.to_latex()),
+            Expr::Sub(left, right) => format!("{} - {}", left.to_latex(), right.latex_factor()),
             Expr::Mul(left, right) => match (left.as_ref(), right.as_ref()) {
-                (Expr::Const(c), _) if *c == 1.0 => right.to_latex(),
-                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.to_latex()),
+                (Expr::Const(c), _) if *c == 1.0 => right.latex_factor(),
+                (Expr::Const(c), _) if *c == -1.0 => format!("-{}", right.latex_factor()),
                 (Expr::Const(_), Expr::Var(_)) => {
                     format!("{}{}", left.to_latex(), right.to_latex())
                 }
-                _ => format!("{} \\cdot {}", left.to_latex(), right.to_latex()),
+                _ => format!("{} \\cdot {}", left.latex_factor(), right.latex_factor()),
             },
             Expr::Div(left, right) => {
                 format!("\\frac{{{}}}{{{}}}", left.to_latex(), right.to_latex())
             }
-            Expr::Pow(base, exponent) => format!("{}^{{{}}}", base.to_latex(), exponent.to_latex()),
+            Expr::Pow(base, exponent) => format!("{}^{{{}}}", base.latex_base(), exponent.to_latex()),
             Expr::Ln(expr) => format!("\\ln({})", expr.to_latex()),
             Expr::Exp(expr) => format!("e^{{{}}}", expr.to_latex()),
             Expr::Sqrt(expr) => format!("\\sqrt{{{}}}", expr.to_latex()),
@@ -788,6 +788,23 @@ impl Expr {
         }
     }
 
+    /// LaTeX of a factor or subtrahend: sums need parentheses
+    fn latex_factor(&self) -> String {
+        match self {
+            Expr::Add(..) | Expr::Sub(..) => format!("({})", self.to_latex()),
+            _ => self.to_latex(),
+        }
+    }
+
+    /// LaTeX of the base of a power: everything that is not a single symbol needs parentheses
+    fn latex_base(&self) -> String {
+        match self {
+            Expr::Var(_) | Expr::Sqrt(_) => self.to_latex(),
+            Expr::Const(value) if *value >= 0.0 => self.to_latex(),
+            _ => format!("({})", self.to_latex()),
+        }
+    }
+
     /// Format as Python code for numerical evaluation
     /// TODO: `to_julia`
     #[must_use]
-- 
2.43.0


From 1b620c383bf3bafebf1b939e5d37492601d754cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:59 +0000
Subject: [PATCH 25/29] fix: display::latex and display::python printed the
 plain notation instead of LaTeX and Python

---
 symbolic-math/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic-math/src/lib.rs b/symbolic-math/src/lib.rs
index 9688c90..f6761b3 100644
--- a/symbolic-math/src/lib.rs
+++ b/symbolic-math/src/lib.rs
@@ -299,13 +299,13 @@ pub mod display {
     /// Generate LaTeX representation of an expression
     #[must_use]
     pub fn latex(expr: &Expr) -> String {
-        format!("${expr}$")
+        format!("${}$", expr.to_latex())
     }
 
     /// Generate Python code representation of an expression
     #[must_use]
     pub fn python(expr: &Expr) -> String {
-        format!("lambda vars: {expr}")
+        format!("lambda vars: {}", expr.to_python())
     }
 
     /// Generate a mathematical equation string
-- 
2.43.0


From 799a119a662130645409c5fe433db5aeec021b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:31 +0000
Subject: [PATCH 26/29] fix: egglog optimiser rounded constants to one decimal
 (x + 0.04 became x)

---
 symbolic-math/src/optimization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index 575e95b..c8a012f 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -193,7 +193,7 @@ impl EgglogOptimizer {
     /// Convert our Expr to egglog string representation
     fn expr_to_egglog(expr: &Expr) -> Result<String, egglog::Error> {
         match expr {
-            Expr::Const(c) => Ok(format!("(Const {c:.1})")),
+            Expr::Const(c) => Ok(format!("(Const {c:?})")),
             Expr::Var(name) => Ok(format!("(Var \"{name}\")")),
             Expr::Add(left, right) => {
                 let left_str = Self::expr_to_egglog(left)?;
-- 
2.43.0


From 7072eb9493d1f3bc3d559ee063b66ff9ca3e982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:31 +0000
Subject: [PATCH 27/29] fix: egglog rule (x^a)^b -> x^(a b) is unsound for
 non-integer b (sqrt(x^2) became x)

---
 symbolic-math/src/optimization.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index c8a012f..cfa350b 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -97,7 +97,8 @@ impl EgglogOptimizer {
             ; Power laws
             (rewrite (Mul (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Add ?a ?b)))
             (rewrite (Div (Pow ?x ?a) (Pow ?x ?b)) (Pow ?x (Sub ?a ?b)))
-            (rewrite (Pow (Pow ?x ?a) ?b) (Pow ?x (Mul ?a ?b)))
+            (rewrite (Pow (Pow ?x ?a) (Const ?b)) (Pow ?x (Mul ?a (Const ?b)))
+                :when ((= (abs (% ?b 1.0)) 0.0)))
             
             ; ENHANCED constant folding for common values
             (rewrite (Add (Const ?a) (Const ?b)) (Const (+ ?a ?b)))
-- 
2.43.0


From 3fef87f196394a777193b151d9eb3beb278df6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:31 +0000
Subject: [PATCH 28/29] fix: egglog rule ln(x^n) -> n ln(x) is unsound for even
 n (ln(x^4) became undefined for negative x)

---
 symbolic-math/src/optimization.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic-math/src/optimization.rs b/symbolic-math/src/optimization.rs
index cfa350b..7fdd644 100644
--- a/symbolic-math/src/optimization.rs
+++ b/symbolic-math/src/optimization.rs
@@ -131,7 +131,8 @@ impl EgglogOptimizer {
             
             ; LOGARITHMIC and EXPONENTIAL advanced rules (simplified)
             ; ln(x^n) -> n*ln(x)
-            (rewrite (Ln (Pow ?x ?n)) (Mul ?n (Ln ?x)))
+            (rewrite (Ln (Pow ?x (Const ?n))) (Mul (Const ?n) (Ln ?x))
+                :when ((!= (abs (% ?n 2.0)) 0.0)))
             ; exp(n*ln(x)) -> x^n
             (rewrite (Exp (Mul ?n (Ln ?x))) (Pow ?x ?n))
             ; ln(sqrt(x)) -> 0.5*ln(x)
-- 
2.43.0


From 6fbd805b3ffc5cb9adb5b4a2762e778520f93f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:40 +0000
Subject: [PATCH 29/29] fix: LinearTransform rounded its matrix and offset to
 f32

---
 measures-combinators/src/measures/combinators/transform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/measures-combinators/src/measures/combinators/transform.rs b/measures-combinators/src/measures/combinators/transform.rs
index 9c13878..e6b0255 100644
--- a/measures-combinators/src/measures/combinators/transform.rs
+++ b/measures-combinators/src/measures/combinators/transform.rs
@@ -49,8 +49,8 @@ impl<T: AD> LinearTransform<T> {
         assert_eq!(offset.len(), output_dim);
 
         Self {
-            matrix: matrix.into_iter().map(|x| T::from(x as f32)).collect(),
-            offset: offset.into_iter().map(|x| T::from(x as f32)).collect(),
+            matrix: matrix.into_iter().map(|x| T::constant(x)).collect(),
+            offset: offset.into_iter().map(|x| T::constant(x)).collect(),
             input_dim,
             output_dim,
             log_abs_det: 1.0,
-- 
2.43.0

