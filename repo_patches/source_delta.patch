From 800f7c107ff698618b20f9f2322ab745f3267ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 1/7] fix: recompute cached terms on every change of
 composition or temperature

The caches were compared against the previous call with a 1e-7 tolerance
while the stored key was overwritten on every call, so a slowly drifting
composition (or temperature) was never picked up, and a NaN key left by a
bad input made the next valid input reuse stale terms.
---
 src/detail.rs   | 4 ++--
 src/gerg2008.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index 16f130c..f2a4252 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1017,7 +1017,7 @@ impl Detail {
         let mut icheck = 0;
 
         for (i, x) in self.x.iter().enumerate() {
-            if (x - self.xold[i]).abs() > 0.000_000_1 {
+            if *x != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = *x;
@@ -1214,7 +1214,7 @@ impl Detail {
                 self.ar[i][j] = 0.0;
             }
         }
-        if (self.t - self.told).abs() > 0.000_000_1 {
+        if self.t != self.told {
             for (i, item) in UN.iter().enumerate() {
                 self.tun[i] = self.t.powf(-item);
             }
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index cf12404..d98f7e0 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4425,7 +4425,7 @@ impl Gerg2008 {
 
         // Check to see if a component fraction has changed.  If x is the same as the previous call, then exit.
         for i in 1..=NC_GERG {
-            if (self.x[i] - self.xold[i]).abs() > 0.000_000_1 {
+            if self.x[i] != self.xold[i] {
                 icheck = 1;
             }
             self.xold[i] = self.x[i];
@@ -4546,7 +4546,7 @@ impl Gerg2008 {
         }
 
         // If temperature has changed, calculate temperature dependent parts
-        if (self.t - self.told).abs() > 0.000_000_1 || (tr - self.trold2).abs() > 0.000_000_1 {
+        if self.t != self.told || tr != self.trold2 {
             self.tterms(lntau);
         }
         self.told = self.t;
-- 
2.43.0


From 88f66ab105c8670e3d23ab47a490b3816567f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 2/7] fix: GERG density() with iflag > 0 reported failure for
 converged states

The 2-phase check returned IterationFail unconditionally; only a state
that fails the check is a failure.
---
 src/gerg2008.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index d98f7e0..bc3f0b7 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4362,8 +4362,8 @@ impl Gerg2008 {
                                 // Iteration failed (above loop did find a solution or checks made below indicate possible 2-phase state)
                                 //herr = "Calculation failed to converge in GERG method, ideal gas density returned.";
                                 self.d = self.p / RGERG / self.t;
+                                return Err(DensityError::IterationFail);
                             }
-                            return Err(DensityError::IterationFail);
                         }
                         return Ok(()); // Iteration converged
                     }
-- 
2.43.0


From 3eb203cd8b694b7a9f9a659348c8d4c366f973ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 3/7] fix: Composition::check() accepted a composition whose
 sum is NaN

---
 src/composition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/composition.rs b/src/composition.rs
index d436450..d325f1a 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -167,7 +167,7 @@ impl Composition {
         if (self.sum() - 0.0).abs() < 1.0e-10 {
             return Err(CompositionError::Empty);
         }
-        if (self.sum() - 1.0).abs() > 1.0e-2 {
+        if self.sum().is_nan() || (self.sum() - 1.0).abs() > 1.0e-2 {
             return Err(CompositionError::BadSum);
         }
         Ok(())
-- 
2.43.0


From a5766f8a9a127a66433e06637a1cc2c387dbfb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 4/7] fix: Composition::normalize() returned Ok without
 normalizing

With an infinite sum, or one so small that its reciprocal overflows, the
components came out as NaN, 0 or inf while Ok was returned.
---
 src/composition.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/composition.rs b/src/composition.rs
index d325f1a..4fe3111 100644
--- a/src/composition.rs
+++ b/src/composition.rs
@@ -121,9 +121,11 @@ impl Composition {
     /// ```
     pub fn normalize(&mut self) -> Result<(), CompositionError> {
         let sum = self.sum();
-        if sum > 0.0 {
-            let factor = 1.0 / sum;
-
+        if sum.is_infinite() {
+            return Err(CompositionError::BadSum);
+        }
+        let factor = 1.0 / sum;
+        if sum > 0.0 && factor.is_finite() {
             self.methane *= factor;
             self.nitrogen *= factor;
             self.carbon_dioxide *= factor;
-- 
2.43.0


From 333b934370ef186a18f784e58db856128c30f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 5/7] fix: generated C header did not compile

Both error enums put an enumerator named Ok in C's single namespace;
prefix the enumerators with the enum's name.
---
 build.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.rs b/build.rs
index c608adf..be54253 100644
--- a/build.rs
+++ b/build.rs
@@ -13,6 +13,8 @@ fn main() {
     config.autogen_warning = Some(String::from("// Autogenerated header file"));
     config.namespace = Some(String::from("ffi"));
     config.language = cbindgen::Language::C;
+    // Enumerators share one namespace in C: both error enums have an `Ok`.
+    config.enumeration.prefix_with_name = true;
 
     cbindgen::generate_with_config(crate_dir, config)
         .unwrap()
-- 
2.43.0


From 532a10234239f6c408ffd5432741c2c6fd19ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 6/7] fix: density() took a NaN left by a failed call as
 initial estimate

After a call with a NaN temperature or pressure the density field is NaN,
and the next call failed although its own inputs were valid.
---
 src/detail.rs   | 2 +-
 src/gerg2008.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/detail.rs b/src/detail.rs
index f2a4252..10ac4eb 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1309,7 +1309,7 @@ impl Detail {
             return Err(DensityError::PressureTooLow);
         }
         const TOLR: f64 = 0.000_000_1;
-        if self.d > -EPSILON {
+        if self.d > -EPSILON || self.d.is_nan() {
             self.d = self.p / RDETAIL / self.t; // Ideal gas estimate
         } else {
             self.d = self.d.abs(); // If D<0, then use as initial estimate
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index bc3f0b7..af55dec 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4294,7 +4294,7 @@ impl Gerg2008 {
 
         let (dcx, _tcx) = self.pseudocriticalpoint();
 
-        if self.d > -EPSILON {
+        if self.d > -EPSILON || self.d.is_nan() {
             self.d = self.p / RGERG / self.t;
             if iflag == 2 {
                 self.d = dcx * 3.0;
-- 
2.43.0


From 4d3167d7f7fcc17592939b8ebb1d030bee40b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 7/7] fix: density: do not take a short step in ln(p) for
 convergence where the pressure is far too low

A Newton step in ln(p) is proportional to p, so that at a liquid state of
almost zero pressure it is shorter than the tolerance although the requested
pressure is not reached: propane at 200 K and 100 kPa, started from the
liquid density at 1e-5 kPa, was returned as found at 0.00017 kPa.
---
 src/detail.rs   | 4 ++++
 src/gerg2008.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/detail.rs b/src/detail.rs
index 10ac4eb..41126ed 100644
--- a/src/detail.rs
+++ b/src/detail.rs
@@ -1333,6 +1333,10 @@ impl Detail {
                 dpdlv = -self.d * self.dp_dd_save; // d(p)/d[log(v)]
                 vdiff = (p2.ln() - plog) * p2 / dpdlv;
                 vlog -= vdiff;
+                if p2 < self.p {
+                    // The step in log(P) is short where P is far too low
+                    vdiff = (p2 - self.p) / dpdlv;
+                }
                 if vdiff.abs() < TOLR {
                     self.d = (-vlog).exp();
                     return Ok(()); // Iteration converged
diff --git a/src/gerg2008.rs b/src/gerg2008.rs
index af55dec..7f37c69 100644
--- a/src/gerg2008.rs
+++ b/src/gerg2008.rs
@@ -4345,6 +4345,11 @@ impl Gerg2008 {
                 let dpdlv = -self.d * self.dpddsave; // d(p)/d[log(v)]
                 let vdiff = (p2.ln() - plog) * p2 / dpdlv;
                 vlog += -vdiff;
+                let vdiff = if p2 < self.p {
+                    (p2 - self.p) / dpdlv // The step in log(P) is short where P is far too low
+                } else {
+                    vdiff
+                };
                 if vdiff.abs() < TOLR {
                     // Check to see if state is possibly 2-phase, and if so restart
                     if self.dpddsave < 0.0 {
-- 
2.43.0

