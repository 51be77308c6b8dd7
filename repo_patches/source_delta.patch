From ec33b57cec599ca48c3b5dfb6de6da1129b18466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:41 +0000
Subject: [PATCH 01/31] fix: start integration with dtstart, pointed towards
 tfinal

The builder ignored the dtstart option and always began with a step of +1e-6.
When tfinal lies before the initial time, that first step goes the wrong way.
The first step now has size min(dtstart, dtmax) and the sign of tfinal - t.
---
 src/ode/integrator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 59ddcf7..5ec96c5 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -207,6 +207,11 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegratorBuilder<'a, Params, Alg> {
         self
     }
     pub fn build(mut self) -> OdeIntegrator<'a, Params, Alg> {
+        // The first step has size `dtstart` and points towards `tfinal`.
+        self.dt = (self.opts.dtstart.abs())
+            .min(self.opts.dtmax)
+            .copysign(self.tfinal - self.t);
+
         let cache = Alg::new_cache(&mut self);
 
         let mut sol = OdeSolution::new();
-- 
2.43.0


From b43e56c1f13908a3b3e886a89c9df43385780e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:58 +0000
Subject: [PATCH 02/31] fix: do nothing when a finished integration is stepped
 again

Stepping or integrating after the end kept advancing the solver.
It recorded duplicate points, ran past tfinal, and could replace the return
code Success by DtLessThanMin.
The step function now returns None right away once the return code is final.
---
 src/ode/integrator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index 5ec96c5..f07e773 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -245,6 +245,10 @@ impl<'a, Params, Alg: OdeAlgorithm> OdeIntegrator<'a, Params, Alg> {
     /// Step the ODE to the next state. Returns solution if finished and
     /// None otherwise.
     pub fn step(&mut self) -> Option<usize> {
+        // Once integration has finished, there is nothing left to do.
+        if self.sol.retcode != super::code::OdeRetCode::Continue {
+            return None;
+        }
         Alg::step(self);
         match self.callback {
             Some(f) => f(self),
-- 
2.43.0


From dca6bb7fd15bbbc9e8c072ad302fef0f2a62354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:58 +0000
Subject: [PATCH 03/31] fix: leave the Dormand-Prince retry loop when the step
 size underflows

The loop set the return code DtLessThanMin but went on retrying.
With a right-hand side that yields NaN it never returned.
---
 src/dorm_prince/dp5/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5de0b3d..fc8929e 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -71,6 +71,7 @@ impl OdeAlgorithm for DormandPrince5 {
             }
             if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
             }
         }
 
-- 
2.43.0


From 82d62f72ff445e0560888587be17e9d8ab326190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:58 +0000
Subject: [PATCH 04/31] fix: stop Dormand-Prince after max_steps steps

The limit was tested with '>', so one step more than the maximum was taken.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index fc8929e..074b0d9 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -79,7 +79,7 @@ impl OdeAlgorithm for DormandPrince5 {
         integrator.sol.ts.push(integrator.t);
         integrator.sol.us.push(integrator.u.clone());
 
-        if integrator.stats.steps > integrator.opts.max_steps {
+        if integrator.stats.steps >= integrator.opts.max_steps {
             integrator.sol.retcode = OdeRetCode::MaxIters;
         }
         if integrator.cache.last {
-- 
2.43.0


From 5d449c945d9e6ca63332c8e36b188a0d6555577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:58 +0000
Subject: [PATCH 05/31] fix: yield the end point when iterating over an
 integrator

Both iterators stopped as soon as a step ended the integration.
The state that step had reached, normally the one at tfinal, was never yielded.
---
 src/ode/integrator.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ode/integrator.rs b/src/ode/integrator.rs
index f07e773..180e462 100644
--- a/src/ode/integrator.rs
+++ b/src/ode/integrator.rs
@@ -309,10 +309,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorIterator<'a, Param
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = self.integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        let recorded = self.integrator.sol.ts.len();
+        self.integrator.step();
+        if self.integrator.sol.ts.len() > recorded {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
@@ -360,10 +362,12 @@ impl<'a, Params, Alg: OdeAlgorithm> Iterator for OdeIntegratorMutIterator<'a, Pa
     type Item = (f64, Array1<f64>);
 
     fn next(&mut self) -> Option<(f64, Array1<f64>)> {
-        let res = (*self).integrator.step();
-        match res {
-            Some(_i) => Some((self.integrator.t, self.integrator.u.clone())),
-            None => None,
+        let recorded = self.integrator.sol.ts.len();
+        self.integrator.step();
+        if self.integrator.sol.ts.len() > recorded {
+            Some((self.integrator.t, self.integrator.u.clone()))
+        } else {
+            None
         }
     }
 }
-- 
2.43.0


From ea06390f9a7f12bff22e9c70ef8d17f4a5289c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:18 +0000
Subject: [PATCH 06/31] fix: apply the direction to the whole last-step test in
 Radau5

A misplaced parenthesis multiplied only tfinal by the direction.
When integrating backwards every step first tried to jump to the end of the
interval, and negative times were handled the other way round.
---
 src/radau/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index e6c8cf4..91eb340 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,7 +98,7 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
-        if integrator.t + integrator.dt * 1.0001 - integrator.tfinal * integrator.tdir >= 0.0 {
+        if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
         }
-- 
2.43.0


From 9d29e0a43d85ea051b76c8be7cb7b08332c498ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:18 +0000
Subject: [PATCH 07/31] fix: factor the Radau5 matrices again whenever the step
 size changes

The matrices depend on the step size, but they were kept when the Newton
iteration failed and when the last step was stretched to tfinal.
The next iteration then solved the collocation equations of the old step size.
---
 src/radau/algorithm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 91eb340..24c511c 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -101,6 +101,7 @@ impl OdeAlgorithm for Radau5 {
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
+            integrator.cache.decompose = true;
         }
         loop {
             if integrator.cache.decompose {
@@ -130,6 +131,7 @@ impl OdeAlgorithm for Radau5 {
 
             // Solve the non-linear systems using a simplified Newton's method.
             if !Self::newton(integrator) {
+                integrator.cache.decompose = true;
                 continue;
             }
 
-- 
2.43.0


From e869c9a24baaa7062265619ee5dbf67349097feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:18 +0000
Subject: [PATCH 08/31] fix: reject Radau5 steps whose error estimate is NaN

The estimate was bounded from below with f64::max, which drops a NaN.
A NaN estimate turned into 1e-10 and the step was accepted.
---
 src/radau/error_estimate.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/radau/error_estimate.rs b/src/radau/error_estimate.rs
index 8b6b79d..45d36ac 100644
--- a/src/radau/error_estimate.rs
+++ b/src/radau/error_estimate.rs
@@ -3,6 +3,15 @@ use crate::linalg::sol::*;
 use crate::ode::OdeIntegrator;
 use ndarray::prelude::*;
 
+/// Lower bound on the error estimate. Unlike `f64::max`, this keeps a NaN.
+fn at_least(err: f64, bound: f64) -> f64 {
+    if err < bound {
+        bound
+    } else {
+        err
+    }
+}
+
 impl Radau5 {
     /// Compute the error estimate for the Radau5 algorithm.
     pub(crate) fn error_estimate<Params>(integrator: &mut OdeIntegrator<Params, Radau5>) {
@@ -30,7 +39,7 @@ impl Radau5 {
         for i in 0..n {
             integrator.cache.err += (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
         }
-        integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+        integrator.cache.err = at_least((integrator.cache.err / n as f64).sqrt(), 1.0e-10);
 
         if integrator.cache.err < 1.0 {
             return;
@@ -62,7 +71,7 @@ impl Radau5 {
                 integrator.cache.err +=
                     (integrator.cache.cont[i] / integrator.cache.scal[i]).powi(2);
             }
-            integrator.cache.err = (integrator.cache.err / n as f64).sqrt().max(1.0e-10);
+            integrator.cache.err = at_least((integrator.cache.err / n as f64).sqrt(), 1.0e-10);
         }
     }
 }
-- 
2.43.0


From 8b8106bc41360115879b0cfe94b5226e0ba1e7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:18 +0000
Subject: [PATCH 09/31] fix: keep the previous solution vector up to date in
 Radau5

The uprev field held the initial vector throughout the integration.
---
 src/radau/step_size_control.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 64dd753..4dc4499 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -43,6 +43,7 @@ impl Radau5 {
 
             let mut ak: f64;
             let mut acont3: f64;
+            integrator.uprev.assign(&integrator.u);
             for i in 0..n {
                 integrator.u[i] += integrator.cache.z3[i];
                 integrator.cache.cont[i + n] =
-- 
2.43.0


From ed3e37fca3b990dd29cd1e9cd7bbad5e7e02dc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:50 +0000
Subject: [PATCH 10/31] fix: continue from the state a callback leaves behind

Both algorithms reuse the derivative at the end of the previous step.
A callback runs after that derivative is computed and may change the state,
so the next step started with the derivative of the old state.
With a callback installed, the derivative is now computed at the start of each
step.
---
 src/dorm_prince/dp5/algorithm.rs | 10 ++++++++++
 src/radau/algorithm.rs           | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 074b0d9..16aa0a5 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -58,6 +58,16 @@ impl OdeAlgorithm for DormandPrince5 {
     where
         Self: Sized,
     {
+        if integrator.callback.is_some() {
+            // The callback may have changed the state `du` was computed from.
+            (integrator.dudt)(
+                integrator.cache.du.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+        }
         if (integrator.t + 1.01 * integrator.dt - integrator.tfinal) * integrator.tdir > 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 24c511c..7cd6852 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -98,6 +98,21 @@ impl OdeAlgorithm for Radau5 {
         }
     }
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
+        if integrator.callback.is_some() {
+            // The callback may have changed what these were computed from.
+            for i in 0..integrator.u.len() {
+                integrator.cache.scal[i] =
+                    integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
+            }
+            (integrator.dudt)(
+                integrator.cache.u0.view_mut(),
+                integrator.u.view(),
+                integrator.t,
+                &integrator.params,
+            );
+            integrator.stats.function_evals += 1;
+            integrator.cache.decompose = true;
+        }
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From 8469cc4579d7372cb7193bf2350e8b78b34c64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:50 +0000
Subject: [PATCH 11/31] fix: count Jacobian evaluations in the Radau5
 statistics

The jacobian_evals counter was never increased.
---
 src/radau/dec.rs               | 1 +
 src/radau/newton.rs            | 3 +++
 src/radau/step_size_control.rs | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/radau/dec.rs b/src/radau/dec.rs
index 04569fa..10748b6 100644
--- a/src/radau/dec.rs
+++ b/src/radau/dec.rs
@@ -78,6 +78,7 @@ impl Radau5 {
                 integrator.t,
                 &integrator.params,
             );
+            integrator.stats.jacobian_evals += 1;
         }
         return false;
     }
diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 8eae3fd..9117650 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -77,6 +77,7 @@ impl Radau5 {
                         integrator.t,
                         &integrator.params,
                     );
+                    integrator.stats.jacobian_evals += 1;
                 }
                 return false;
             }
@@ -176,6 +177,7 @@ impl Radau5 {
                                 integrator.t,
                                 &integrator.params,
                             );
+                            integrator.stats.jacobian_evals += 1;
                         }
                         return false;
                     }
@@ -193,6 +195,7 @@ impl Radau5 {
                             integrator.t,
                             &integrator.params,
                         );
+                        integrator.stats.jacobian_evals += 1;
                     }
                     return false;
                 }
diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 4dc4499..09a6402 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -117,6 +117,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         } else {
             // step is rejected
@@ -141,6 +142,7 @@ impl Radau5 {
                     integrator.t,
                     &integrator.params,
                 );
+                integrator.stats.jacobian_evals += 1;
             }
         }
     }
-- 
2.43.0


From de3e05b09e05f39b4773511d565dcd01f0585a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:50 +0000
Subject: [PATCH 12/31] fix: refresh the Jacobian when the Newton iteration
 converges too slowly

The test was the wrong way round, so this branch kept an outdated Jacobian
while the other failure branches computed a new one.
---
 src/radau/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/newton.rs b/src/radau/newton.rs
index 9117650..4c28ec1 100644
--- a/src/radau/newton.rs
+++ b/src/radau/newton.rs
@@ -168,7 +168,7 @@ impl Radau5 {
                         integrator.dt *= integrator.cache.dtfac;
                         integrator.cache.reject = true;
                         integrator.cache.last = false;
-                        if integrator.cache.caljac {
+                        if !integrator.cache.caljac {
                             jacobian_u(
                                 integrator.dudt,
                                 integrator.dfdu,
-- 
2.43.0


From 2cca0ac37f35a6a7c03422ba56b11e401a29b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:50 +0000
Subject: [PATCH 13/31] fix: scale the Jacobian increment with the magnitude of
 the component

For negative components the increment was always about 5e-11.
It is lost in rounding for large values, and the finite difference is then zero
or noise.
---
 src/ode/jacobian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index 81ee302..e93af89 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -21,7 +21,7 @@ pub(crate) fn jacobian_u<Dudt, Dfdu, Params>(
             dudt(du0.view_mut(), u.view(), t, p);
             for i in 0..u.len() {
                 let usafe = utemp[i];
-                let del = (f64::EPSILON * usafe.max(1e-5)).sqrt();
+                let del = (f64::EPSILON * usafe.abs().max(1e-5)).sqrt();
                 utemp[i] = usafe + del;
                 dudt(du1.view_mut(), utemp.view(), t, p);
                 for j in 0..u.len() {
-- 
2.43.0


From 78a95bd4651759b887f88dbd0974739d93eb229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:50 +0000
Subject: [PATCH 14/31] fix: perturb the time in the finite-difference time
 derivative

Both evaluations were made at the same time, so the result was always zero.
---
 src/ode/jacobian.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode/jacobian.rs b/src/ode/jacobian.rs
index e93af89..54cc56e 100644
--- a/src/ode/jacobian.rs
+++ b/src/ode/jacobian.rs
@@ -48,9 +48,9 @@ pub(crate) fn jacobian_t<Dudt, Dfdt, Params>(
         Some(f) => f(df.view_mut(), u.view(), t, p),
         None => {
             let mut du = Array::zeros(u.raw_dim());
+            let dt = (f64::EPSILON * t.abs().max(1e-5)).sqrt();
             dudt(du.view_mut(), u.view(), t, p);
-            dudt(df.view_mut(), u.view(), t, p);
-            let dt = f64::EPSILON * t.max(1e-5);
+            dudt(df.view_mut(), u.view(), t + dt, p);
             df.assign(&((&df - &du) / dt));
         }
     }
-- 
2.43.0


From 45d82459f3e7757dca8ab20567493aa00baab36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:50 +0000
Subject: [PATCH 15/31] fix: report a matrix that is singular in its first
 column

The decompositions return the stage at which the matrix is found singular, and
zero for success. Stages were counted from zero, so a singular first column
looked like a success.
---
 src/linalg/dec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index ce9925e..8e3944f 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -28,7 +28,7 @@ pub(crate) fn dec(n: usize, mut a: ArrayViewMut2<f64>, mut ip: ArrayViewMut1<i32
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -89,7 +89,7 @@ pub(crate) fn dech(
                 a[[k, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -152,7 +152,7 @@ pub(crate) fn decc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -243,7 +243,7 @@ pub(crate) fn dechc(
                 ai[[k, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -341,7 +341,7 @@ pub(crate) fn decb(
                 a[[md, k]] = t;
             }
             if t == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
@@ -429,7 +429,7 @@ pub(crate) fn decbc(
                 ai[[md, k]] = ti;
             }
             if tr.abs() + ti.abs() == 0.0 {
-                ier = k;
+                ier = k + 1;
                 ip[n - 1] = 0;
                 return ier;
             }
-- 
2.43.0


From b45dd7574aaf0c413cfcc9c92d5500847e1800be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:00 +0000
Subject: [PATCH 16/31] fix: use the stabilized exponent 1/5 - 0.75 beta in
 Dormand-Prince

The exponent was computed with beta to the power 0.75 in place of the product,
unlike the step size control of Hairer and Wanner that the beta option refers
to.
---
 src/dorm_prince/dp5/prepare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/prepare.rs b/src/dorm_prince/dp5/prepare.rs
index 2e62a90..c5d154c 100644
--- a/src/dorm_prince/dp5/prepare.rs
+++ b/src/dorm_prince/dp5/prepare.rs
@@ -9,7 +9,7 @@ impl DormandPrince5 {
         integrator: &mut OdeIntegrator<Params, DormandPrince5>,
     ) {
         let beta = integrator.opts.beta;
-        let expo1 = 0.2 - beta.powf(0.75);
+        let expo1 = 0.2 - beta * 0.75;
         let safe = integrator.opts.safe;
         let fac1 = 1.0 / integrator.opts.facl;
         let fac2 = 1.0 / integrator.opts.facr;
-- 
2.43.0


From 403d04907025702daf5f063b42932aa40a89ce6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:00 +0000
Subject: [PATCH 17/31] fix: start the stabilized step size control with a
 valid previous error

The previous error was initialized to zero, and the controller divides by it.
The second step was therefore always five times shorter than the first, however
small the error.
---
 src/dorm_prince/dp5/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 16aa0a5..727efed 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -33,7 +33,7 @@ impl OdeAlgorithm for DormandPrince5 {
             n_nonstiff: 0,
             reject: false,
             last: false,
-            facold: 0.0, // previous ratio of dtnew/dt
+            facold: 1e-4, // error estimate of the previous accepted step
             dtlamb: 0.0,
             k2: Array1::<f64>::zeros(n),
             k3: Array1::<f64>::zeros(n),
-- 
2.43.0


From 555a716f31858ac2a8720fd222a44f1af61a651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 18/31] fix: use the whole column in complex Hessenberg back
 substitution

The loop over the rows above the diagonal left out the last one.
---
 src/linalg/sol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index ee0eb3e..1111545 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -152,7 +152,7 @@ pub(crate) fn solhc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            for i in 0..km1 {
+            for i in 0..(km1 + 1) {
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[i] += prodr;
-- 
2.43.0


From a35ffd896acbde08692f4217ca1525415c4dda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 19/31] fix: eliminate the whole band in the real banded
 decomposition

The pivot search and the elimination left out the outermost subdiagonal, and
the row of the diagonal did not follow the column index when rows were
exchanged.
---
 src/linalg/dec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 8e3944f..adbef55 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -328,7 +328,7 @@ pub(crate) fn decb(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if a[[i, k]].abs() > a[[m, k]].abs() {
                     m = i;
                 }
@@ -350,11 +350,11 @@ pub(crate) fn decb(
                 a[[i, k]] *= -t;
             }
             ju = ju.max(ub + ip[k] as usize + 1).min(n);
-            let mm = md;
+            let mut mm = md;
             if ju >= kp1 {
                 for j in kp1..ju {
                     m = m - 1;
-                    let mm = mm - 1;
+                    mm = mm - 1;
                     t = a[[m, j]];
                     if m != mm {
                         a[[m, j]] = a[[mm, j]];
@@ -362,7 +362,7 @@ pub(crate) fn decb(
                     }
                     if t != 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             a[[ijk, j]] += a[[i, k]] * t;
                         }
-- 
2.43.0


From 5ce27a1b52b923beebd862c8b8ccbf34a0268887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 20/31] fix: eliminate the whole band in the complex banded
 decomposition

The pivot search and the elimination left out the outermost subdiagonal, and
the test for a row exchange compared with the wrong index.
---
 src/linalg/dec.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index adbef55..1539460 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -413,7 +413,7 @@ pub(crate) fn decbc(
             let kp1 = k + 1;
             let mut m = md;
             let mdl = lb.min(n - k - 1) + md;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 if ar[[i, k]].abs() + ai[[i, k]].abs() > ar[[m, k]].abs() + ai[[m, k]].abs() {
                     m = i;
                 }
@@ -421,7 +421,7 @@ pub(crate) fn decbc(
             ip[k] = (m + k - md) as i32;
             let mut tr = ar[[m, k]];
             let mut ti = ai[[m, k]];
-            if m != k {
+            if m != md {
                 ip[n - 1] = -ip[n - 1];
                 ar[[m, k]] = ar[[md, k]];
                 ai[[m, k]] = ai[[md, k]];
@@ -436,7 +436,7 @@ pub(crate) fn decbc(
             let den = tr * tr + ti * ti;
             tr = tr / den;
             ti = -ti / den;
-            for i in md1..mdl {
+            for i in md1..(mdl + 1) {
                 let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                 let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
                 ar[[i, k]] = -prodr;
@@ -459,7 +459,7 @@ pub(crate) fn decbc(
                     if tr.abs() + ti.abs() == 0.0 {
                     } else if ti == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr;
                             let prodi = ai[[i, k]] * tr;
@@ -468,7 +468,7 @@ pub(crate) fn decbc(
                         }
                     } else if tr == 0.0 {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = -ai[[i, k]] * ti;
                             let prodi = ar[[i, k]] * ti;
@@ -477,7 +477,7 @@ pub(crate) fn decbc(
                         }
                     } else {
                         let jk = j - k;
-                        for i in md1..mdl {
+                        for i in md1..(mdl + 1) {
                             let ijk = i - jk;
                             let prodr = ar[[i, k]] * tr - ai[[i, k]] * ti;
                             let prodi = ai[[i, k]] * tr + ar[[i, k]] * ti;
-- 
2.43.0


From ce75b0a9c317ce7059d92330993be17ef8b99b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 21/31] fix: avoid unsigned underflow in banded back
 substitution

Both banded solvers computed negative offsets in unsigned integers and
panicked for every matrix that has more columns than its stored diagonals, and
for diagonal matrices.
---
 src/linalg/sol.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index 1111545..1637d09 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -176,7 +176,6 @@ pub(crate) fn solb(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -196,10 +195,9 @@ pub(crate) fn solb(
             let kb = n - k - 1;
             b[kb] = b[kb] / a[[md, kb]];
             let t = -b[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 b[imd] += a[[i, kb]] * t;
             }
         }
@@ -219,7 +217,6 @@ pub(crate) fn solbc(
 ) {
     let md = lb + ub;
     let md1 = md + 1;
-    let mdm = md - 1;
     let nm1 = n - 1;
     if n != 1 {
         if lb != 0 {
@@ -250,10 +247,9 @@ pub(crate) fn solbc(
             bi[kb] = prodi / den;
             let tr = -br[kb];
             let ti = -bi[kb];
-            let kmd = md - kb;
-            let lm = 0.max(kmd);
-            for i in lm..(mdm + 1) {
-                let imd = i - kmd;
+            let lm = md.saturating_sub(kb);
+            for i in lm..md {
+                let imd = i + kb - md;
                 prodr = ar[[i, kb]] * tr - ai[[i, kb]] * ti;
                 prodi = ai[[i, kb]] * tr + ar[[i, kb]] * ti;
                 br[imd] += prodr;
-- 
2.43.0


From 70e82814e62901141278548ddc858ad3312d02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 22/31] fix: solve one-dimensional complex banded systems

The final division was skipped when the system has a single equation.
---
 src/linalg/sol.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/linalg/sol.rs b/src/linalg/sol.rs
index 1637d09..eb39811 100644
--- a/src/linalg/sol.rs
+++ b/src/linalg/sol.rs
@@ -256,12 +256,12 @@ pub(crate) fn solbc(
                 bi[imd] += prodi;
             }
         }
-        let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
-        let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
-        let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
-        br[0] = prodr / den;
-        bi[0] = prodi / den;
     }
+    let den = ar[[md, 0]] * ar[[md, 0]] + ai[[md, 0]] * ai[[md, 0]];
+    let prodr = br[0] * ar[[md, 0]] + bi[0] * ai[[md, 0]];
+    let prodi = bi[0] * ar[[md, 0]] - br[0] * ai[[md, 0]];
+    br[0] = prodr / den;
+    bi[0] = prodi / den;
 }
 
 #[cfg(test)]
-- 
2.43.0


From ee76ad68db0f91e3db334b4e70ccaa7a06bed98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 23/31] fix: make the reduction to Hessenberg form a similarity
 transformation

The column update wrote to a single element instead of the whole column, and a
zero entry ended the reduction instead of being skipped.
Systems with fewer than two rows caused an unsigned underflow.
---
 src/linalg/dec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index 1539460..fd1d371 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -504,11 +504,11 @@ pub(crate) fn elmhes(
     mut a: ArrayViewMut2<f64>,
     mut inter: ArrayViewMut1<i32>,
 ) {
-    let la = igh - 2;
     let kp1 = low + 1;
-    if la < kp1 {
+    if igh < kp1 + 2 {
         return;
     }
+    let la = igh - 2;
     for m in kp1..(la + 1) {
         let mm1 = m - 1;
         let mut x: f64 = 0.0;
@@ -538,7 +538,7 @@ pub(crate) fn elmhes(
             for i in mp1..igh {
                 let mut y = a[[i, mm1]];
                 if y == 0.0 {
-                    return;
+                    continue;
                 }
                 y = y / x;
                 a[[i, mm1]] = y;
@@ -546,7 +546,7 @@ pub(crate) fn elmhes(
                     a[[i, j]] -= y * a[[m, j]];
                 }
                 for j in 0..igh {
-                    a[[i, m]] += y * a[[j, i]];
+                    a[[j, m]] += y * a[[j, i]];
                 }
             }
         }
-- 
2.43.0


From aecf370eaeb1d14eb09e88b57077fdfe71506c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:31 +0000
Subject: [PATCH 24/31] fix: evaluate the Radau5 collocation polynomial for
 dense output

A factor s too many was applied to the second divided difference, so the
polynomial did not pass through the collocation points.
---
 src/radau/continuous_output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/continuous_output.rs b/src/radau/continuous_output.rs
index 59d5565..38c4771 100644
--- a/src/radau/continuous_output.rs
+++ b/src/radau/continuous_output.rs
@@ -21,7 +21,7 @@ impl Radau5 {
         let mut res: Array1<f64> = Array1::<f64>::zeros(n);
 
         res.assign(&((s - c1m1) * &integrator.cache.cont.slice(s![(3 * n)..])));
-        res = (s - c2m1) * (res + s * &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
+        res = (s - c2m1) * (res + &integrator.cache.cont.slice(s![(2 * n)..(3 * n)]));
         res = s * (res + &integrator.cache.cont.slice(s![n..2 * n]));
         res + &integrator.cache.cont.slice(s![0..n])
     }
-- 
2.43.0


From cf39e17a7880c9f8dce478a96324e8aa9cb3823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:05 +0000
Subject: [PATCH 25/31] Add verification hooks behind cfg(verif_hooks)

Expose the linear algebra kernels, the finite-difference Jacobians and the dense
output to harnesses outside the crate.
Nothing is compiled unless the flag is given.
---
 src/dorm_prince/dp5.rs | 15 +++++++
 src/lib.rs             |  2 +
 src/verif_hooks.rs     | 94 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 111 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/dorm_prince/dp5.rs b/src/dorm_prince/dp5.rs
index 4aaed1f..f6f8f93 100644
--- a/src/dorm_prince/dp5.rs
+++ b/src/dorm_prince/dp5.rs
@@ -8,6 +8,21 @@ pub(crate) mod stages;
 
 pub struct DormandPrince5;
 
+#[cfg(verif_hooks)]
+pub(crate) mod verif_hooks {
+    use super::DormandPrince5;
+    use crate::ode::OdeIntegrator;
+    use ndarray::prelude::*;
+
+    pub(crate) fn dense_output<P>(
+        integrator: &mut OdeIntegrator<P, DormandPrince5>,
+        t: f64,
+        dt: f64,
+    ) -> Array1<f64> {
+        DormandPrince5::dense_output(integrator, t, dt)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 4d63955..3c36de0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,3 +4,5 @@ pub mod ode;
 pub mod prelude;
 pub mod radau;
 pub mod rodas;
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..da02626
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,94 @@
+//! Access to crate-private routines for external verification harnesses. Only
+//! compiled with `--cfg verif_hooks`.
+
+use crate::dorm_prince::dp5::DormandPrince5;
+use crate::linalg::{dec, sol};
+use crate::ode::*;
+use crate::radau::Radau5;
+use ndarray::prelude::*;
+
+type M<'a> = ArrayViewMut2<'a, f64>;
+type V<'a> = ArrayViewMut1<'a, f64>;
+type Rhs<'a> = &'a dyn Fn(ArrayViewMut1<f64>, ArrayView1<f64>, f64, &());
+type Jac<'a> = &'a dyn Fn(ArrayViewMut2<f64>, ArrayView1<f64>, f64, &());
+
+pub fn dec(n: usize, a: M, ip: ArrayViewMut1<i32>) -> usize {
+    dec::dec(n, a, ip)
+}
+pub fn dech(n: usize, a: M, lb: usize, ip: ArrayViewMut1<i32>) -> usize {
+    dec::dech(n, a, lb, ip)
+}
+pub fn decc(n: usize, ar: M, ai: M, ip: ArrayViewMut1<i32>) -> usize {
+    dec::decc(n, ar, ai, ip)
+}
+pub fn dechc(n: usize, ar: M, ai: M, lb: usize, ip: ArrayViewMut1<i32>) -> usize {
+    dec::dechc(n, ar, ai, lb, ip)
+}
+pub fn decb(n: usize, a: M, lb: usize, ub: usize, ip: ArrayViewMut1<i32>) -> usize {
+    dec::decb(n, a, lb, ub, ip)
+}
+pub fn decbc(n: usize, ar: M, ai: M, lb: usize, ub: usize, ip: ArrayViewMut1<i32>) -> usize {
+    dec::decbc(n, ar, ai, lb, ub, ip)
+}
+pub fn elmhes(n: usize, low: usize, igh: usize, a: M, inter: ArrayViewMut1<i32>) {
+    dec::elmhes(n, low, igh, a, inter)
+}
+pub fn sol(n: usize, a: ArrayView2<f64>, b: V, ip: ArrayView1<i32>) {
+    sol::sol(n, a, b, ip)
+}
+pub fn solh(n: usize, a: ArrayView2<f64>, lb: usize, b: V, ip: ArrayView1<i32>) {
+    sol::solh(n, a, lb, b, ip)
+}
+pub fn solc(
+    n: usize,
+    ar: ArrayView2<f64>,
+    ai: ArrayView2<f64>,
+    br: V,
+    bi: V,
+    ip: ArrayView1<i32>,
+) {
+    sol::solc(n, ar, ai, br, bi, ip)
+}
+pub fn solhc(
+    n: usize,
+    ar: ArrayView2<f64>,
+    ai: ArrayView2<f64>,
+    lb: usize,
+    br: V,
+    bi: V,
+    ip: ArrayView1<i32>,
+) {
+    sol::solhc(n, ar, ai, lb, br, bi, ip)
+}
+pub fn solb(n: usize, a: ArrayView2<f64>, lb: usize, ub: usize, b: V, ip: ArrayView1<i32>) {
+    sol::solb(n, a, lb, ub, b, ip)
+}
+pub fn solbc(
+    n: usize,
+    ar: ArrayView2<f64>,
+    ai: ArrayView2<f64>,
+    lb: usize,
+    ub: usize,
+    br: V,
+    bi: V,
+    ip: ArrayView1<i32>,
+) {
+    sol::solbc(n, ar, ai, lb, ub, br, bi, ip)
+}
+
+pub fn jacobian_u(dudt: Rhs, dfdu: Option<Jac>, df: M, u: ArrayView1<f64>, t: f64) {
+    crate::ode::jacobian::jacobian_u(dudt, dfdu, df, u, t, &())
+}
+pub fn jacobian_t(dudt: Rhs, dfdt: Option<Rhs>, df: V, u: ArrayView1<f64>, t: f64) {
+    crate::ode::jacobian::jacobian_t(dudt, dfdt, df, u, t, &())
+}
+
+/// Dense output inside the step the integrator has just completed.
+pub fn dp5_dense<P>(integrator: &mut OdeIntegrator<P, DormandPrince5>, t: f64) -> Array1<f64> {
+    let dt = integrator.dtprev;
+    crate::dorm_prince::dp5::verif_hooks::dense_output(integrator, t, dt)
+}
+/// Dense output inside the step the integrator has just completed.
+pub fn radau_dense<P>(integrator: &mut OdeIntegrator<P, Radau5>, t: f64) -> Array1<f64> {
+    Radau5.dense_output(t, integrator)
+}
-- 
2.43.0


From cd20bf77b90b0951c68ae1bd3eb33be0ebfe923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:52:43 +0000
Subject: [PATCH 26/31] fix: decide again at the start of a Radau5 step whether
 it is the last one

A callback can shorten the step size after the previous step has marked the
next one as the last. The integration then stopped early and reported Success.
---
 src/radau/algorithm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 7cd6852..063b4eb 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -113,6 +113,8 @@ impl OdeAlgorithm for Radau5 {
             integrator.stats.function_evals += 1;
             integrator.cache.decompose = true;
         }
+        // A callback may have changed the step size since the last test.
+        integrator.cache.last = false;
         if (integrator.t + integrator.dt * 1.0001 - integrator.tfinal) * integrator.tdir >= 0.0 {
             integrator.dt = integrator.tfinal - integrator.t;
             integrator.cache.last = true;
-- 
2.43.0


From c30078eed698e1a3a9b227498ae558cc86694486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:49 +0000
Subject: [PATCH 27/31] fix: stop Dormand-Prince when the step size becomes
 subnormal

At t = 0 the smallest step size was zero. With a lower step ratio limit above
one half the step size never rounds to zero, so the retry loop did not end.
---
 src/dorm_prince/dp5/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 727efed..5a55848 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -79,7 +79,8 @@ impl OdeAlgorithm for DormandPrince5 {
             if !integrator.cache.reject {
                 break;
             }
-            if integrator.dt.abs() <= integrator.t.abs() * f64::EPSILON {
+            // At t = 0 a step size may shrink to a subnormal number and stay there.
+            if integrator.dt.abs() <= (integrator.t.abs() * f64::EPSILON).max(f64::MIN_POSITIVE) {
                 integrator.sol.retcode = OdeRetCode::DtLessThanMin;
                 return;
             }
-- 
2.43.0


From d628b90c26d95609479c79fbf5a10ac516860486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:11:04 +0000
Subject: [PATCH 28/31] fix: take a new Jacobian in Radau5 after a callback
 changed the equation

A callback may change the parameters or the state. The next step kept the
old Jacobian together with the convergence rate of the old equation. After
a linear stretch that rate is tiny, so a step was accepted after a single
Newton iteration although it missed the solution by thousands of
tolerances.
---
 src/radau/algorithm.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/radau/algorithm.rs b/src/radau/algorithm.rs
index 063b4eb..e689364 100644
--- a/src/radau/algorithm.rs
+++ b/src/radau/algorithm.rs
@@ -100,6 +100,8 @@ impl OdeAlgorithm for Radau5 {
     fn step<Params>(integrator: &mut OdeIntegrator<Params, Self>) {
         if integrator.callback.is_some() {
             // The callback may have changed what these were computed from.
+            let scal = integrator.cache.scal.clone();
+            let u0 = integrator.cache.u0.clone();
             for i in 0..integrator.u.len() {
                 integrator.cache.scal[i] =
                     integrator.opts.abstol + integrator.opts.reltol * integrator.u[i].abs();
@@ -110,6 +112,20 @@ impl OdeAlgorithm for Radau5 {
                 integrator.t,
                 &integrator.params,
             );
+            if scal != integrator.cache.scal || u0 != integrator.cache.u0 {
+                // The Jacobian and the convergence rate belong to what was
+                // integrated before.
+                jacobian_u(
+                    integrator.dudt,
+                    integrator.dfdu,
+                    integrator.cache.dfdu.view_mut(),
+                    integrator.u.view(),
+                    integrator.t,
+                    &integrator.params,
+                );
+                integrator.stats.jacobian_evals += 1;
+                integrator.cache.faccon = 1.0;
+            }
             integrator.stats.function_evals += 1;
             integrator.cache.decompose = true;
         }
-- 
2.43.0


From 7753dc24f09b966ca5abb4de1c36fe4d90bf8f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:43:40 +0000
Subject: [PATCH 29/31] fix: keep the smaller step size at the end of a
 backward Radau5 run

The step size left behind at the final time is the smaller of the last
and the proposed one. Comparing signed values picked the larger one when
integrating backward.
---
 src/radau/step_size_control.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/radau/step_size_control.rs b/src/radau/step_size_control.rs
index 09a6402..be38c51 100644
--- a/src/radau/step_size_control.rs
+++ b/src/radau/step_size_control.rs
@@ -85,7 +85,7 @@ impl Radau5 {
             integrator.stats.function_evals += 1;
 
             dtnew = integrator.tdir * dtnew.abs().min(integrator.opts.dtmax);
-            integrator.cache.dtopt = integrator.dt.min(dtnew);
+            integrator.cache.dtopt = integrator.tdir * dtnew.abs().min(integrator.dt.abs());
             if integrator.cache.reject {
                 dtnew = integrator.tdir * dtnew.abs().min(integrator.dt.abs());
             }
-- 
2.43.0


From cd68f563097e7b24c72b08611f3fa668d1a247b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:24 +0000
Subject: [PATCH 30/31] fix: report zero pivots of triangular matrices

The banded and the complex Hessenberg decomposition skipped the test for
zero pivots when the matrix has no entries below the diagonal, except for
the last pivot.
---
 src/linalg/dec.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linalg/dec.rs b/src/linalg/dec.rs
index fd1d371..f8cdae9 100644
--- a/src/linalg/dec.rs
+++ b/src/linalg/dec.rs
@@ -221,7 +221,7 @@ pub(crate) fn dechc(
 ) -> usize {
     let mut ier = 0;
     ip[n - 1] = 1;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         let nm1 = n - 1;
         for k in (0)..(nm1) {
             let kp1 = k + 1;
@@ -315,7 +315,7 @@ pub(crate) fn decb(
     let md = ub + lb;
     let md1 = md + 1;
     let mut ju = 0;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         if n >= ub + 2 {
             for j in (ub + 1)..n {
                 for i in 0..lb {
@@ -399,7 +399,7 @@ pub(crate) fn decbc(
     let md = lb + ub;
     let md1 = md + 1;
     let mut ju = 0;
-    if (n != 1) && (lb != 0) {
+    if n != 1 {
         if n >= ub + 2 {
             for j in (ub + 1)..n {
                 for i in (0)..(lb) {
-- 
2.43.0


From 39666b75c26c5ee8a782de513969183cac8963e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:57:20 +0000
Subject: [PATCH 31/31] fix: stop Dormand-Prince when accepted steps no longer
 advance the time

Close to a singularity every step can be accepted while the proposals
shrink below the resolution of the current time. The time then stood
still and points were recorded at the same time over and over. The step
size is now tested before each attempt, not only after a rejected one.
---
 src/dorm_prince/dp5/algorithm.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dorm_prince/dp5/algorithm.rs b/src/dorm_prince/dp5/algorithm.rs
index 5a55848..5083b0b 100644
--- a/src/dorm_prince/dp5/algorithm.rs
+++ b/src/dorm_prince/dp5/algorithm.rs
@@ -73,17 +73,19 @@ impl OdeAlgorithm for DormandPrince5 {
             integrator.cache.last = true;
         }
         loop {
+            // Accepted steps may shrink until they no longer advance the time, and
+            // at t = 0 a step size may become subnormal and stay there.
+            let dtmin = (integrator.t.abs() * f64::EPSILON).max(f64::MIN_POSITIVE);
+            if !integrator.cache.last && integrator.dt.abs() <= dtmin {
+                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
+                return;
+            }
             DormandPrince5::compute_stages(integrator);
             let err = DormandPrince5::error(integrator);
             DormandPrince5::prepare_next_step(err, integrator);
             if !integrator.cache.reject {
                 break;
             }
-            // At t = 0 a step size may shrink to a subnormal number and stay there.
-            if integrator.dt.abs() <= (integrator.t.abs() * f64::EPSILON).max(f64::MIN_POSITIVE) {
-                integrator.sol.retcode = OdeRetCode::DtLessThanMin;
-                return;
-            }
         }
 
         integrator.stats.steps += 1;
-- 
2.43.0

