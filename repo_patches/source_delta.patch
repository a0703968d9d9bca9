From aad4e6c7949691d7bdabebcda4fae8de3875477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 1/7] fix: honour customized default integration settings in
 the zero Matsubara integrals

The looser tolerance was applied by comparing the default method with itself,
so it replaced any tolerance the user had set.
---
 qcd-sme/src/consts.rs                         | 10 +++-
 .../src/low_level/oneloop/thermal/gluon.rs    | 54 ++++++-------------
 2 files changed, 23 insertions(+), 41 deletions(-)

diff --git a/qcd-sme/src/consts.rs b/qcd-sme/src/consts.rs
index a747912..cc40af8 100644
--- a/qcd-sme/src/consts.rs
+++ b/qcd-sme/src/consts.rs
@@ -97,8 +97,11 @@ pub(crate) fn m_quark() -> R {
     unsafe { M_QUARK }
 }
 
+/// The default tolerance for numerical integrals, if never changed.
+pub(crate) const INITIAL_TOL_INTEGRAL: R = 1E-10;
+
 /// The default tolerance for numerical integrals.
-static mut TOL_INTEGRAL: R = 1E-10;
+static mut TOL_INTEGRAL: R = INITIAL_TOL_INTEGRAL;
 
 /// Get the default tolerance for numerical integrals. Equals `1E-10` if never
 /// changed.
@@ -126,8 +129,11 @@ pub(crate) fn tol_integral() -> R {
     unsafe { TOL_INTEGRAL }
 }
 
+/// The default maximum number of iterations for numerical integrals, if never changed.
+pub(crate) const INITIAL_MAX_ITER_INTEGRAL: u32 = 50;
+
 /// The default maximum number of iterations for numerical integrals.
-static mut MAX_ITER_INTEGRAL: u32 = 50;
+static mut MAX_ITER_INTEGRAL: u32 = INITIAL_MAX_ITER_INTEGRAL;
 
 /// Get the default maximum number of iterations for numerical integrals.
 /// Equals `50` if never changed.
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fe9890b..d765d6c 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -576,7 +576,8 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, max_iter_integral, tol_integral,
+            get_default_integration_method, matsubara_reg, INITIAL_MAX_ITER_INTEGRAL,
+            INITIAL_TOL_INTEGRAL,
         };
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
@@ -763,69 +764,44 @@ pub mod zero_matsubara {
         // default integration method to DEFAULT_TOL_INT_REPL. This does not increase
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
-        pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+        fn default_integration_method() -> Integral {
+            let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == INITIAL_TOL_INTEGRAL && mi == INITIAL_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
+            integral
+        }
+
+        pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
+            let integral = default_integration_method();
             polarization_glue_l_thermal_part_landau_w_method(p, m, beta, integral)
         }
 
         pub fn polarization_glue_t_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_glue_t_thermal_part_landau_w_method(p, m, beta, integral)
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_quark_l_thermal_part_landau_w_method(p, mq, beta, mu, integral)
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_quark_t_thermal_part_landau_w_method(p, mq, beta, mu, integral)
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_quark_l_thermal_part_zero_temp_landau_w_method(p, mq, mu, integral)
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
-            if let crate::Integral::G7K15(ti, mi) = integral {
-                #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
-                    integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
-                }
-            }
+            let integral = default_integration_method();
             polarization_quark_t_thermal_part_zero_temp_landau_w_method(p, mq, mu, integral)
         }
     }
-- 
2.43.0


From 549266ba2ded855ce4879179b1945507835fb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 2/7] fix: use the configuration's number of colors in thermal
 *_w_field_config functions

The quark polarization integrands read the process-wide number of colors, so
the result depended on set_number_of_colors() and was not thread-safe.
---
 .../src/low_level/oneloop/thermal/gluon.rs    | 280 ++++++++++++++----
 qcd-sme/src/qcd/thermal.rs                    | 110 +++++--
 2 files changed, 313 insertions(+), 77 deletions(-)

diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index d765d6c..b3b1efb 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -10,7 +10,8 @@ pub use native::*;
 mod native {
     use super::inlines;
     use crate::common::thermal::inlines::fermi_momentum;
-    use crate::consts::get_default_integration_method;
+    use crate::consts::{get_default_integration_method, nc};
+    use crate::types::NCTYPE;
     use crate::{Num, C, R};
     use peroxide::numerical::integral::{integrate, Integral};
 
@@ -42,7 +43,7 @@ mod native {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu, nc())
     }
 
     pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
@@ -53,7 +54,7 @@ mod native {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu, nc())
     }
 
     pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T: Num>(
@@ -63,7 +64,7 @@ mod native {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc())
     }
 
     pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
@@ -73,7 +74,7 @@ mod native {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc())
     }
 
     pub fn polarization_glue_l_thermal_part_landau_w_method<T1: Num, T2: Num>(
@@ -117,6 +118,18 @@ mod native {
         beta: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_l_thermal_part_landau_w_nc(om, p, mq, beta, mu, nc(), integral)
+    }
+
+    pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc<T1: Num, T2: Num>(
+        om: T1,
+        p: T2,
+        mq: R,
+        beta: R,
+        mu: R,
+        nc: NCTYPE,
+        integral: Integral,
     ) -> C {
         integrate(
             |t| {
@@ -127,6 +140,7 @@ mod native {
                     mq,
                     beta,
                     mu,
+                    nc,
                 ) / (t * t)
             },
             (0., 1.),
@@ -141,6 +155,18 @@ mod native {
         beta: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_t_thermal_part_landau_w_nc(om, p, mq, beta, mu, nc(), integral)
+    }
+
+    pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        beta: R,
+        mu: R,
+        nc: NCTYPE,
+        integral: Integral,
     ) -> C {
         integrate(
             |t| {
@@ -151,6 +177,7 @@ mod native {
                     mq,
                     beta,
                     mu,
+                    nc,
                 ) / (t * t)
             },
             (0., 1.),
@@ -164,12 +191,23 @@ mod native {
         mq: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_l_thermal_part_zero_temp_landau_w_nc(om, p, mq, mu, nc(), integral)
+    }
+
+    pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc<T1: Num, T2: Num>(
+        om: T1,
+        p: T2,
+        mq: R,
+        mu: R,
+        nc: NCTYPE,
+        integral: Integral,
     ) -> C {
         if mu.abs() < mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
-            |q| inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu),
+            |q| inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc),
             (0., fermi_momentum(mq, mu)),
             integral,
         )
@@ -181,12 +219,23 @@ mod native {
         mq: R,
         mu: R,
         integral: Integral,
+    ) -> C {
+        polarization_quark_t_thermal_part_zero_temp_landau_w_nc(om, p, mq, mu, nc(), integral)
+    }
+
+    pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc<T: Num>(
+        om: T,
+        p: R,
+        mq: R,
+        mu: R,
+        nc: NCTYPE,
+        integral: Integral,
     ) -> C {
         if mu.abs() < mq.abs() {
             return C::new(0., 0.);
         };
         integrate(
-            |q| inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu),
+            |q| inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc),
             (0., fermi_momentum(mq, mu)),
             integral,
         )
@@ -293,6 +342,7 @@ mod native {
 //   number (one function for real arguments, another for complex arguments).
 pub(crate) mod ffi {
     use super::inlines;
+    use crate::consts::nc;
     use crate::{C, R};
 
     pub use super::zero_matsubara::ffi::*;
@@ -329,7 +379,7 @@ pub(crate) mod ffi {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_l_thermal_part_landau_i(q, om, p, mq, beta, mu, nc())
     }
 
     #[no_mangle]
@@ -341,7 +391,7 @@ pub(crate) mod ffi {
         beta: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu)
+        inlines::polarization_quark_t_thermal_part_landau_i(q, om, p, mq, beta, mu, nc())
     }
 
     #[no_mangle]
@@ -352,7 +402,7 @@ pub(crate) mod ffi {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc())
     }
 
     #[no_mangle]
@@ -363,7 +413,7 @@ pub(crate) mod ffi {
         mq: R,
         mu: R,
     ) -> C {
-        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu)
+        inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, p, mq, mu, nc())
     }
 }
 
@@ -377,8 +427,8 @@ pub(crate) mod inlines {
     use crate::common::thermal::inlines::{
         fermi_distribution_double, fermi_distribution_double_zero_temp,
     };
-    use crate::consts::nc;
     use crate::low_level::oneloop::thermal::*;
+    use crate::types::NCTYPE;
     use crate::{Num, C, I, R};
     use std::f64::consts::PI;
 
@@ -480,6 +530,7 @@ pub(crate) mod inlines {
         mq: R,
         beta: R,
         mu: R,
+        nc: NCTYPE,
     ) -> C {
         let p2 = p * p;
         let s = om * om + p2.into();
@@ -488,7 +539,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (s - en * en * 4. + om * 4. * I * en) * tl;
         let t1_opp = (s - en * en * 4. - om * 4. * I * en) * tl_opp;
-        -(p2 * en * (nc() as R) * 2. * PI2).inv()
+        -(p2 * en * (nc as R) * 2. * PI2).inv()
             * fermi_distribution_double(en, beta, mu)
             * s
             * q
@@ -504,6 +555,7 @@ pub(crate) mod inlines {
         mq: R,
         beta: R,
         mu: R,
+        nc: NCTYPE,
     ) -> C {
         let p2 = p * p;
         let om2 = om * om;
@@ -517,7 +569,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (b - c) * tl;
         let t1_opp = (b + c) * tl_opp;
-        -fermi_distribution_double(en, beta, mu) * q2 / (p2 * en * (nc() as R) * 4. * PI2)
+        -fermi_distribution_double(en, beta, mu) * q2 / (p2 * en * (nc as R) * 4. * PI2)
             * (a - (t1 + t1_opp) / (8. * q * p))
     }
 
@@ -528,6 +580,7 @@ pub(crate) mod inlines {
         p: T2,
         mq: R,
         mu: R,
+        nc: NCTYPE,
     ) -> C {
         let p2 = p * p;
         let s = om * om + p2.into();
@@ -536,7 +589,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (s - en * en * 4. + om * 4. * I * en) * tl;
         let t1_opp = (s - en * en * 4. - om * 4. * I * en) * tl_opp;
-        -(p2 * en * (nc() as R) * 2. * PI2).inv()
+        -(p2 * en * (nc as R) * 2. * PI2).inv()
             * fermi_distribution_double_zero_temp(en, mu)
             * s
             * q
@@ -551,6 +604,7 @@ pub(crate) mod inlines {
         p: R,
         mq: R,
         mu: R,
+        nc: NCTYPE,
     ) -> C {
         let p2 = p * p;
         let om2 = om * om;
@@ -564,7 +618,7 @@ pub(crate) mod inlines {
         let tl_opp = tlog_same_mass(q, -om, p, en);
         let t1 = (b - c) * tl;
         let t1_opp = (b + c) * tl_opp;
-        -fermi_distribution_double_zero_temp(en, mu) * q2 / (p2 * en * (nc() as R) * 4. * PI2)
+        -fermi_distribution_double_zero_temp(en, mu) * q2 / (p2 * en * (nc as R) * 4. * PI2)
             * (a - (t1 + t1_opp) / (8. * q * p))
     }
 }
@@ -576,9 +630,10 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, INITIAL_MAX_ITER_INTEGRAL,
+            get_default_integration_method, matsubara_reg, nc, INITIAL_MAX_ITER_INTEGRAL,
             INITIAL_TOL_INTEGRAL,
         };
+        use crate::types::NCTYPE;
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -593,19 +648,19 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu, nc())
         }
 
         pub fn polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu, nc())
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc())
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc())
         }
 
         pub fn polarization_glue_l_thermal_part_landau_w_method(
@@ -666,6 +721,17 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_l_thermal_part_landau_w_nc(p, mq, beta, mu, nc(), integral)
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+            integral: Integral,
         ) -> R {
             integrate(
                 |t| {
@@ -676,6 +742,7 @@ pub mod zero_matsubara {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .re / (t * t)
                 },
@@ -690,6 +757,17 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_t_thermal_part_landau_w_nc(p, mq, beta, mu, nc(), integral)
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc(
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+            integral: Integral,
         ) -> R {
             integrate(
                 |t| {
@@ -700,6 +778,7 @@ pub mod zero_matsubara {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .re / (t * t)
                 },
@@ -713,6 +792,16 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_nc(p, mq, mu, nc(), integral)
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+            integral: Integral,
         ) -> R {
             if mu.abs() < mq.abs() {
                 return 0.;
@@ -725,6 +814,7 @@ pub mod zero_matsubara {
                         p,
                         mq,
                         mu,
+                        nc,
                     )
                     .re
                 },
@@ -738,6 +828,16 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> R {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_nc(p, mq, mu, nc(), integral)
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+            p: R,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+            integral: Integral,
         ) -> R {
             if mu.abs() < mq.abs() {
                 return 0.;
@@ -750,6 +850,7 @@ pub mod zero_matsubara {
                         p,
                         mq,
                         mu,
+                        nc,
                     )
                     .re
                 },
@@ -764,7 +865,7 @@ pub mod zero_matsubara {
         // default integration method to DEFAULT_TOL_INT_REPL. This does not increase
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
-        fn default_integration_method() -> Integral {
+        pub(crate) fn default_integration_method() -> Integral {
             let mut integral = get_default_integration_method();
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
@@ -808,6 +909,7 @@ pub mod zero_matsubara {
 
     pub(crate) mod ffi {
         use super::inlines;
+        use crate::consts::nc;
         use crate::{C, R};
 
         #[no_mangle]
@@ -838,7 +940,7 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, p, mq, beta, mu, nc())
         }
 
         #[no_mangle]
@@ -849,7 +951,7 @@ pub mod zero_matsubara {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, p, mq, beta, mu, nc())
         }
 
         #[no_mangle]
@@ -859,7 +961,7 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc())
         }
 
         #[no_mangle]
@@ -869,7 +971,7 @@ pub mod zero_matsubara {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, p, mq, mu, nc())
         }
     }
 
@@ -878,12 +980,12 @@ pub mod zero_matsubara {
         use crate::common::thermal::inlines::{
             fermi_distribution_double, fermi_distribution_double_zero_temp,
         };
-        use crate::consts::nc;
         use crate::low_level::oneloop::thermal::zero_matsubara::*;
         use crate::low_level::oneloop::thermal::{
             d2_j_m_i, d2_j_m_l_i, d2_j_m_t_i, d_j_m_i, d_j_m_l_i, d_j_m_t_i, j_0_i, j_0_l_i,
             j_0_t_i, j_m_i, j_m_l_i, j_m_t_i,
         };
+        use crate::types::NCTYPE;
         use crate::{C, R};
         use std::f64::consts::PI;
 
@@ -955,40 +1057,66 @@ pub mod zero_matsubara {
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let s = p * p;
             let en = energy(q, mq);
             let t1 = (en * en).mul_add(-4., s) / (4. * q * p) * tlog_same_mass(q, p);
-            -fermi_distribution_double(en, beta, mu) * q * q / (en * (nc() as R) * 2. * PI2)
+            -fermi_distribution_double(en, beta, mu) * q * q / (en * (nc as R) * 2. * PI2)
                 * (1. - t1)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_t_thermal_part_landau_i(q: R, p: R, mq: R, beta: R, mu: R) -> R {
+        pub fn polarization_quark_t_thermal_part_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let p2 = p * p;
             let q2 = q * q;
             let en = energy(q, mq);
             let t1 = 4.0f64.mul_add(q2, p2) * tlog_same_mass(q, p);
-            -fermi_distribution_double(en, beta, mu) * q2 / (en * (nc() as R) * 4. * PI2)
+            -fermi_distribution_double(en, beta, mu) * q2 / (en * (nc as R) * 4. * PI2)
                 * (1. - t1 / (4. * q * p))
         }
 
         #[inline(always)]
-        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+        pub fn polarization_quark_l_thermal_part_zero_temp_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let s = p * p;
             let en = energy(q, mq);
             let t1 = (en * en).mul_add(-4., s) / (4. * q * p) * tlog_same_mass(q, p);
-            -fermi_distribution_double_zero_temp(en, mu) * q * q / (en * (nc() as R) * 2. * PI2)
+            -fermi_distribution_double_zero_temp(en, mu) * q * q / (en * (nc as R) * 2. * PI2)
                 * (1. - t1)
         }
 
         #[inline(always)]
-        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(q: R, p: R, mq: R, mu: R) -> R {
+        pub fn polarization_quark_t_thermal_part_zero_temp_landau_i(
+            q: R,
+            p: R,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+        ) -> R {
             let p2 = p * p;
             let q2 = q * q;
             let en = energy(q, mq);
             let t1 = 4.0f64.mul_add(q2, p2) * tlog_same_mass(q, p);
-            -fermi_distribution_double_zero_temp(en, mu) * q2 / (en * (nc() as R) * 4. * PI2)
+            -fermi_distribution_double_zero_temp(en, mu) * q2 / (en * (nc as R) * 4. * PI2)
                 * (1. - t1 / (4. * q * p))
         }
     }
@@ -1000,7 +1128,8 @@ pub mod zero_momentum {
     mod native {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
-        use crate::consts::get_default_integration_method;
+        use crate::consts::{get_default_integration_method, nc};
+        use crate::types::NCTYPE;
         use crate::{Num, C, R};
         use peroxide::numerical::integral::{integrate, Integral};
 
@@ -1019,7 +1148,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc())
         }
 
         pub fn polarization_quark_t_thermal_part_landau_i<T: Num>(
@@ -1029,7 +1158,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu, nc())
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau_i<T: Num>(
@@ -1038,7 +1167,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc())
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau_i<T: Num>(
@@ -1047,7 +1176,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> T {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc())
         }
 
         pub fn polarization_glue_l_thermal_part_landau_w_method<T: Num>(
@@ -1088,6 +1217,17 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_l_thermal_part_landau_w_nc(om, mq, beta, mu, nc(), integral)
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+            integral: Integral,
         ) -> C {
             integrate(
                 |t| {
@@ -1097,6 +1237,7 @@ pub mod zero_momentum {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .into()
                         / (t * t)
@@ -1112,6 +1253,17 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_t_thermal_part_landau_w_nc(om, mq, beta, mu, nc(), integral)
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            beta: R,
+            mu: R,
+            nc: NCTYPE,
+            integral: Integral,
         ) -> C {
             integrate(
                 |t| {
@@ -1121,6 +1273,7 @@ pub mod zero_momentum {
                         mq,
                         beta,
                         mu,
+                        nc,
                     )
                     .into()
                         / (t * t)
@@ -1135,13 +1288,23 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_l_thermal_part_zero_temp_landau_w_nc(om, mq, mu, nc(), integral)
+        }
+
+        pub(crate) fn polarization_quark_l_thermal_part_zero_temp_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+            integral: Integral,
         ) -> C {
             if mu.abs() < mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
                 |q| {
-                    inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+                    inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
                         .into()
                 },
                 (0., fermi_momentum(mq, mu)),
@@ -1154,13 +1317,23 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
             integral: Integral,
+        ) -> C {
+            polarization_quark_t_thermal_part_zero_temp_landau_w_nc(om, mq, mu, nc(), integral)
+        }
+
+        pub(crate) fn polarization_quark_t_thermal_part_zero_temp_landau_w_nc<T: Num>(
+            om: T,
+            mq: R,
+            mu: R,
+            nc: NCTYPE,
+            integral: Integral,
         ) -> C {
             if mu.abs() < mq.abs() {
                 return C::new(0., 0.);
             };
             integrate(
                 |q| {
-                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
                         .into()
                 },
                 (0., fermi_momentum(mq, mu)),
@@ -1235,6 +1408,7 @@ pub mod zero_momentum {
 
     pub(crate) mod ffi {
         use super::inlines;
+        use crate::consts::nc;
         use crate::{C, R};
 
         #[no_mangle]
@@ -1265,7 +1439,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc())
         }
 
         #[no_mangle]
@@ -1276,7 +1450,7 @@ pub mod zero_momentum {
             beta: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu)
+            inlines::polarization_quark_t_thermal_part_landau_i(q, om, mq, beta, mu, nc())
         }
 
         #[no_mangle]
@@ -1286,7 +1460,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc())
         }
 
         #[no_mangle]
@@ -1296,7 +1470,7 @@ pub mod zero_momentum {
             mq: R,
             mu: R,
         ) -> R {
-            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc())
         }
     }
 
@@ -1305,11 +1479,11 @@ pub mod zero_momentum {
         use crate::common::thermal::inlines::{
             fermi_distribution_double, fermi_distribution_double_zero_temp,
         };
-        use crate::consts::nc;
         use crate::low_level::oneloop::thermal::zero_momentum::*;
         use crate::low_level::oneloop::thermal::{
             d2_j_m_i, d2_j_m_t_i, d_j_m_i, d_j_m_t_i, j_0_i, j_0_t_i, j_m_i, j_m_t_i,
         };
+        use crate::types::NCTYPE;
         use crate::{Num, C, R};
         use std::f64::consts::PI;
 
@@ -1362,12 +1536,13 @@ pub mod zero_momentum {
             mq: R,
             beta: R,
             mu: R,
+            nc: NCTYPE,
         ) -> T {
             let en = energy(q, mq);
             let en2 = en * en;
             let q2 = q * q;
 
-            ((om * om + 4. * en2) * en * 3. * PI2 * (nc() as R)).inv()
+            ((om * om + 4. * en2) * en * 3. * PI2 * (nc as R)).inv()
                 * 2.
                 * fermi_distribution_double(en, beta, mu)
                 * q2
@@ -1381,8 +1556,9 @@ pub mod zero_momentum {
             mq: R,
             beta: R,
             mu: R,
+            nc: NCTYPE,
         ) -> T {
-            polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu)
+            polarization_quark_l_thermal_part_landau_i(q, om, mq, beta, mu, nc)
         }
 
         #[inline(always)]
@@ -1391,12 +1567,13 @@ pub mod zero_momentum {
             om: T,
             mq: R,
             mu: R,
+            nc: NCTYPE,
         ) -> T {
             let en = energy(q, mq);
             let en2 = en * en;
             let q2 = q * q;
 
-            ((om * om + 4. * en2) * en * 3. * PI2 * (nc() as R)).inv()
+            ((om * om + 4. * en2) * en * 3. * PI2 * (nc as R)).inv()
                 * 2.
                 * fermi_distribution_double_zero_temp(en, mu)
                 * q2
@@ -1409,8 +1586,9 @@ pub mod zero_momentum {
             om: T,
             mq: R,
             mu: R,
+            nc: NCTYPE,
         ) -> T {
-            polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu)
+            polarization_quark_l_thermal_part_zero_temp_landau_i(q, om, mq, mu, nc)
         }
     }
 }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 24efcff..66ea386 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -5,7 +5,7 @@ pub mod ghost {
 }
 
 pub mod gluon {
-    use crate::consts::nf;
+    use crate::consts::{get_default_integration_method, nf};
     use crate::low_level::oneloop::thermal::gluon as gluon_thermal_parts;
     use crate::qcd::gluon as gluon_vac;
     use crate::qcd::FieldConfig;
@@ -111,8 +111,14 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                    om, p, qi.mq, beta, mu,
+                gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    beta,
+                    mu,
+                    config.nc,
+                    get_default_integration_method(),
                 ) * (qi.nf as R)
             })
             .sum();
@@ -138,8 +144,14 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                    om, p, qi.mq, beta, mu,
+                gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    beta,
+                    mu,
+                    config.nc,
+                    get_default_integration_method(),
                 ) * (qi.nf as R)
             })
             .sum();
@@ -209,8 +221,13 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                    om, p, qi.mq, mu,
+                gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    mu,
+                    config.nc,
+                    get_default_integration_method(),
                 ) * (qi.nf as R)
             })
             .sum();
@@ -232,8 +249,13 @@ pub mod gluon {
             .quarks_internal
             .iter()
             .map(|qi| {
-                gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                    om, p, qi.mq, mu,
+                gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                    om,
+                    p,
+                    qi.mq,
+                    mu,
+                    config.nc,
+                    get_default_integration_method(),
                 ) * (qi.nf as R)
             })
             .sum();
@@ -473,8 +495,13 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                        p, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                        p,
+                        qi.mq,
+                        beta,
+                        mu,
+                        config.nc,
+                        gluon_thermal_parts::default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -499,8 +526,13 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                        p, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                        p,
+                        qi.mq,
+                        beta,
+                        mu,
+                        config.nc,
+                        gluon_thermal_parts::default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -563,8 +595,12 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                        p, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                        p,
+                        qi.mq,
+                        mu,
+                        config.nc,
+                        gluon_thermal_parts::default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -584,8 +620,12 @@ pub mod zero_matsubara {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                        p, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                        p,
+                        qi.mq,
+                        mu,
+                        config.nc,
+                        gluon_thermal_parts::default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -639,7 +679,7 @@ pub mod zero_momentum {
     }
 
     pub mod gluon {
-        use crate::consts::nf;
+        use crate::consts::{get_default_integration_method, nf};
         use crate::low_level::oneloop::thermal::gluon::zero_momentum as gluon_thermal_parts;
         use crate::qcd::gluon as gluon_vac;
         use crate::qcd::FieldConfig;
@@ -744,8 +784,13 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
-                        om, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
+                        om,
+                        qi.mq,
+                        beta,
+                        mu,
+                        config.nc,
+                        get_default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -770,8 +815,13 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau(
-                        om, qi.mq, beta, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
+                        om,
+                        qi.mq,
+                        beta,
+                        mu,
+                        config.nc,
+                        get_default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -835,8 +885,12 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
-                        om, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
+                        om,
+                        qi.mq,
+                        mu,
+                        config.nc,
+                        get_default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
@@ -857,8 +911,12 @@ pub mod zero_momentum {
                 .quarks_internal
                 .iter()
                 .map(|qi| {
-                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau(
-                        om, qi.mq, mu,
+                    gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
+                        om,
+                        qi.mq,
+                        mu,
+                        config.nc,
+                        get_default_integration_method(),
                     ) * (qi.nf as R)
                 })
                 .sum();
-- 
2.43.0


From 30460c13db82a1c4460f66207843f645934bb1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 3/7] fix: make edits of a FieldConfig take effect

The public fields could be changed while the derived data cached at
construction, which the evaluations use, stayed the same.
---
 qcd-sme/src/qcd/gluon.rs   |  8 ++++----
 qcd-sme/src/qcd/thermal.rs | 36 ++++++++++++------------------------
 qcd-sme/src/qcd/types.rs   | 19 ++++++++-----------
 3 files changed, 24 insertions(+), 39 deletions(-)

diff --git a/qcd-sme/src/qcd/gluon.rs b/qcd-sme/src/qcd/gluon.rs
index 11d6a28..7996602 100644
--- a/qcd-sme/src/qcd/gluon.rs
+++ b/qcd-sme/src/qcd/gluon.rs
@@ -357,7 +357,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -370,7 +370,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q(s_q) * qi.nf_div_nc;
         }
@@ -407,7 +407,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
@@ -425,7 +425,7 @@ pub(crate) mod inlines {
         let ln_s = s.ln();
         let ln_s_pl_1 = s_pl_1.ln();
         let mut res = ym_dressing_inv_sep(s, ln_s, ln_s_pl_1, f0, xi);
-        for qi in &config.quarks_internal {
+        for qi in config.quarks_internal() {
             let s_q = s / qi.mq_div_m_2;
             res += f_q_crossed(s_q) * qi.nf_div_nc;
         }
diff --git a/qcd-sme/src/qcd/thermal.rs b/qcd-sme/src/qcd/thermal.rs
index 66ea386..7a0a886 100644
--- a/qcd-sme/src/qcd/thermal.rs
+++ b/qcd-sme/src/qcd/thermal.rs
@@ -108,8 +108,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
                     om,
@@ -141,8 +140,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
                     om,
@@ -218,8 +216,7 @@ pub mod gluon {
         let sdim = om * om + (p * p).into();
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
                     om,
@@ -246,8 +243,7 @@ pub mod gluon {
         let sdim = om * om + p * p;
         let s = sdim / (m * m);
         let quark_contribution: C = config
-            .quarks_internal
-            .iter()
+            .quarks_internal()
             .map(|qi| {
                 gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
                     om,
@@ -492,8 +488,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
                         p,
@@ -523,8 +518,7 @@ pub mod zero_matsubara {
             let sdim = p * p;
             let s = sdim / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
                         p,
@@ -592,8 +586,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
                         p,
@@ -617,8 +610,7 @@ pub mod zero_matsubara {
             let m = config.gluon;
             let s = p * p / (m * m);
             let quark_contribution: R = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
                         p,
@@ -781,8 +773,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_landau_w_nc(
                         om,
@@ -812,8 +803,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_landau_w_nc(
                         om,
@@ -882,8 +872,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau_w_nc(
                         om,
@@ -908,8 +897,7 @@ pub mod zero_momentum {
             let sdim = om * om;
             let s = sdim / (m * m);
             let quark_contribution: C = config
-                .quarks_internal
-                .iter()
+                .quarks_internal()
                 .map(|qi| {
                     gluon_thermal_parts::polarization_quark_t_thermal_part_zero_temp_landau_w_nc(
                         om,
diff --git a/qcd-sme/src/qcd/types.rs b/qcd-sme/src/qcd/types.rs
index c012499..6db7476 100644
--- a/qcd-sme/src/qcd/types.rs
+++ b/qcd-sme/src/qcd/types.rs
@@ -11,22 +11,19 @@ pub struct FieldConfig {
     /// Quark mass configuration: number of quarks (`quarks[i].0`) with a given
     /// mass parameter (`quarks[i].1`).
     pub quarks: Vec<(NFTYPE, R)>,
-    // (nf, mq, nf/nc, mq/m)
-    pub(crate) quarks_internal: Vec<QuarkInternal>,
 }
 
 impl FieldConfig {
     pub fn new(nc: NCTYPE, gluon: R, quarks: Vec<(NFTYPE, R)>) -> Self {
-        let quarks_internal = quarks
+        Self { nc, gluon, quarks }
+    }
+
+    // (nf, mq, nf/nc, mq/m). The fields are public, so this must be computed anew
+    // each time for it to be consistent with their current values.
+    pub(crate) fn quarks_internal(&self) -> impl Iterator<Item = QuarkInternal> + '_ {
+        self.quarks
             .iter()
-            .map(|&(nf, mq)| QuarkInternal::new(nc, gluon, nf, mq))
-            .collect();
-        Self {
-            nc,
-            gluon,
-            quarks,
-            quarks_internal,
-        }
+            .map(|&(nf, mq)| QuarkInternal::new(self.nc, self.gluon, nf, mq))
     }
 }
 
-- 
2.43.0


From 0f3c26b6266861fae870ea7bbb13b5a198405605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 4/7] fix: flush output files explicitly so that write errors
 are not lost

Dropping a BufWriter discards the error of its final flush: on a full or
failing disk the programs exited successfully with empty or truncated
configuration, data, phase diagram, fit and critical temperature files.
---
 tc_long_prop/src/bin/one_mass_overall.rs   |  4 ++++
 tc_long_prop/src/bin/physical_tc.rs        | 23 ++++++++++++++++++++--
 tc_long_prop/src/bin/two_masses_overall.rs |  4 ++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/tc_long_prop/src/bin/one_mass_overall.rs b/tc_long_prop/src/bin/one_mass_overall.rs
index d595f41..7b9d95c 100644
--- a/tc_long_prop/src/bin/one_mass_overall.rs
+++ b/tc_long_prop/src/bin/one_mass_overall.rs
@@ -280,4 +280,8 @@ fn main() {
             plot.savefig().expect("Could not save figure");
         }
     }
+
+    critfile
+        .flush()
+        .unwrap_or_else(|_| panic!("Could not write to {}", critfilepath.to_string_lossy()));
 }
diff --git a/tc_long_prop/src/bin/physical_tc.rs b/tc_long_prop/src/bin/physical_tc.rs
index 64ccb89..9c06a8e 100644
--- a/tc_long_prop/src/bin/physical_tc.rs
+++ b/tc_long_prop/src/bin/physical_tc.rs
@@ -246,6 +246,9 @@ fn compute_propagators(config: &Config) {
                 writeln!(outfile, "{p}\t{d}")
                     .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
             });
+        outfile
+            .flush()
+            .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
         plot.insert_image(propvals);
 
         config
@@ -286,6 +289,9 @@ fn compute_propagators(config: &Config) {
                         writeln!(outfile, "{p}\t{d}")
                             .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
                     });
+                outfile
+                    .flush()
+                    .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
                 propvals
             })
             .for_each(|vals: Vec<R>| {
@@ -357,6 +363,9 @@ fn compute_transverse_propagators(config: &Config) {
                 writeln!(outfile, "{p}\t{d}")
                     .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
             });
+        outfile
+            .flush()
+            .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
         plot.insert_image(propvals);
 
         config
@@ -397,6 +406,9 @@ fn compute_transverse_propagators(config: &Config) {
                         writeln!(outfile, "{p}\t{d}")
                             .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
                     });
+                outfile
+                    .flush()
+                    .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
                 propvals
             })
             .for_each(|vals: Vec<R>| {
@@ -517,6 +529,7 @@ fn compute_phase_diagram(config: &Config) -> Vec<(R, R)> {
     for (mu, tc) in config.chempots().iter().zip(&tcs) {
         writeln!(outfile, "{mu:.4}\t{tc:.4}").expect("Could not write value to file");
     }
+    outfile.flush().expect("Could not write value to file");
 
     let mut outfile = BufWriter::new(
         fs::File::create(THIS_BASEDIR.join(format!("tcd2_{filename}.out")))
@@ -526,6 +539,7 @@ fn compute_phase_diagram(config: &Config) -> Vec<(R, R)> {
     for (mu, tcd2) in &tcsd2 {
         writeln!(outfile, "{mu}\t{tcd2}").expect("Could not write value to file");
     }
+    outfile.flush().expect("Could not write value to file");
 
     // Plot critical temperature and second derivative
     let mut plot = Plot2D::new();
@@ -652,11 +666,15 @@ fn main() {
     };
 
     fs::create_dir_all(THIS_BASEDIR.as_path()).expect("could not create base directory");
-    let outconfigfile = BufWriter::new(
+    let mut outconfigfile = BufWriter::new(
         fs::File::create(THIS_BASEDIR.join("config.yml"))
             .expect("could not create configuration file"),
     );
-    serde_yml::to_writer(outconfigfile, &inputdata).expect("could not write to configuration file");
+    serde_yml::to_writer(&mut outconfigfile, &inputdata)
+        .expect("could not write to configuration file");
+    outconfigfile
+        .flush()
+        .expect("could not write to configuration file");
 
     /* NF = 2 + 1 */
     let fieldconfig = FieldConfig::new(3, m, vec![(2, mq1), (1, mq2)]);
@@ -723,6 +741,7 @@ fn main() {
             .expect("Could not create parameter file"),
     );
     writeln!(outfile, "{phase_boundary_params:?}").expect("Could not write to parameter file");
+    outfile.flush().expect("Could not write to parameter file");
 
     info!("*** COMPUTING CORRECTED PROPAGATORS AT NF = 2 + 1 ***");
     config.set_temperatures(fewtemps);
diff --git a/tc_long_prop/src/bin/two_masses_overall.rs b/tc_long_prop/src/bin/two_masses_overall.rs
index b2deb64..18f2819 100644
--- a/tc_long_prop/src/bin/two_masses_overall.rs
+++ b/tc_long_prop/src/bin/two_masses_overall.rs
@@ -293,4 +293,8 @@ fn main() {
             plot.savefig().expect("Could not save figure");
         }
     }
+
+    critfile
+        .flush()
+        .unwrap_or_else(|_| panic!("Could not write to {}", critfilepath.to_string_lossy()));
 }
-- 
2.43.0


From 33176fec7edd3ef69ee87dbe5c2f760be8c5bba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:09 +0000
Subject: [PATCH 5/7] fix: do not ignore a configuration file that cannot be
 opened

Any error opening the configuration file (permissions, too many open files,
I/O errors) made physical_tc silently compute with the built-in values; only
a missing file means that the defaults are to be used.
---
 tc_long_prop/src/bin/physical_tc.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tc_long_prop/src/bin/physical_tc.rs b/tc_long_prop/src/bin/physical_tc.rs
index 9c06a8e..ff7e838 100644
--- a/tc_long_prop/src/bin/physical_tc.rs
+++ b/tc_long_prop/src/bin/physical_tc.rs
@@ -625,7 +625,13 @@ fn main() {
 
     // Read and store configuration
     let configfilename = std::env::args().nth(1).unwrap_or("config.yml".to_string());
-    if let Ok(configfile) = fs::File::open(&configfilename) {
+    let configfile = match fs::File::open(&configfilename) {
+        Ok(configfile) => Some(configfile),
+        // Use the default configuration only if there is no configuration file
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => None,
+        Err(err) => panic!("could not open {configfilename}: {err}"),
+    };
+    if let Some(configfile) = configfile {
         let inputdata: InputData =
             serde_yml::from_reader(configfile).expect("could not deserialize input data");
         info!(
-- 
2.43.0


From 1deb657e54178f316fb209f266481328ff7c69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 6/7] hook: coarse grids for simulated runs of the scan
 programs (cfg qcd_sme_sim)

---
 tc_long_prop/src/bin/one_mass_overall.rs   | 9 +++++++++
 tc_long_prop/src/bin/two_masses_overall.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/tc_long_prop/src/bin/one_mass_overall.rs b/tc_long_prop/src/bin/one_mass_overall.rs
index 7b9d95c..bcdc4f7 100644
--- a/tc_long_prop/src/bin/one_mass_overall.rs
+++ b/tc_long_prop/src/bin/one_mass_overall.rs
@@ -1,3 +1,6 @@
+// Guard of the coarse grids used when the program runs under a simulator
+#![allow(unexpected_cfgs)]
+
 use std::fs;
 use std::io::{BufWriter, Write};
 use tc_long_prop::one_mass::*;
@@ -7,6 +10,8 @@ fn main() {
     /* SETTINGS */
     // In units of m
     let (pmin, pmax, dp) = (0.01, 3., 0.01);
+    #[cfg(qcd_sme_sim)]
+    let dp = dp * 100.;
 
     // All but f0 in GeV
     let m = 0.656;
@@ -97,6 +102,8 @@ fn main() {
     /* LONGITUDINAL PROPAGATOR AT SMALL MOMENTUM AS A FUNCTION OF TEMPERATURE */
     let pbase = pmin;
     let (tmin, tmax, dt) = (0.01, 0.2, 0.005);
+    #[cfg(qcd_sme_sim)]
+    let dt = dt * 8.;
     let trange = tmax - tmin;
     let n = (trange / dt) as usize;
     let tdomain: Vec<R> = (0..=n).map(|k| tmin + dt * (k as R)).collect();
@@ -207,6 +214,8 @@ fn main() {
         AT FIXED MQ AND NF, MULTIPLE CHEMICAL POTENTIALS */
         let pbase = pmin;
         let (tmin, tmax, dt) = (0.01, 0.2, 0.005);
+        #[cfg(qcd_sme_sim)]
+        let dt = dt * 8.;
         let trange = tmax - tmin;
         let n = (trange / dt) as usize;
         let tdomain: Vec<R> = (0..=n).map(|k| tmin + dt * (k as R)).collect();
diff --git a/tc_long_prop/src/bin/two_masses_overall.rs b/tc_long_prop/src/bin/two_masses_overall.rs
index 18f2819..9b29405 100644
--- a/tc_long_prop/src/bin/two_masses_overall.rs
+++ b/tc_long_prop/src/bin/two_masses_overall.rs
@@ -1,3 +1,6 @@
+// Guard of the coarse grids used when the program runs under a simulator
+#![allow(unexpected_cfgs)]
+
 use qcd_sme::qcd::FieldConfig;
 use std::fs;
 use std::io::{BufWriter, Write};
@@ -8,6 +11,8 @@ fn main() {
     /* SETTINGS */
     // In units of m
     let (pmin, pmax, dp) = (0.01, 3., 0.01);
+    #[cfg(qcd_sme_sim)]
+    let dp = dp * 100.;
 
     // All but f0 and nc in GeV
     let m = 0.656;
@@ -101,6 +106,8 @@ fn main() {
     /* LONGITUDINAL PROPAGATOR AT SMALL MOMENTUM AS A FUNCTION OF TEMPERATURE */
     let pbase = pmin;
     let (tmin, tmax, dt) = (0.01, 0.2, 0.005);
+    #[cfg(qcd_sme_sim)]
+    let dt = dt * 8.;
     let trange = tmax - tmin;
     let n = (trange / dt) as usize;
     let tdomain: Vec<R> = (0..=n).map(|k| tmin + dt * (k as R)).collect();
@@ -214,6 +221,8 @@ fn main() {
         AT FIXED MQ AND NF, MULTIPLE CHEMICAL POTENTIALS */
         let pbase = pmin;
         let (tmin, tmax, dt) = (0.01, 0.2, 0.005);
+        #[cfg(qcd_sme_sim)]
+        let dt = dt * 8.;
         let trange = tmax - tmin;
         let n = (trange / dt) as usize;
         let tdomain: Vec<R> = (0..=n).map(|k| tmin + dt * (k as R)).collect();
-- 
2.43.0


From b0ad28e6ab632adfe07f3ac13c409ceee31bd43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:17 +0000
Subject: [PATCH 7/7] fix: a configuration without a canonical or UTF-8 path
 aborted the run, but only if info messages were logged

The path is only printed; resolving it must not decide whether the program runs
(e.g. a configuration read from a pipe, or a working directory whose name is not
valid UTF-8).
---
 tc_long_prop/src/bin/physical_tc.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tc_long_prop/src/bin/physical_tc.rs b/tc_long_prop/src/bin/physical_tc.rs
index ff7e838..874daa3 100644
--- a/tc_long_prop/src/bin/physical_tc.rs
+++ b/tc_long_prop/src/bin/physical_tc.rs
@@ -636,10 +636,10 @@ fn main() {
             serde_yml::from_reader(configfile).expect("could not deserialize input data");
         info!(
             "Using configuration file {}",
-            std::fs::canonicalize(&configfilename)
-                .unwrap()
-                .to_str()
-                .unwrap()
+            // For the log only: not every readable file has a canonical, printable path
+            fs::canonicalize(&configfilename)
+                .unwrap_or_else(|_| PathBuf::from(&configfilename))
+                .display()
         );
         (m, om, renpoint) = (inputdata.mg, inputdata.om, inputdata.renpoint);
         (mq1, mq2, mq3) = inputdata.mq;
-- 
2.43.0

