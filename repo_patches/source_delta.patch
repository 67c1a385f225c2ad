From e13168fadd854d4e71c677ad6785ce31169fbe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 1/3] fix: honour a customised integration tolerance in the
 zero-Matsubara polarizations

The default-method functions were meant to raise the tolerance only when the user did not
customise it, but compared the current settings with themselves.
---
 qcd-sme/src/consts.rs                         | 10 +++++--
 .../src/low_level/oneloop/thermal/gluon.rs    | 27 ++++++++++---------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/qcd-sme/src/consts.rs b/qcd-sme/src/consts.rs
index a747912..7c635f7 100644
--- a/qcd-sme/src/consts.rs
+++ b/qcd-sme/src/consts.rs
@@ -97,8 +97,11 @@ pub(crate) fn m_quark() -> R {
     unsafe { M_QUARK }
 }
 
+// The initial value of the default tolerance for numerical integrals.
+pub(crate) const DEFAULT_TOL_INTEGRAL: R = 1E-10;
+
 /// The default tolerance for numerical integrals.
-static mut TOL_INTEGRAL: R = 1E-10;
+static mut TOL_INTEGRAL: R = DEFAULT_TOL_INTEGRAL;
 
 /// Get the default tolerance for numerical integrals. Equals `1E-10` if never
 /// changed.
@@ -126,8 +129,11 @@ pub(crate) fn tol_integral() -> R {
     unsafe { TOL_INTEGRAL }
 }
 
+// The initial value of the default maximum number of iterations for numerical integrals.
+pub(crate) const DEFAULT_MAX_ITER_INTEGRAL: u32 = 50;
+
 /// The default maximum number of iterations for numerical integrals.
-static mut MAX_ITER_INTEGRAL: u32 = 50;
+static mut MAX_ITER_INTEGRAL: u32 = DEFAULT_MAX_ITER_INTEGRAL;
 
 /// Get the default maximum number of iterations for numerical integrals.
 /// Equals `50` if never changed.
diff --git a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
index fe9890b..7f921d7 100644
--- a/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
+++ b/qcd-sme/src/low_level/oneloop/thermal/gluon.rs
@@ -576,7 +576,8 @@ pub mod zero_matsubara {
         use super::inlines;
         use crate::common::thermal::inlines::fermi_momentum;
         use crate::consts::{
-            get_default_integration_method, matsubara_reg, max_iter_integral, tol_integral,
+            get_default_integration_method, matsubara_reg, DEFAULT_MAX_ITER_INTEGRAL,
+            DEFAULT_TOL_INTEGRAL,
         };
         use crate::{C, R};
         use peroxide::numerical::integral::{integrate, Integral};
@@ -764,10 +765,10 @@ pub mod zero_matsubara {
         // the error meaningfully, since the error due to EPS being non zero is larger
         // by at least two orders of magnitude (given the defaults at the time of writing).
         pub fn polarization_glue_l_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -775,10 +776,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_glue_t_thermal_part_landau(p: R, m: R, beta: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -786,10 +787,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -797,10 +798,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_landau(p: R, mq: R, beta: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -808,10 +809,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_l_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
@@ -819,10 +820,10 @@ pub mod zero_matsubara {
         }
 
         pub fn polarization_quark_t_thermal_part_zero_temp_landau(p: R, mq: R, mu: R) -> R {
-            let (mut integral, dti) = (get_default_integration_method(), tol_integral());
+            let (mut integral, dti) = (get_default_integration_method(), DEFAULT_TOL_INTEGRAL);
             if let crate::Integral::G7K15(ti, mi) = integral {
                 #[allow(clippy::float_cmp)]
-                if ti == dti && mi == max_iter_integral() {
+                if ti == dti && mi == DEFAULT_MAX_ITER_INTEGRAL {
                     integral = crate::Integral::G7K15(DEFAULT_TOL_INT_REPL, mi);
                 }
             }
-- 
2.43.0


From bed7bd86e127e978ac222a78dbaf4b2e38f70d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 2/3] fix: a point on a flat stretch of the phase boundary is
 not deconfined

is_deconfined_phase compared chemical potentials as soon as the temperature of
a boundary point equalled the given one. Neighbouring points often share their
critical temperature (it is taken from a grid), and a point lying exactly on
such a flat stretch was reported as deconfined, although the boundary belongs
to the confined phase.
---
 tc_long_prop/src/lib.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tc_long_prop/src/lib.rs b/tc_long_prop/src/lib.rs
index 514948f..3c3bf4d 100644
--- a/tc_long_prop/src/lib.rs
+++ b/tc_long_prop/src/lib.rs
@@ -159,16 +159,13 @@ pub fn is_deconfined_phase(mu: R, t: R, phase_boundary: &[(R, R)]) -> bool {
     }
 
     // We scan from lower to higher chemical potentials. If the chemical
-    // potentials match we compare temperatures, if the temperatures match
-    // we compare chemical potentials. Otherwise we interpolate (read below
-    // and compare temperatures.
+    // potentials match we compare temperatures, otherwise we interpolate
+    // (read below) and compare temperatures. A matching temperature alone
+    // decides nothing: the boundary can be flat between two points.
     for (i, (mmu, tt)) in phase_boundary.iter().enumerate() {
         if *mmu == mu {
             return t > *tt;
         }
-        if *tt == t {
-            return mu > *mmu;
-        }
         if *mmu > mu {
             // mmu is the smallest chemical potential in our set greater than mu,
             // therefore mu0 must be the largest chemical potential in our set less
-- 
2.43.0


From eae69b57c227442b3084181e02136ed25950867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 3/3] fix: report a failure to write the buffered output of the
 phase-diagram programs

---
 tc_long_prop/src/bin/one_mass_overall.rs   |  3 +++
 tc_long_prop/src/bin/physical_tc.rs        | 19 +++++++++++++++++--
 tc_long_prop/src/bin/two_masses_overall.rs |  3 +++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/tc_long_prop/src/bin/one_mass_overall.rs b/tc_long_prop/src/bin/one_mass_overall.rs
index d595f41..8e26e92 100644
--- a/tc_long_prop/src/bin/one_mass_overall.rs
+++ b/tc_long_prop/src/bin/one_mass_overall.rs
@@ -280,4 +280,7 @@ fn main() {
             plot.savefig().expect("Could not save figure");
         }
     }
+    critfile
+        .flush()
+        .unwrap_or_else(|_| panic!("Could not write to {}", critfilepath.to_string_lossy()));
 }
diff --git a/tc_long_prop/src/bin/physical_tc.rs b/tc_long_prop/src/bin/physical_tc.rs
index 64ccb89..63d5670 100644
--- a/tc_long_prop/src/bin/physical_tc.rs
+++ b/tc_long_prop/src/bin/physical_tc.rs
@@ -246,6 +246,9 @@ fn compute_propagators(config: &Config) {
                 writeln!(outfile, "{p}\t{d}")
                     .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
             });
+        outfile
+            .flush()
+            .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
         plot.insert_image(propvals);
 
         config
@@ -286,6 +289,7 @@ fn compute_propagators(config: &Config) {
                         writeln!(outfile, "{p}\t{d}")
                             .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
                     });
+                outfile.flush().unwrap_or_else(|_| panic!("could not write to {outfilename}"));
                 propvals
             })
             .for_each(|vals: Vec<R>| {
@@ -357,6 +361,9 @@ fn compute_transverse_propagators(config: &Config) {
                 writeln!(outfile, "{p}\t{d}")
                     .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
             });
+        outfile
+            .flush()
+            .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
         plot.insert_image(propvals);
 
         config
@@ -397,6 +404,7 @@ fn compute_transverse_propagators(config: &Config) {
                         writeln!(outfile, "{p}\t{d}")
                             .unwrap_or_else(|_| panic!("could not write to {outfilename}"));
                     });
+                outfile.flush().unwrap_or_else(|_| panic!("could not write to {outfilename}"));
                 propvals
             })
             .for_each(|vals: Vec<R>| {
@@ -517,6 +525,7 @@ fn compute_phase_diagram(config: &Config) -> Vec<(R, R)> {
     for (mu, tc) in config.chempots().iter().zip(&tcs) {
         writeln!(outfile, "{mu:.4}\t{tc:.4}").expect("Could not write value to file");
     }
+    outfile.flush().expect("Could not write value to file");
 
     let mut outfile = BufWriter::new(
         fs::File::create(THIS_BASEDIR.join(format!("tcd2_{filename}.out")))
@@ -526,6 +535,7 @@ fn compute_phase_diagram(config: &Config) -> Vec<(R, R)> {
     for (mu, tcd2) in &tcsd2 {
         writeln!(outfile, "{mu}\t{tcd2}").expect("Could not write value to file");
     }
+    outfile.flush().expect("Could not write value to file");
 
     // Plot critical temperature and second derivative
     let mut plot = Plot2D::new();
@@ -652,11 +662,15 @@ fn main() {
     };
 
     fs::create_dir_all(THIS_BASEDIR.as_path()).expect("could not create base directory");
-    let outconfigfile = BufWriter::new(
+    let mut outconfigfile = BufWriter::new(
         fs::File::create(THIS_BASEDIR.join("config.yml"))
             .expect("could not create configuration file"),
     );
-    serde_yml::to_writer(outconfigfile, &inputdata).expect("could not write to configuration file");
+    serde_yml::to_writer(&mut outconfigfile, &inputdata)
+        .expect("could not write to configuration file");
+    outconfigfile
+        .flush()
+        .expect("could not write to configuration file");
 
     /* NF = 2 + 1 */
     let fieldconfig = FieldConfig::new(3, m, vec![(2, mq1), (1, mq2)]);
@@ -723,6 +737,7 @@ fn main() {
             .expect("Could not create parameter file"),
     );
     writeln!(outfile, "{phase_boundary_params:?}").expect("Could not write to parameter file");
+    outfile.flush().expect("Could not write to parameter file");
 
     info!("*** COMPUTING CORRECTED PROPAGATORS AT NF = 2 + 1 ***");
     config.set_temperatures(fewtemps);
diff --git a/tc_long_prop/src/bin/two_masses_overall.rs b/tc_long_prop/src/bin/two_masses_overall.rs
index b2deb64..17bd82c 100644
--- a/tc_long_prop/src/bin/two_masses_overall.rs
+++ b/tc_long_prop/src/bin/two_masses_overall.rs
@@ -293,4 +293,7 @@ fn main() {
             plot.savefig().expect("Could not save figure");
         }
     }
+    critfile
+        .flush()
+        .unwrap_or_else(|_| panic!("Could not write to {}", critfilepath.to_string_lossy()));
 }
-- 
2.43.0

