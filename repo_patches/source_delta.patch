From 9b01aac9dd701498f02d63c186dcd807be097919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 01/20] fix: read the Butcher matrix row of the current stage
 in Runge-Kutta steps

The stage loop read a[[p, q]] with p < q, which is the (all zero) upper
triangle, so that every stage was evaluated at the old state and every
scheme degraded to a forward Euler step.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5055d85..33f119e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -163,7 +163,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
             for p in 0..q {
                 // PERF: This was benchmarked against using a raw index loop; performance diffs
                 // were within the error margins
-                self.utilde.cent.cons -= &(dt_out * self.bt.a[[p, q]] * &self.k_bundle.index_axis(Axis(0), p));
+                self.utilde.cent.cons -= &(dt_out * self.bt.a[[q, p]] * &self.k_bundle.index_axis(Axis(0), p));
             }
             rhs.update(&mut self.utilde, mesh)
                 .context("Calling rhs.update while calculating k_bundle in RungeKuttaFehlberg::calc_rkf_solution")?;
-- 
2.43.0


From 50d377601f69e1743a1aabb4f1fe0e9e3dc18e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 02/20] fix: guard the VanLeer limiter with the smallest
 positive float

f64::MIN is the most negative finite float (about -1.8e308), so the slope
was always (minus) zero and the reconstruction only first order.
---
 src/rhs/numflux/kt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index a39499b..1e180f3 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -256,7 +256,7 @@ impl<const E: usize, const S: usize> Kt<E, S> {
             LimiterMode::VanLeer => |a: f64, b: f64, _: f64, _: f64| {
                 let abs_a = a.abs();
                 let abs_b = b.abs();
-                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN)
+                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN_POSITIVE)
             },
         };
         for j in 0..E {
-- 
2.43.0


From 1a69a7c124391b21318b004259d9b1a7d4602767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 03/20] fix: check density and pressure when validating a state

Physics::validate was never called, so a step that produced a non-positive
density or pressure was accepted and written as regular output.
---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index 3d3809e..dd3551d 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -647,6 +647,7 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
 impl<P: Physics<E, S>, const E: usize, const S: usize> Validation for State<P, E, S> {
     fn validate(&self) -> Result<()> {
         self.cent.validate()?;
+        P::validate(&self.cent)?;
         Ok(())
     }
 }
-- 
2.43.0


From 0cc5ff97661155a5a6865a4e671ac1333a566b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:50 +0000
Subject: [PATCH 04/20] fix: truncate output and metadata files that an earlier
 run left behind

Without truncation a shorter file only overwrites the head of the old one,
and the tail of the old contents stays behind as part of the new output.
---
 src/writer/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index f32c762..d7ed573 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -184,6 +184,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(!self.first_output)
+                            .truncate(self.first_output)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -198,6 +199,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(false)
+                            .truncate(true)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -271,6 +273,7 @@ impl Output {
                     let mut file = File::options()
                         .write(true)
                         .append(false)
+                        .truncate(true)
                         .create(true)
                         .open(path)
                         .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
-- 
2.43.0


From bbcc415fcfb3d2bb4e9c2bd20b95e7c6041d728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:21 +0000
Subject: [PATCH 05/20] fix: end simulations and their last output exactly at
 t_end

The output times are summed up, and steps were only capped at the next
output time.  When the rounding errors of that sum exceed dt_min (long
simulations) or a step ends just short of the last output, the simulation
either ran past t_end by a whole CFL step or lost its last output.
---
 src/components.rs    |  2 +-
 src/time/timestep.rs | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/components.rs b/src/components.rs
index c0dd7f7..61d9902 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -72,7 +72,7 @@ where
         let (ref mut u, ref mut solver, ref mesh, ref mut writer) = *self;
         loop {
             if solver.timestep.t >= solver.timestep.t_next_output - solver.timestep.dt_min {
-                solver.timestep.t_next_output += solver.timestep.dt_output;
+                solver.timestep.advance_t_next_output();
                 writer
                     .update_data(&u.cent, &solver.timestep, mesh)
                     .context("Calling writer.update_data_matrices in run_corries")?;
diff --git a/src/time/timestep.rs b/src/time/timestep.rs
index ac7136b..5242d4e 100644
--- a/src/time/timestep.rs
+++ b/src/time/timestep.rs
@@ -153,6 +153,20 @@ impl TimeStep {
         if (self.dt + self.t) / self.t_next_output > 1.0 {
             self.dt = self.t_next_output - self.t;
         }
+        if self.dt + self.t > self.t_end {
+            self.dt = self.t_end - self.t;
+        }
+    }
+
+    /// Schedules the next output.
+    ///
+    /// The last output belongs to the end of the simulation, so the rounding errors that pile up
+    /// while adding `self.dt_output` over and over again may not move it away from `self.t_end`.
+    pub fn advance_t_next_output(&mut self) {
+        self.t_next_output += self.dt_output;
+        if (self.t_end - self.t_next_output).abs() < 0.5 * self.dt_output {
+            self.t_next_output = self.t_end;
+        }
     }
 }
 
-- 
2.43.0


From d504470e71b67d11fb61f7966627e96e4995a3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:21 +0000
Subject: [PATCH 06/20] fix: keep the time step when the embedded error
 vanishes

With err_new = 0 after an err_old > 0 the PI controller evaluated
exp(-ln(err_old / 0)) = 0, so the step was accepted with dt = 0 and did
not advance the simulation.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 33f119e..880876b 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -209,7 +209,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 // PI-Controller step: Controlled increase or decrease of the time step based on the error of the
                 // previous try-out. If the error was also > 0 in the last try-out, reduce it further and save
                 // in dt_new. Otherwise, leave it as is and save in dt_new.
-                let mut dt_new = if self.err_old > 0.0 {
+                let mut dt_new = if self.err_old > 0.0 && self.err_new > 0.0 {
                     dt_temp * (-1.0 * self.asc_timestep_friction * (self.err_old / self.err_new).ln()).exp()
                 } else {
                     dt_temp
-- 
2.43.0


From b0c39604cb0b5ff11c340f688119a7dbe26f366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:21 +0000
Subject: [PATCH 07/20] fix: honour dt_min in automated step control

The loop that shrinks the time step until the embedded error fits the
tolerance had no lower limit, so that dt could dip below dt_min, down to
zero, and the loop never end.
---
 src/time/rkf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 880876b..14f884e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -11,7 +11,7 @@ use crate::{
     TimeIntegrationConfig,
 };
 use color_eyre::{
-    eyre::{ensure, Context},
+    eyre::{bail, ensure, Context},
     Result,
 };
 use ndarray::{s, Array2, Array3, Axis, Zip};
@@ -116,6 +116,12 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
                 if self.err_new < 1.0 {
                     time.cap_dt();
                     self.solution_accepted = true;
+                } else if time.dt < time.dt_min {
+                    bail!(
+                        "Time step width dt dipped below dt_min during automated step control! Got dt = {}, dt_min = {}",
+                        time.dt,
+                        time.dt_min
+                    );
                 }
                 self.n_asc += 1;
             }
-- 
2.43.0


From 2e499330a8f5e04e98b648c14872b26cc85265a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:21 +0000
Subject: [PATCH 08/20] fix: keep stdout locked while writing an output record

The outputs are written in parallel, and locking stdout anew for each value
lets several stdout streams (or simulations) mix their rows.
---
 src/writer/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index d7ed573..03ad563 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -209,7 +209,7 @@ impl Output {
                 };
             },
             StreamMode::Stdout => {
-                self.write_into_stream(&mut std::io::stdout())?;
+                self.write_into_stream(&mut std::io::stdout().lock())?;
             },
         };
         self.first_output = false;
-- 
2.43.0


From 002f6574ef16d0433d3dbaf008d6a10407d60005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:21 +0000
Subject: [PATCH 09/20] fix: return an error instead of panicking when stdout
 cannot be written

println! panics when stdout is closed or its disk is full, whereas every
other output failure is reported through the returned Result.
---
 src/config.rs                  | 23 +++++++++++++++--------
 src/time/rkf/butchertableau.rs | 10 +++++++---
 src/writer/output.rs           |  2 +-
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 15f3420..f3b06c9 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -11,6 +11,7 @@ pub use numericsconfig::*;
 pub use outputconfig::*;
 pub use physicsconfig::*;
 use serde::Serialize;
+use std::io::Write;
 
 pub mod meshconfig;
 pub mod numericsconfig;
@@ -217,14 +218,7 @@ impl CorriesConfig {
         let mut writer = Writer::new::<S>(self, &mesh).context("Constructing Writer")?;
 
         if writer.print_banner {
-            println!("# ****************************************");
-            println!("# Corries - corrosive Riemann solver ");
-            println!("# ");
-            println!("# Version: {}", env!("CARGO_PKG_VERSION"));
-            println!("# Copyright (c) 2022-2023");
-            println!("# Author: tbreslein <github.com/tbreslein>");
-            println!("# License: MIT");
-            println!("# ****************************************");
+            print_banner(&mut std::io::stdout().lock()).context("Printing the banner in CorriesConfig::init_corries")?;
         }
         writer
             .write_metadata::<S>()
@@ -237,6 +231,19 @@ impl CorriesConfig {
     }
 }
 
+/// Writes the banner to `buffer`
+fn print_banner<W: Write>(buffer: &mut W) -> std::io::Result<()> {
+    writeln!(buffer, "# ****************************************")?;
+    writeln!(buffer, "# Corries - corrosive Riemann solver ")?;
+    writeln!(buffer, "# ")?;
+    writeln!(buffer, "# Version: {}", env!("CARGO_PKG_VERSION"))?;
+    writeln!(buffer, "# Copyright (c) 2022-2023")?;
+    writeln!(buffer, "# Author: tbreslein <github.com/tbreslein>")?;
+    writeln!(buffer, "# License: MIT")?;
+    writeln!(buffer, "# ****************************************")?;
+    Ok(())
+}
+
 impl Validation for CorriesConfig {
     fn validate(&self) -> Result<()> {
         self.mesh_config.validate().context("Validating config.meshconfig")?;
diff --git a/src/time/rkf/butchertableau.rs b/src/time/rkf/butchertableau.rs
index 38a13a0..f427ad7 100644
--- a/src/time/rkf/butchertableau.rs
+++ b/src/time/rkf/butchertableau.rs
@@ -6,6 +6,7 @@
 
 use crate::config::numericsconfig::{RKFMode, RkfConfig};
 use ndarray::{Array1, Array2};
+use std::io::Write;
 
 /// Carries the butcher tableau needed for implement different Runge-Kutta-Fehlberg methods.
 ///
@@ -66,7 +67,8 @@ impl ButcherTableau {
                     vec![0.0]
                 ).unwrap(),
                 asc: if asc {
-                    println!("WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
+                    // a warning that cannot be printed is no reason to stop the simulation
+                    let _ = writeln!(std::io::stdout(), "WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
                     false
                 } else {
                     asc
@@ -92,7 +94,8 @@ impl ButcherTableau {
                     vec![0.0, 0.5]
                 ).unwrap(),
                 asc: if asc {
-                    println!("WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
+                    // a warning that cannot be printed is no reason to stop the simulation
+                    let _ = writeln!(std::io::stdout(), "WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
                     false
                 } else {
                     asc
@@ -142,7 +145,8 @@ impl ButcherTableau {
                     vec![0.0, 0.5, 0.5, 1.0]
                 ).unwrap(),
                 asc: if asc {
-                    println!("WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
+                    // a warning that cannot be printed is no reason to stop the simulation
+                    let _ = writeln!(std::io::stdout(), "WARNING: You turned on automated step control (asc) for {:?}, but this RKF method does not support asc! This option is ignored and asc will be set to false.", rkfconfig.rkf_mode);
                     false
                 } else {
                     asc
diff --git a/src/writer/output.rs b/src/writer/output.rs
index 03ad563..61f1b79 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -265,7 +265,7 @@ impl Output {
         if self.should_print_metadata {
             match self.stream_mode {
                 StreamMode::Stdout => {
-                    println!("{meta_data}");
+                    writeln!(std::io::stdout().lock(), "{meta_data}").wrap_err("Unable to write metadata to stdout!")?;
                 },
                 StreamMode::File => {
                     let full_path_string = self.file_name.clone() + "_metadata.json";
-- 
2.43.0


From 296af69cc70b3401db5f03f5a8a8ad4e89d5bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:33 +0000
Subject: [PATCH 10/20] fix: let waves in both directions limit the time step

---
 src/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index dd3551d..da97140 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -10,6 +10,7 @@ use crate::{
     boundaryconditions::BoundaryCondition, directions::Direction, errorhandling::Validation, Mesh, PhysicsConfig,
 };
 use color_eyre::Result;
+use ndarray::Zip;
 use std::marker::PhantomData;
 
 pub mod physics;
@@ -640,7 +641,10 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
     /// * `c_cfl`: CFL safety parameter
     /// * `mesh`: The [Mesh] of the simulation
     pub fn calc_dt_cfl(&self, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
-        P::calc_dt_cfl(&self.cent.eigen_max(), c_cfl, mesh)
+        let fastest = Zip::from(&self.cent.eigen_min())
+            .and(&self.cent.eigen_max())
+            .map_collect(|eigen_min, eigen_max| eigen_min.abs().max(eigen_max.abs()));
+        P::calc_dt_cfl(&fastest.view(), c_cfl, mesh)
     }
 }
 
-- 
2.43.0


From 7ad62e7c3e267cbf9664c687c769c89b17a2808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:22 +0000
Subject: [PATCH 11/20] fix: keep automated step control from shortening
 accepted steps below dt_min

---
 src/time/rkf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 14f884e..a5b26ca 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -114,6 +114,8 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
                     "RungeKuttaFehlberg::calc_rkf_solution in the while loop in RungeKuttaFehlberg::next_solution",
                 )?;
                 if self.err_new < 1.0 {
+                    // The error control may also shorten an accepted step, but not to less than dt_min
+                    time.dt = time.dt.max(time.dt_min);
                     time.cap_dt();
                     self.solution_accepted = true;
                 } else if time.dt < time.dt_min {
-- 
2.43.0


From 3aebf112dab8c758c9b7a204cec5bd38a211f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 12/20] fix: forget the try-outs of a failed step in automated
 step control

---
 src/time/rkf.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index a5b26ca..e4906a8 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -37,6 +37,9 @@ pub struct RungeKuttaFehlberg<P: Physics<E, S>, const E: usize, const S: usize>
     /// Error from the previous asc step
     err_old: f64,
 
+    /// Error of the last step that was taken successfully
+    err_accepted: f64,
+
     /// The number of asc steps during this iteration
     n_asc: usize,
 
@@ -84,6 +87,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
             k_bundle: Array3::zeros([order, E, S]),
             err_new: 0.0,
             err_old: 0.0,
+            err_accepted: 0.0,
             n_asc: 0,
             asc_relative_tolerance,
             asc_absolute_tolerance,
@@ -109,6 +113,8 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
         if self.bt.asc {
             self.solution_accepted = false;
             self.n_asc = 0;
+            // forget about the try-outs of a step that failed
+            self.err_old = self.err_accepted;
             while !self.solution_accepted {
                 time.dt = self.calc_rkf_solution(time.dt, u, rhs, mesh).context(
                     "RungeKuttaFehlberg::calc_rkf_solution in the while loop in RungeKuttaFehlberg::next_solution",
@@ -142,6 +148,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
                 .context("Calling u.update_everything_from_prim at the end of RungeKuttaFehlberg::calc_rkf_solution")?;
         }
 
+        self.err_accepted = self.err_old;
         time.t += time.dt;
         Ok(())
     }
-- 
2.43.0


From e44723c54ef457a0c77e17bf302c3d3447fa3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 13/20] fix: divide by the cell volumes alone, however small
 they are

---
 src/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.rs b/src/mesh.rs
index 9dc91c0..7737406 100644
--- a/src/mesh.rs
+++ b/src/mesh.rs
@@ -308,7 +308,7 @@ impl<const S: usize> Mesh<S> {
         let area_west = &d_area_xi_deta_dphi_west * deta * dphi;
         let area_east = &d_area_xi_deta_dphi_east * deta * dphi;
         let volume = &sqrt_g * dxi * deta * dphi;
-        let deta_dphi_d_volume = deta * dphi / (f64::EPSILON + &volume);
+        let deta_dphi_d_volume = deta * dphi / &volume;
 
         let cell_width = &xi_east - &xi_west;
         let cell_width_inv = cell_width.mapv(f64::recip);
-- 
2.43.0


From 1d8cecd8be0d036c44f553a8ae1f8512ae6a8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 14/20] fix: accept meshes on which a cell centre or face
 coincides with the origin

---
 src/mesh.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mesh.rs b/src/mesh.rs
index 7737406..452384a 100644
--- a/src/mesh.rs
+++ b/src/mesh.rs
@@ -402,13 +402,11 @@ impl<const S: usize> Validation for Mesh<S> {
         check_finite_double![self.dxi, self.deta, self.dphi];
 
         // checks on arrays
+        // NOTE: the reciprocals of the coordinates are infinite where the mesh contains the origin
         check_finite_arrayd![
             self.xi_cent,
             self.xi_west,
             self.xi_east,
-            self.xi_cent_inv,
-            self.xi_west_inv,
-            self.xi_east_inv,
             self.h_xi_cent,
             self.h_xi_west,
             self.h_xi_east,
-- 
2.43.0


From 1b766351562a38c282f8eb8c20479b158a161c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:08 +0000
Subject: [PATCH 15/20] fix: reject columns and boundary conditions of
 equations that do not exist

---
 src/config.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index f3b06c9..96da4ec 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -5,7 +5,10 @@
 //! Exports the [CorriesConfig] structs and its nested structs for configuring Corries simulations.
 
 use crate::{components::*, errorhandling::Validation, initfuncs::InitFn, prelude::*};
-use color_eyre::{eyre::Context, Result};
+use color_eyre::{
+    eyre::{ensure, Context},
+    Result,
+};
 pub use meshconfig::*;
 pub use numericsconfig::*;
 pub use outputconfig::*;
@@ -211,6 +214,7 @@ impl CorriesConfig {
         T: TimeSolver<P, E, S>,
     {
         self.validate().context("Validating CorriesConfig")?;
+        self.validate_equation_indexes(E).context("Validating CorriesConfig")?;
 
         let mesh = Mesh::<S>::new(&self.mesh_config).context("Constructing Mesh")?;
         let mut u = State::<P, E, S>::new(&self.physics_config);
@@ -229,6 +233,29 @@ impl CorriesConfig {
         u.init_west_east();
         Ok((u, solver, mesh, writer))
     }
+
+    /// Checks that the boundary conditions and the outputs only refer to equations that exist
+    fn validate_equation_indexes(&self, n_equations: usize) -> Result<()> {
+        for boundary in [&self.boundary_condition_west, &self.boundary_condition_east] {
+            if let BoundaryMode::Custom(modes) = boundary {
+                for (j, mode) in modes.iter() {
+                    ensure!(
+                        *j < n_equations,
+                        "There is no equation {j} to apply the boundary condition {mode:?} to! There are {n_equations} equations"
+                    );
+                }
+            }
+        }
+        for name in self.writer_config.iter().flat_map(|outputconf| outputconf.data_names.iter()) {
+            if let DataName::Prim(j) | DataName::Cons(j) = name {
+                ensure!(
+                    *j < n_equations,
+                    "You cannot output {name:?}! There are {n_equations} equations"
+                );
+            }
+        }
+        Ok(())
+    }
 }
 
 /// Writes the banner to `buffer`
-- 
2.43.0


From 62d6c1b76b9164f6988c64b888b02db4e7d93f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 16/20] fix: reject outputs without columns

---
 src/config/outputconfig.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config/outputconfig.rs b/src/config/outputconfig.rs
index 8ac9bae..2e04d4b 100644
--- a/src/config/outputconfig.rs
+++ b/src/config/outputconfig.rs
@@ -238,6 +238,7 @@ unsafe impl Sync for OutputConfig {}
 
 impl Validation for OutputConfig {
     fn validate(&self) -> color_eyre::Result<()> {
+        ensure!(!self.data_names.is_empty(), "An output needs at least one column, but data_names is empty!");
         if self.stream_mode == StreamMode::File {
             ensure!(
                 !self.folder_name.is_empty(),
-- 
2.43.0


From fdfc4888fb290eb04de8a77bb85182e87da43b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:31 +0000
Subject: [PATCH 17/20] fix: measure the error of the automated step control
 relative to magnitudes

The tolerance was relative to the signed value, so a flow to the west
got other time steps than its mirror image, and none at all where a
momentum equals minus the absolute tolerance.
---
 src/time/rkf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index e4906a8..5f7c9b2 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -204,7 +204,8 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 .and(&self.u_cons_low.slice(s))
                 .fold(0.0f64, |acc, ucons, ulow| {
                     acc.max(
-                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons + self.asc_absolute_tolerance))).abs(),
+                        ((ucons - ulow) / (self.asc_relative_tolerance * (ucons.abs() + self.asc_absolute_tolerance)))
+                            .abs(),
                     )
                 });
 
-- 
2.43.0


From 4e561d3cfd0f3b68cc46cfe745487c4255e1ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:19 +0000
Subject: [PATCH 18/20] fix: a record that is due when iter_max stops a run is
 no error dump once the run goes on

---
 src/components.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/components.rs b/src/components.rs
index 61d9902..edc8267 100644
--- a/src/components.rs
+++ b/src/components.rs
@@ -86,6 +86,7 @@ where
             }
 
             if let err @ Err(_) = solver.next_solution(u, mesh) {
+                let dt_kind = solver.timestep.dt_kind;
                 solver.timestep.dt_kind = DtKind::ErrorDump;
                 writer
                     .update_data(&u.cent, &solver.timestep, mesh)
@@ -93,6 +94,8 @@ where
                 writer
                     .write_output()
                     .context("Calling writer.write_output during the error dump in run_corries")?;
+                // only the error dump is one, not the next output of a simulation that is resumed
+                solver.timestep.dt_kind = dt_kind;
                 return err;
             }
         }
-- 
2.43.0


From e6beb5dd008c4d328fd17530f4adcaf8bdc0d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:44 +0000
Subject: [PATCH 19/20] fix: an output time that has been reached does not hold
 up the next step

The output schedule starts at t0, and only run_corries moves it on. Whoever takes the steps with
Solver::next_solution alone was given steps of width zero forever.
---
 src/time/timestep.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time/timestep.rs b/src/time/timestep.rs
index 5242d4e..f88bd1d 100644
--- a/src/time/timestep.rs
+++ b/src/time/timestep.rs
@@ -150,7 +150,8 @@ impl TimeStep {
     /// not exceed the point where the next output should be produced.
     pub fn cap_dt(&mut self) {
         self.dt = self.dt.min(self.dt_max);
-        if (self.dt + self.t) / self.t_next_output > 1.0 {
+        // an output time that has been reached already does not limit the step
+        if self.t_next_output > self.t && (self.dt + self.t) / self.t_next_output > 1.0 {
             self.dt = self.t_next_output - self.t;
         }
         if self.dt + self.t > self.t_end {
-- 
2.43.0


From ea325a46738c411d6cb6a1d3d1b340e8983be944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:05 +0000
Subject: [PATCH 20/20] fix: convert lengths and masses to CGS units in
 simulations that use SI units

Units::convert_length_to_cgs and convert_mass_to_cgs returned SI values unless the simulation used
CGS units already.
---
 src/units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1c794d2..01f29d7 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -75,7 +75,7 @@ impl Units {
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_length_to_si(input);
         match self.mode {
-            UnitsMode::SI => si_input,
+            UnitsMode::SI => si_input / LENGTH_CGS,
             UnitsMode::CGS => si_input / LENGTH_CGS,
         }
     }
@@ -93,7 +93,7 @@ impl Units {
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
         let si_input = self.convert_mass_to_si(input);
         match self.mode {
-            UnitsMode::SI => si_input,
+            UnitsMode::SI => si_input / MASS_CGS,
             UnitsMode::CGS => si_input / MASS_CGS,
         }
     }
-- 
2.43.0

