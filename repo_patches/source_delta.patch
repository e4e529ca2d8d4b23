From 2d6cb20124dee52d46d43f4fd2fa8f4c7b7011eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:45 +0000
Subject: [PATCH 01/28] fix: keep each reference point with its own objective
 and save the visit order

Stage 2 shuffled the reference set but not the cached objectives, so every
point was filtered by another point's value. Checkpoints stored the order
before the shuffle while current_iteration counts positions after it, so a
resumed run skipped and repeated points.
---
 src/oqnlp.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fedebe2..af7da59 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -699,7 +699,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
 
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
-        let (mut ref_set, mut unchanged_cycles, ref_objectives) = if resumed_from_checkpoint {
+        let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
             {
                 if self.verbose {
@@ -836,12 +836,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     .ok_or(OQNLPError::NoFeasibleSolution { candidates_evaluated: 0 });
             }
 
-            // Store reference set for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_reference_set = Some(ref_set.clone());
-            }
-
             // Observer: End Stage 1
             if let Some(ref mut observer) = self.observer {
                 if observer.should_observe_stage1() {
@@ -921,7 +915,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Shuffle reference set if starting fresh
         if !resumed_from_checkpoint {
-            ref_set.shuffle(&mut rng);
+            // Each point must keep its own pre-computed objective, so both are permuted alike
+            let mut order: Vec<usize> = (0..ref_set.len()).collect();
+            order.shuffle(&mut rng);
+            ref_set = order.iter().map(|&i| ref_set[i].clone()).collect();
+            ref_objectives =
+                ref_objectives.map(|objs: Vec<f64>| order.iter().map(|&i| objs[i]).collect());
+
+            // Store reference set for checkpointing, in the order in which Stage 2 visits it
+            #[cfg(feature = "checkpointing")]
+            {
+                self.current_reference_set = Some(ref_set.clone());
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From d29467c52f6ab73245e131932afe0827afe5eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:59 +0000
Subject: [PATCH 02/28] fix: record checkpoint progress after each batch and
 not before each iteration

A checkpoint named the iteration being processed as the current one, with the
counters from before it, so a resumed run repeated it; a parallel batch was
saved half-processed, with its rejected trials counted before its accepted
ones. Progress is now recorded once a batch is complete, whenever it crosses
a multiple of save_frequency. The automatic batch size no longer depends on
the iteration a resumed run starts from.
---
 src/oqnlp.rs | 91 +++++++++++++++-------------------------------------
 1 file changed, 25 insertions(+), 66 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index af7da59..157bc29 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -904,10 +904,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Use the saved seed when resuming from checkpoint
             StdRng::seed_from_u64(self.current_seed)
         } else {
-            // Start fresh with base seed + current iteration
-            let seed = self.params.seed + self.current_iteration as u64;
-            self.current_seed = seed;
-            StdRng::seed_from_u64(seed)
+            // Start fresh with the base seed
+            self.current_iteration = 0;
+            self.current_seed = self.params.seed;
+            StdRng::seed_from_u64(self.current_seed)
         };
 
         #[cfg(not(feature = "checkpointing"))]
@@ -945,14 +945,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         } else {
             self.batch_iterations.unwrap_or_else(|| {
                 // Use a more intelligent default: balance between overhead and parallelism
+                // It must not depend on where a resumed run starts, or its batches would differ
                 let thread_count = rayon::current_num_threads();
-                let remaining_iterations = self.params.iterations.saturating_sub(start_iter);
+                let iterations = self.params.iterations;
 
-                if remaining_iterations < 4 || thread_count == 1 {
+                if iterations < 4 || thread_count == 1 {
                     1 // Use sequential for small workloads or single-threaded
                 } else {
                     // Use a batch size that gives each thread meaningful work
-                    (remaining_iterations / (thread_count * 2)).clamp(2, 8)
+                    (iterations / (thread_count * 2)).clamp(2, 8)
                 }
             })
         };
@@ -1006,6 +1007,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 )?;
             }
 
+            // Record the progress now that the whole batch is done and save it if due
+            #[cfg(feature = "checkpointing")]
+            {
+                let completed_before = self.current_iteration;
+                if let Some(&(last_iter, _)) = batch.last() {
+                    self.current_iteration = last_iter + 1;
+                }
+                self.unchanged_cycles = unchanged_cycles;
+                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.maybe_save_checkpoint(completed_before)?;
+            }
+
             // Check if target objective has been reached after processing the batch
             if self.target_objective_reached() {
                 if self.verbose {
@@ -1590,11 +1603,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
     }
 
-    /// Save a checkpoint if checkpointing is enabled and conditions are met
+    /// Save a checkpoint if checkpointing is enabled and a multiple of `save_frequency`
+    /// iterations was completed since `completed_before`
     #[cfg(feature = "checkpointing")]
-    fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
+    fn maybe_save_checkpoint(&self, completed_before: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            if self.current_iteration % manager.config().save_frequency == 0 {
+            let save_frequency = manager.config().save_frequency;
+            if completed_before / save_frequency < self.current_iteration / save_frequency {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
@@ -1645,18 +1660,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 continue;
             }
 
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-            }
-
-            // Update the current seed for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             let trial = trial.clone();
 
             // Observer: Update iteration
@@ -1769,10 +1772,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            // Save checkpoint if enabled and conditions are met
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
         Ok(())
     }
@@ -1842,13 +1841,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Process quick candidates (no local search needed) sequentially for efficiency
         for (local_iter, _trial, _obj) in quick_candidates {
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
                 if self.verbose {
@@ -1880,9 +1872,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
-
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
         }
 
         // Process local search candidates in parallel when there are enough to justify overhead
@@ -1922,13 +1911,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
 
@@ -1984,20 +1966,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             } else {
                 // Single local search - process directly without parallel overhead
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
 
                     // Only track evaluations if observer is active
@@ -2065,9 +2037,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
 
@@ -2075,13 +2044,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 // Sequential processing when Rayon is not available
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let local_trial = self
                         .local_solver
@@ -2107,9 +2069,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
         }
-- 
2.43.0


From 507d66ad6ee128defa1b569e0f0bc4abbbf51b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:15 +0000
Subject: [PATCH 03/28] fix: find the checkpoint of iteration 0 in an archive

find_latest_checkpoint started from iteration 0 with a strict comparison, so
an archive holding only that checkpoint was reported as missing.
---
 src/checkpoint.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 5d7e878..e7d80a6 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -312,8 +312,7 @@ impl CheckpointManager {
             })?;
         let pattern = format!("{}_", self.config.checkpoint_name);
 
-        let mut latest_iteration = 0;
-        let mut latest_path = None;
+        let mut latest: Option<(usize, PathBuf)> = None;
 
         for entry in entries {
             let entry = entry.map_err(|e| CheckpointError::IoError {
@@ -327,16 +326,15 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if iteration > latest_iteration {
-                            latest_iteration = iteration;
-                            latest_path = Some(path);
+                        if latest.as_ref().is_none_or(|(newest, _)| iteration > *newest) {
+                            latest = Some((iteration, path));
                         }
                     }
                 }
             }
         }
 
-        latest_path.ok_or_else(|| CheckpointError::CheckpointNotFound {
+        latest.map(|(_, path)| path).ok_or_else(|| CheckpointError::CheckpointNotFound {
             path: self.config.checkpoint_dir.clone(),
         })
     }
-- 
2.43.0


From 03fc756b8856886da6d3f05a66258dbee7fe559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:37 +0000
Subject: [PATCH 04/28] fix: do not take another run's checkpoint for an
 archived one

An archive named opt treated every opt_<number>.bin as its own, such as the
single checkpoint opt_2.bin of a run named opt_2: it was loaded as the latest
or deleted by cleanup. Only names as written by save_checkpoint count now.
---
 src/checkpoint.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index e7d80a6..3d635ee 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -325,7 +325,7 @@ impl CheckpointManager {
             if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
-                    if let Ok(iteration) = iteration_str.parse::<usize>() {
+                    if let Some(iteration) = parse_iteration(iteration_str) {
                         if latest.as_ref().is_none_or(|(newest, _)| iteration > *newest) {
                             latest = Some((iteration, path));
                         }
@@ -366,7 +366,7 @@ impl CheckpointManager {
             if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
-                    if let Ok(iteration) = iteration_str.parse::<usize>() {
+                    if let Some(iteration) = parse_iteration(iteration_str) {
                         checkpoints.push((iteration, path));
                     }
                 }
@@ -391,6 +391,15 @@ impl CheckpointManager {
     }
 }
 
+/// Parse the iteration of an archived checkpoint's file name
+///
+/// Only the form written by [`CheckpointManager::save_checkpoint`] is accepted, so that
+/// other files (`name_+7.bin`, `name_7.bin`) are neither loaded nor deleted.
+fn parse_iteration(digits: &str) -> Option<usize> {
+    let iteration = digits.parse::<usize>().ok()?;
+    (digits == format!("{:06}", iteration)).then_some(iteration)
+}
+
 impl Default for CheckpointManager {
     fn default() -> Self {
         Self::new(CheckpointConfig::default()).unwrap()
-- 
2.43.0


From 75393a8159446f0fd8a10339610c6a0e823325ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:01 +0000
Subject: [PATCH 05/28] fix: replace checkpoints atomically and durably

save_checkpoint overwrote the previous checkpoint in place: a crash or a
failed write during a save left a torn or empty file and no checkpoint at
all, and nothing was synced to disk. Write to a temporary file, sync it,
rename it over the old one and sync the directory.
---
 src/checkpoint.rs | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 3d635ee..99992b1 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -60,7 +60,7 @@
 
 use crate::types::{CheckpointConfig, OQNLPCheckpoint};
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 use thiserror::Error;
 
@@ -245,7 +245,7 @@ impl CheckpointManager {
                 path: filepath.clone(),
                 source: e,
             })?;
-        fs::write(&filepath, encoded).map_err(|e| CheckpointError::IoError {
+        write_atomically(&filepath, &encoded).map_err(|e| CheckpointError::IoError {
             operation: "write".to_string(),
             path: filepath.clone(),
             source: e,
@@ -391,6 +391,35 @@ impl CheckpointManager {
     }
 }
 
+/// Write a file so that at every instant its path holds either the old contents or the new
+///
+/// The data is written to a temporary file beside it, synced, and renamed over the path, so
+/// that neither a crash nor a failed write can damage the previous checkpoint.
+fn write_atomically(path: &Path, data: &[u8]) -> io::Result<()> {
+    let mut tmp_name = path.as_os_str().to_owned();
+    tmp_name.push(".tmp");
+    let tmp_path = PathBuf::from(tmp_name);
+
+    let written = fs::File::create(&tmp_path)
+        .and_then(|mut file| {
+            file.write_all(data)?;
+            file.sync_all()
+        })
+        .and_then(|()| fs::rename(&tmp_path, path));
+    if let Err(e) = written {
+        let _ = fs::remove_file(&tmp_path);
+        return Err(e);
+    }
+
+    // Make the rename itself durable (directories cannot be synced on other platforms)
+    #[cfg(unix)]
+    if let Some(dir) = path.parent() {
+        let dir = if dir.as_os_str().is_empty() { Path::new(".") } else { dir };
+        fs::File::open(dir)?.sync_all()?;
+    }
+    Ok(())
+}
+
 /// Parse the iteration of an archived checkpoint's file name
 ///
 /// Only the form written by [`CheckpointManager::save_checkpoint`] is accepted, so that
-- 
2.43.0


From 52a55813c8943e497bb67e793890546c2d8b19f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:01 +0000
Subject: [PATCH 06/28] fix: apply restored parameters to the distance filter
 and the local solver

Restoring a checkpoint replaced the parameters but kept the distance filter
and the local solver built from the old ones, so the distance factor and the
solver of a resumed run (also with modified parameters) were ignored.
---
 src/oqnlp.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 157bc29..96bc486 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1531,6 +1531,19 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let solution_count = checkpoint.solution_set.as_ref().map_or(0, |s| s.len());
 
         self.params = checkpoint.params;
+
+        // Everything derived from the parameters must follow the restored ones
+        self.distance_filter = DistanceFilter::new(FilterParams {
+            distance_factor: self.params.distance_factor,
+            wait_cycle: self.params.wait_cycle,
+            threshold_factor: self.params.threshold_factor,
+        })?;
+        self.local_solver = LocalSolver::new(
+            self.problem.clone(),
+            self.params.local_solver_type.clone(),
+            self.params.local_solver_config.clone(),
+        );
+
         self.current_iteration = checkpoint.current_iteration;
         self.merit_filter.update_threshold(checkpoint.merit_threshold);
         self.solution_set = checkpoint.solution_set;
-- 
2.43.0


From d9892a947c38727830649119eecf7ea7bd972fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:21 +0000
Subject: [PATCH 07/28] fix: continue an explicitly resumed run instead of
 starting over

run() ignored a state restored by resume_with_modified_params or
resume_from_checkpoint_with_params: it started from scratch, or loaded the
checkpoint again and dropped the modified parameters. Resuming from a given
file also did not grow the reference set to a larger population.
---
 src/oqnlp.rs | 90 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 31 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 96bc486..cff7985 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -404,6 +404,10 @@ pub struct OQNLP<P: Problem + Clone> {
     #[cfg(feature = "checkpointing")]
     start_time: Option<std::time::Instant>,
 
+    /// Whether a restored state is waiting for `run` to continue from it.
+    #[cfg(feature = "checkpointing")]
+    resume_pending: bool,
+
     /// Current random seed for reproducible continuation.
     #[cfg(feature = "checkpointing")]
     current_seed: u64,
@@ -490,6 +494,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             #[cfg(feature = "checkpointing")]
             start_time: None,
             #[cfg(feature = "checkpointing")]
+            resume_pending: false,
+            #[cfg(feature = "checkpointing")]
             current_seed: params.seed,
             observer: None,
             custom_points: None,
@@ -686,9 +692,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             }
         }
 
-        // Try to resume from checkpoint if enabled
+        // Continue from an explicitly restored state, or try to resume if enabled
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint = self.try_resume_from_checkpoint()?;
+        let resumed_from_checkpoint =
+            self.resume_pending || self.try_resume_from_checkpoint()?;
+        #[cfg(feature = "checkpointing")]
+        {
+            self.resume_pending = false;
+        }
         #[cfg(not(feature = "checkpointing"))]
         let resumed_from_checkpoint = false;
 
@@ -1410,35 +1421,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 let old_population_size = checkpoint.params.population_size;
 
                 // Handle population size changes
-                if new_params.population_size != old_population_size {
-                    if new_params.population_size > old_population_size {
-                        self.expand_reference_set(
-                            &mut checkpoint.reference_set,
-                            old_population_size,
-                            new_params.population_size,
-                        )?;
-
-                        if self.verbose {
-                            println!(
-                                "Expanded reference set from {} to {} points",
-                                old_population_size, new_params.population_size
-                            );
-                        }
-                    } else {
-                        // Population size decreased, issue warning but continue
-                        eprintln!(
-                            "Warning: New population size ({}) is smaller than original ({}). Using original reference set with {} points.",
-                            new_params.population_size, old_population_size, old_population_size
-                        );
-
-                        if self.verbose {
-                            println!(
-                                "Keeping original reference set size of {} points despite smaller population_size parameter",
-                                old_population_size
-                            );
-                        }
-                    }
-                }
+                self.adapt_reference_set(
+                    &mut checkpoint.reference_set,
+                    old_population_size,
+                    new_params.population_size,
+                )?;
 
                 // Update with new parameters
                 checkpoint.params = new_params.clone();
@@ -1458,6 +1445,37 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         Ok(false)
     }
 
+    /// Adapt a saved reference set to a modified population size
+    #[cfg(feature = "checkpointing")]
+    fn adapt_reference_set(
+        &self,
+        ref_set: &mut Vec<Array1<f64>>,
+        old_size: usize,
+        new_size: usize,
+    ) -> Result<(), OQNLPError> {
+        if new_size > old_size {
+            self.expand_reference_set(ref_set, old_size, new_size)?;
+
+            if self.verbose {
+                println!("Expanded reference set from {} to {} points", old_size, new_size);
+            }
+        } else if new_size < old_size {
+            // Population size decreased, issue warning but continue
+            eprintln!(
+                "Warning: New population size ({}) is smaller than original ({}). Using original reference set with {} points.",
+                new_size, old_size, old_size
+            );
+
+            if self.verbose {
+                println!(
+                    "Keeping original reference set size of {} points despite smaller population_size parameter",
+                    old_size
+                );
+            }
+        }
+        Ok(())
+    }
+
     /// Expand the reference set to a larger population size
     ///
     /// This method generates additional points to expand an existing reference set
@@ -1508,6 +1526,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             // Keep the old params for comparison
             let old_iterations = checkpoint.params.iterations;
 
+            // Handle population size changes
+            self.adapt_reference_set(
+                &mut checkpoint.reference_set,
+                checkpoint.params.population_size,
+                new_params.population_size,
+            )?;
+
             // Update with new parameters
             checkpoint.params = new_params.clone();
 
@@ -1578,6 +1603,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Restore distance filter solutions
         self.distance_filter.set_solutions(checkpoint.distance_filter_solutions);
 
+        // The next run continues from here
+        self.resume_pending = true;
+
         if self.verbose {
             println!(
                 "Resumed from checkpoint at iteration {} with {} solutions",
-- 
2.43.0


From f9927f40a7ed7b46f21cf30d3e199d6108fca0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:21 +0000
Subject: [PATCH 08/28] fix: do not search on when a resumed run has already
 reached its target

---
 src/oqnlp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index cff7985..0452933 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -694,8 +694,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Continue from an explicitly restored state, or try to resume if enabled
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint =
-            self.resume_pending || self.try_resume_from_checkpoint()?;
+        let resumed_from_checkpoint = self.resume_pending || self.try_resume_from_checkpoint()?;
         #[cfg(feature = "checkpointing")]
         {
             self.resume_pending = false;
@@ -977,6 +976,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
         for batch in trials_to_process.chunks(effective_batch_size) {
+            // A resumed run may have reached the target before it was interrupted
+            if self.target_objective_reached() {
+                break;
+            }
+
             // Check timeout before processing each batch
             if let (Some(max_secs), Some(start)) = (self.max_time, start_timer) {
                 if start.elapsed().as_secs_f64() > max_secs {
-- 
2.43.0


From 62cdd77d3476e4622d69f419c4da5deb0543dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:30 +0000
Subject: [PATCH 09/28] fix: count the evaluations of trial points in Stage 1

The Stage 1 observer left out every objective evaluation made while the
reference set was being intensified.
---
 src/scatter_search.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e3787af..2a31682 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -49,6 +49,7 @@ use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
 use std::sync::Mutex;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use thiserror::Error;
 
 #[cfg(feature = "rayon")]
@@ -151,6 +152,8 @@ pub struct ScatterSearch<'a, P: Problem> {
     observer: Option<&'a mut Observer>,
     /// Custom points to seed the reference set
     custom_points: Option<Vec<Array1<f64>>>,
+    /// Number of objective evaluations made for trial points
+    trial_evaluations: usize,
 }
 
 impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
@@ -187,6 +190,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             enable_parallel: true,
             observer: None,
             custom_points: None,
+            trial_evaluations: 0,
         };
 
         Ok(ss)
@@ -297,6 +301,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 if let Some(stage1) = obs.stage1_mut() {
                     stage1.enter_substage("intensification_complete");
                     stage1.add_trial_points(trial_points.len());
+                    stage1.add_function_evaluations(self.trial_evaluations);
                     stage1.set_reference_set_size(self.reference_set.len());
                 }
             }
@@ -779,6 +784,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // 1. Constraint feasibility check (if constraints exist)
         // 2. Cheap distance filter to skip near-duplicates (up to 5 distance computations)
         // 3. Expensive objective evaluation only for diverse, feasible points
+        let evaluations = AtomicUsize::new(0);
         let evaluate_trial = |point: &Array1<f64>| -> Option<(Array1<f64>, f64)> {
             if !constraints.is_empty() && !is_feasible(point, &constraints) {
                 return None;
@@ -793,6 +799,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 return None;
             }
 
+            evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
             if obj < worst_obj { Some((point.clone(), obj)) } else { None }
         };
@@ -808,6 +815,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let trial_evaluated: Vec<(Array1<f64>, f64)> =
             trials.iter().filter_map(evaluate_trial).collect();
 
+        self.trial_evaluations += evaluations.into_inner();
+
         // If no trials passed filtering, keep current reference set unchanged
         if trial_evaluated.is_empty() {
             return;
-- 
2.43.0


From 6140e24d6797650de49d20297ab988e3e6bd96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:30 +0000
Subject: [PATCH 10/28] fix: respect the callback frequency when a batch has a
 single local search

---
 src/oqnlp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 0452933..09cf4ce 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -2059,9 +2059,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                     }
 
-                    // Invoke observer callback for stage 2 progress
+                    // Invoke observer callback if set and frequency matches
                     if let Some(ref mut observer) = self.observer {
-                        observer.invoke_callback();
+                        if observer.should_invoke_callback(local_iter) {
+                            observer.invoke_callback();
+                        }
                     }
 
                     if self.verbose && added {
-- 
2.43.0


From 26dda124e75abc0fab5632cfae30fd400df52e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:38 +0000
Subject: [PATCH 11/28] fix: do not panic on a zero callback frequency, save
 frequency or batch size

Each caused a division by zero or an empty chunk size in the middle of a run.
A frequency of zero now means never, a batch size of zero means one.
---
 src/observers/mod.rs | 5 ++++-
 src/oqnlp.rs         | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index f56b83f..e86da4e 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -1096,7 +1096,10 @@ impl Observer {
     /// True if a callback is configured and the iteration is a multiple of
     /// the callback frequency.
     pub(crate) fn should_invoke_callback(&self, iteration: usize) -> bool {
-        self.callback.is_some() && (iteration % self.callback_frequency == 0)
+        // A frequency of zero never invokes the callback
+        self.callback.is_some()
+            && self.callback_frequency > 0
+            && iteration % self.callback_frequency == 0
     }
 }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 09cf4ce..69bbf78 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -953,7 +953,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let effective_batch_size = if !self.enable_parallel {
             1 // Force sequential when parallel processing is disabled
         } else {
-            self.batch_iterations.unwrap_or_else(|| {
+            self.batch_iterations.map(|size| size.max(1)).unwrap_or_else(|| {
                 // Use a more intelligent default: balance between overhead and parallelism
                 // It must not depend on where a resumed run starts, or its batches would differ
                 let thread_count = rayon::current_num_threads();
@@ -1654,7 +1654,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     fn maybe_save_checkpoint(&self, completed_before: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
             let save_frequency = manager.config().save_frequency;
-            if completed_before / save_frequency < self.current_iteration / save_frequency {
+            if save_frequency > 0
+                && completed_before / save_frequency < self.current_iteration / save_frequency
+            {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
-- 
2.43.0


From 7c376c67dfd4d6f639645635664ec844c4984112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:45 +0000
Subject: [PATCH 12/28] fix: count a local search that found a new best as an
 improvement

The observer's improved_local_calls only counted solutions appended to the
set, not those that replaced it.
---
 src/oqnlp.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 69bbf78..e9d5690 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1200,6 +1200,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         Ok(added)
     }
 
+    /// Objective of the best solution found so far (infinite if there is none)
+    fn best_objective(&self) -> f64 {
+        self.solution_set
+            .as_ref()
+            .and_then(|set| set.best_solution())
+            .map_or(f64::INFINITY, |best| best.objective)
+    }
+
     /// Check if a candidate solution is a duplicate in a set of solutions
     fn is_duplicate_in_set(&self, candidate: &LocalSolution, set: &Array1<LocalSolution>) -> bool {
         let distance_threshold = self.params.distance_factor;
@@ -1758,13 +1766,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
+                let best_before = self.best_objective();
                 let added: bool = self.process_local_solution(local_trial.clone())?;
+                // A new best replaces the set and so does not count as added
+                let improved = added || self.best_objective() < best_before;
 
                 // Observer: Track local solver call and results
                 if let Some(ref mut observer) = self.observer {
                     if observer.should_observe_stage2() {
                         if let Some(stage2) = observer.stage2_mut() {
-                            stage2.add_local_solver_call(added);
+                            stage2.add_local_solver_call(improved);
                             stage2.add_function_evaluations(eval_count as usize);
                             if let Some(ref sol_set) = self.solution_set {
                                 if let Some(best) = sol_set.best_solution() {
@@ -1959,13 +1970,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
                     self.merit_filter.update_threshold(obj);
+                    let best_before = self.best_objective();
                     let added = self.process_local_solution(local_solution.clone())?;
+                    // A new best replaces the set and so does not count as added
+                    let improved = added || self.best_objective() < best_before;
 
                     // Observer: Track local solver call and results (parallel case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
@@ -2032,13 +2046,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         (sol, 0)
                     };
 
+                    let best_before = self.best_objective();
                     let added = self.process_local_solution(local_trial.clone())?;
+                    // A new best replaces the set and so does not count as added
+                    let improved = added || self.best_objective() < best_before;
 
                     // Observer: Track local solver call and results (single local search case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
-- 
2.43.0


From 0e51131fab8279096fe1505d0e9f35552fa992d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:52 +0000
Subject: [PATCH 13/28] fix: stop the stage clocks when a stage ends

total_time() of a finished stage kept growing with the time since its start.
---
 src/observers/stage1.rs | 2 +-
 src/observers/stage2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/observers/stage1.rs b/src/observers/stage1.rs
index 8799967..69099a8 100644
--- a/src/observers/stage1.rs
+++ b/src/observers/stage1.rs
@@ -125,7 +125,7 @@ impl Stage1State {
 
     /// End Stage 1 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
diff --git a/src/observers/stage2.rs b/src/observers/stage2.rs
index 9e6cfc0..39e8e98 100644
--- a/src/observers/stage2.rs
+++ b/src/observers/stage2.rs
@@ -126,7 +126,7 @@ impl Stage2State {
 
     /// End Stage 2 and calculate total time
     pub fn end(&mut self) {
-        if let Some(start) = self.stage_start {
+        if let Some(start) = self.stage_start.take() {
             self.total_time = Some(start.elapsed().as_secs_f64());
         }
     }
-- 
2.43.0


From 3e846130dfe2712e352a7b9ed53c8617123c21f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:13 +0000
Subject: [PATCH 14/28] fix: do not let NaN or infinite objectives take over
 the search

A NaN with its sign bit set (as 0.0/0.0 gives) was sorted before every number
in Stage 1 and chosen for the first local search; a NaN local result became
the threshold, which then rejected every point, or the returned solution; and
an infinite solution made the tolerance infinite, so that later finite ones
were added beside it instead of replacing it.
---
 src/oqnlp.rs          | 42 ++++++++++++++++++++++++++++++++----------
 src/scatter_search.rs |  4 ++++
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index e9d5690..590294a 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -793,7 +793,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
-            self.merit_filter.update_threshold(local_sol.objective);
+            if !local_sol.objective.is_nan() {
+                self.merit_filter.update_threshold(local_sol.objective);
+            }
 
             if self.verbose {
                 println!(
@@ -1063,6 +1065,17 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
     }
 
     // Helper methods
+    /// Evaluate a Stage 2 trial point; as in Stage 1, a NaN is worse than any value
+    fn evaluate_trial(&self, trial: &Array1<f64>) -> Result<f64, OQNLPError> {
+        match self.problem.objective(trial) {
+            Ok(obj) if obj.is_nan() => Ok(f64::INFINITY),
+            Ok(obj) => Ok(obj),
+            Err(_) => {
+                Err(OQNLPError::ObjectiveFunctionEvaluationFailed { stage: "unknown".to_string() })
+            }
+        }
+    }
+
     /// Check if a local search should be started based on the merit and distance filters
     fn should_start_local(&self, point: &Array1<f64>, obj: f64) -> Result<bool, OQNLPError> {
         let passes_merit: bool = obj <= self.merit_filter.threshold;
@@ -1108,6 +1121,19 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let abs_tol = self.abs_tol;
         let rel_tol = self.rel_tol;
 
+        // A NaN solution is never acceptable, and a NaN point would make every later point fail
+        // the distance filter
+        let nan_point = solution.point.iter().any(|value| value.is_nan());
+        if nan_point || solution.objective.is_nan() {
+            if self.verbose {
+                println!("Solution rejected: not a number");
+            }
+            if !nan_point {
+                self.distance_filter.add_solution(solution);
+            }
+            return Ok(false);
+        }
+
         // If exclude_out_of_bounds is enabled, check if the solution is within bounds
         if self.exclude_out_of_bounds && !self.is_within_bounds(&solution.point) {
             if self.verbose {
@@ -1146,7 +1172,9 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let obj2 = current_best.objective;
 
         let obj_diff = (obj1 - obj2).abs();
-        let tol = abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()));
+        let relative = rel_tol * obj1.abs().max(obj2.abs());
+        // An infinite objective is not similar to a finite one
+        let tol = if relative.is_finite() { abs_tol.max(relative) } else { abs_tol };
 
         let added: bool = if obj1 < obj2 - tol {
             // Found new best solution
@@ -1736,9 +1764,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 objectives[ref_set_index]
             } else {
                 // Fallback to evaluating objective function (e.g., when resuming from checkpoint)
-                self.problem.objective(&trial).map_err(|_| {
-                    OQNLPError::ObjectiveFunctionEvaluationFailed { stage: "unknown".to_string() }
-                })?
+                self.evaluate_trial(&trial)?
             };
 
             // Observer: Track function evaluation only if we actually evaluated (not cached)
@@ -1867,11 +1893,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     objectives[ref_set_index]
                 } else {
                     // Fallback to evaluating objective function (e.g., when resuming from checkpoint)
-                    self.problem.objective(trial).map_err(|_| {
-                        OQNLPError::ObjectiveFunctionEvaluationFailed {
-                            stage: "unknown".to_string(),
-                        }
-                    })?
+                    self.evaluate_trial(trial)?
                 };
                 Ok((local_iter, trial.clone(), obj))
             })
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 2a31682..3c38215 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -413,6 +413,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             .map(|point| self.problem.objective(point))
             .collect::<Result<Vec<f64>, _>>()?;
 
+        // A NaN objective is worse than any value (total_cmp alone sorts negative NaNs first)
+        let objectives =
+            objectives.into_iter().map(|obj| if obj.is_nan() { f64::INFINITY } else { obj });
+
         // Sort reference set by objective value (best first) for k-selection
         let mut points_with_objectives: Vec<(Array1<f64>, f64)> =
             ref_set.into_iter().zip(objectives).collect();
-- 
2.43.0


From 64e2d0803983a5232608bb7c193471400d2c4387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:13 +0000
Subject: [PATCH 15/28] fix: make the diversity threshold independent of the
 thread schedule

The parallel sum added the distances in an order that depends on the number
of threads and on work stealing, so that rounding could change which trial
points were evaluated.
---
 src/scatter_search.rs | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 3c38215..3cf0cf2 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -748,29 +748,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 let k = ((ref_set.len() as f64).sqrt() as usize).max(2).min(ref_set.len());
                 let sample_size = k;
 
-                #[cfg(feature = "rayon")]
-                let sum_dist = if self.enable_parallel {
-                    (0..sample_size)
-                        .into_par_iter()
-                        .map(|i| {
-                            euclidean_distance_squared(
-                                &ref_set[i],
-                                &ref_set[(i + 1) % ref_set.len()],
-                            )
-                        })
-                        .sum::<f64>()
-                } else {
-                    (0..sample_size)
-                        .map(|i| {
-                            euclidean_distance_squared(
-                                &ref_set[i],
-                                &ref_set[(i + 1) % ref_set.len()],
-                            )
-                        })
-                        .sum::<f64>()
-                };
-
-                #[cfg(not(feature = "rayon"))]
+                // Summed in order: a parallel sum would depend on how the work is split
                 let sum_dist = (0..sample_size)
                     .map(|i| {
                         euclidean_distance_squared(&ref_set[i], &ref_set[(i + 1) % ref_set.len()])
-- 
2.43.0


From 98ef77ca6d340334b160c7cc7d68c015a36c1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:13 +0000
Subject: [PATCH 16/28] fix: compute the same minimum distance in serial and in
 parallel mode

The serial variants rounded squared distances below 1e-14 to zero, so that
for small variable ranges serial and parallel runs chose different points.
---
 src/scatter_search.rs | 33 ++++++++-------------------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 3cf0cf2..1625ae9 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -616,35 +616,18 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                     .map(|p| euclidean_distance_squared(point, p))
                     .reduce(|| f64::INFINITY, f64::min)
             } else {
-                // Sequential with early termination for near-zero distances
-                let mut min_dist = f64::INFINITY;
-                for p in ref_set {
-                    let dist = euclidean_distance_squared(point, p);
-                    if dist < min_dist {
-                        min_dist = dist;
-                        // Early termination if points are essentially identical
-                        if dist < 1e-14 {
-                            return 0.0;
-                        }
-                    }
-                }
-                min_dist
+                ref_set
+                    .iter()
+                    .map(|p| euclidean_distance_squared(point, p))
+                    .fold(f64::INFINITY, f64::min)
             }
         }
         #[cfg(not(feature = "rayon"))]
         {
-            let mut min_dist = f64::INFINITY;
-            for p in ref_set {
-                let dist = euclidean_distance_squared(point, p);
-                if dist < min_dist {
-                    min_dist = dist;
-                    // Early termination if points are essentially identical
-                    if dist < 1e-14 {
-                        return 0.0;
-                    }
-                }
-            }
-            min_dist
+            ref_set
+                .iter()
+                .map(|p| euclidean_distance_squared(point, p))
+                .fold(f64::INFINITY, f64::min)
         }
     }
 
-- 
2.43.0


From 4986fd70903cbbe78b4fda472a7f3016607ee01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:13 +0000
Subject: [PATCH 17/28] fix: treat NaN coordinates as out of bounds and NaN
 constraints as violated

NaN compares false with everything, so custom points with NaN coordinates and
points whose constraint value is NaN were accepted.
---
 src/oqnlp.rs          | 6 ++++--
 src/scatter_search.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 590294a..e582ff7 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -668,7 +668,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             for (j, &value) in point.iter().enumerate() {
                 let lower = bounds[[j, 0]];
                 let upper = bounds[[j, 1]];
-                if value < lower || value > upper {
+                // Written so that NaN is out of bounds as well
+                if !(value >= lower && value <= upper) {
                     return Err(OQNLPError::CustomPointOutOfBounds { index: i });
                 }
             }
@@ -1108,7 +1109,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let lower_bound = bounds[[i, 0]];
             let upper_bound = bounds[[i, 1]];
 
-            if value < lower_bound || value > upper_bound {
+            // Written so that NaN is out of bounds as well
+            if !(value >= lower_bound && value <= upper_bound) {
                 return false;
             }
         }
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 1625ae9..6980cbd 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -890,7 +890,8 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
     // Early exit on first violation for performance
     for constraint_fn in constraints {
         let value = constraint_fn(x_slice, &mut ());
-        if value < 0.0 {
+        // Written so that NaN is a violation as well
+        if !(value >= 0.0) {
             return false;
         }
     }
-- 
2.43.0


From 0ab83487a3fa7ea1a522768edaba5e59e8b58fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:13 +0000
Subject: [PATCH 18/28] fix: do not overflow on seeds near the end of their
 range

---
 src/oqnlp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index e582ff7..2666f37 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1033,7 +1033,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     self.current_iteration = last_iter + 1;
                 }
                 self.unchanged_cycles = unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
                 self.maybe_save_checkpoint(completed_before)?;
             }
 
@@ -1536,7 +1536,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Create a temporary ScatterSearch instance to reuse its methods
         let temp_params = OQNLPParams {
             population_size: new_size,
-            seed: self.current_seed + ref_set.len() as u64,
+            seed: self.current_seed.wrapping_add(ref_set.len() as u64),
             ..self.params.clone()
         };
 
-- 
2.43.0


From 0142aaa9270ea3a488ffb4bbf29f0137c70fc3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:03 +0000
Subject: [PATCH 19/28] fix: reject bounds that are not finite numbers

NaN and infinite bounds, and bounds whose width overflows, passed validation
and made the sampling panic.
---
 src/scatter_search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 6980cbd..8366a15 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -166,7 +166,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Validate bounds
         for i in 0..bounds.lower.len() {
-            if bounds.lower[i] >= bounds.upper[i] {
+            let width = bounds.upper[i] - bounds.lower[i];
+            if !(width > 0.0 && width.is_finite()) {
                 return Err(ScatterSearchError::InvalidBounds {
                     dimension: i,
                     lower: bounds.lower[i],
-- 
2.43.0


From 064dbbb8a6727a14f50e79194250c02db409417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 20/28] fix: do not reserve memory for a length that exceeds a
 damaged checkpoint file

---
 src/checkpoint.rs |  4 ++--
 src/types.rs      | 31 +++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 99992b1..83cefe7 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -281,7 +281,7 @@ impl CheckpointManager {
             source: e,
         })?;
         let (checkpoint, _): (OQNLPCheckpoint, usize) =
-            bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
+            bincode::serde::borrow_decode_from_slice(&encoded, bincode::config::legacy())
                 .map_err(BincodeError::DecodeError)
                 .map_err(|e| CheckpointError::SerializationError {
                     operation: "decode".to_string(),
@@ -463,7 +463,7 @@ pub fn read_checkpoint_file(path: &Path) -> Result<OQNLPCheckpoint, CheckpointEr
         source: e,
     })?;
     let (checkpoint, _): (OQNLPCheckpoint, usize) =
-        bincode::serde::decode_from_slice(&encoded, bincode::config::legacy())
+        bincode::serde::borrow_decode_from_slice(&encoded, bincode::config::legacy())
             .map_err(BincodeError::DecodeError)
             .map_err(|e| CheckpointError::SerializationError {
                 operation: "decode".to_string(),
diff --git a/src/types.rs b/src/types.rs
index d8c2af4..fd18367 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -695,9 +695,40 @@ pub struct OQNLPCheckpoint {
     pub rel_tol: f64,
 
     /// Timestamp of the checkpoint
+    #[cfg_attr(feature = "checkpointing", serde(deserialize_with = "deserialize_borrowed_text"))]
     pub timestamp: String,
 }
 
+#[cfg(feature = "checkpointing")]
+/// Deserializes a string out of the input where possible
+///
+/// Unlike for an owned `String`, no memory is reserved for a length that exceeds the input,
+/// so that a damaged file cannot ask for any amount of memory.
+fn deserialize_borrowed_text<'de, D>(deserializer: D) -> Result<String, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    struct TextVisitor;
+
+    impl serde::de::Visitor<'_> for TextVisitor {
+        type Value = String;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
+            formatter.write_str("a string")
+        }
+
+        fn visit_str<E: serde::de::Error>(self, text: &str) -> Result<String, E> {
+            Ok(text.to_owned())
+        }
+
+        fn visit_string<E: serde::de::Error>(self, text: String) -> Result<String, E> {
+            Ok(text)
+        }
+    }
+
+    deserializer.deserialize_str(TextVisitor)
+}
+
 #[cfg(feature = "checkpointing")]
 /// Serializes a vector of `Array1<f64>` to a format suitable for serialization
 fn serialize_vec_array1<S>(vec: &Vec<Array1<f64>>, serializer: S) -> Result<S::Ok, S::Error>
-- 
2.43.0


From 897a1b0e0f39dabc1f834620178ee63d5b57b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 21/28] fix: report the state after the iteration in serial
 callbacks, also when it meets the target

---
 src/oqnlp.rs | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 2666f37..fdeb8a4 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1747,17 +1747,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             let trial = trial.clone();
 
-            // Observer: Update iteration
-            if let Some(ref mut observer) = self.observer {
-                if observer.should_observe_stage2() {
-                    if let Some(stage2) = observer.stage2_mut() {
-                        stage2.set_iteration(local_iter);
-                        stage2.set_unchanged_cycles(*unchanged_cycles);
-                        stage2.set_threshold_value(self.merit_filter.threshold);
-                    }
-                }
-            }
-
             // Use pre-computed objective if available, otherwise evaluate
             let obj: f64 = if let Some(objectives) = ref_objectives {
                 // Map iteration index to reference set index (cycle through ref_set)
@@ -1822,18 +1811,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     );
                     println!("x0 = {}", local_trial.point);
                 }
-
-                // Check if target objective has been reached
-                if self.target_objective_reached() {
-                    if self.verbose {
-                        println!(
-                            "Stage 2, iteration {}: Target objective {:.8} reached. Stopping optimization.",
-                            local_iter,
-                            self.target_objective.unwrap()
-                        );
-                    }
-                    return Ok(());
-                }
             } else {
                 *unchanged_cycles += 1;
 
@@ -1852,12 +1829,35 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 }
             }
 
+            // Observer: Update iteration before callback
+            if let Some(ref mut observer) = self.observer {
+                if observer.should_observe_stage2() {
+                    if let Some(stage2) = observer.stage2_mut() {
+                        stage2.set_iteration(local_iter);
+                        stage2.set_unchanged_cycles(*unchanged_cycles);
+                        stage2.set_threshold_value(self.merit_filter.threshold);
+                    }
+                }
+            }
+
             // Invoke observer callback if set and frequency matches
             if let Some(ref mut observer) = self.observer {
                 if observer.should_invoke_callback(local_iter) {
                     observer.invoke_callback();
                 }
             }
+
+            // Check if target objective has been reached
+            if self.target_objective_reached() {
+                if self.verbose {
+                    println!(
+                        "Stage 2, iteration {}: Target objective {:.8} reached. Stopping optimization.",
+                        local_iter,
+                        self.target_objective.unwrap()
+                    );
+                }
+                return Ok(());
+            }
         }
         Ok(())
     }
-- 
2.43.0


From b8a774fc4d505d59342b26c77478f3b382fe8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:17 +0000
Subject: [PATCH 22/28] fix: observers of resumed runs do not show a Stage 1
 that never took place

---
 src/oqnlp.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fdeb8a4..4ce7039 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -686,11 +686,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Start observer timing if enabled
         if let Some(ref mut observer) = self.observer {
             observer.start_timer();
-            if observer.should_observe_stage1() {
-                if let Some(stage1) = observer.stage1_mut() {
-                    stage1.start();
-                }
-            }
         }
 
         // Continue from an explicitly restored state, or try to resume if enabled
@@ -716,6 +711,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 if self.verbose {
                     println!("Resuming from checkpoint at iteration {}", self.current_iteration);
                 }
+                // Stage 1 does not take place
+                if let Some(ref mut observer) = self.observer {
+                    observer.mark_stage1_complete();
+                }
                 let ref_set = self.current_reference_set.clone().unwrap_or_default();
                 let unchanged_cycles = self.unchanged_cycles;
                 // No pre-computed objectives when resuming from checkpoint
@@ -725,6 +724,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             unreachable!()
         } else {
             // Stage 1: Initial ScatterSearch iterations and first local call
+            if let Some(ref mut observer) = self.observer {
+                if observer.should_observe_stage1() {
+                    if let Some(stage1) = observer.stage1_mut() {
+                        stage1.start();
+                    }
+                }
+            }
+
             if self.verbose {
                 println!("Starting Stage 1");
             }
-- 
2.43.0


From ddbbc0a25252d033490a81626df25f872aeeb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:33 +0000
Subject: [PATCH 23/28] fix: count the searches of a batch that follow the one
 that meets the target

---
 src/oqnlp.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 4ce7039..5f78039 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1999,7 +1999,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 let local_results = local_results?;
 
                 // Process local results sequentially to maintain state consistency
-                for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
+                let mut local_results = local_results.into_iter();
+                while let Some((local_iter, _trial, obj, local_solution, eval_count)) =
+                    local_results.next()
+                {
                     self.merit_filter.update_threshold(obj);
                     let best_before = self.best_objective();
                     let added = self.process_local_solution(local_solution.clone())?;
@@ -2056,6 +2059,17 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                                 self.target_objective.unwrap()
                             );
                         }
+                        // Observer: The remaining searches were made, too
+                        if let Some(ref mut observer) = self.observer {
+                            if observer.should_observe_stage2() {
+                                if let Some(stage2) = observer.stage2_mut() {
+                                    for (_, _, _, _, eval_count) in local_results {
+                                        stage2.add_local_solver_call(false);
+                                        stage2.add_function_evaluations(eval_count as usize);
+                                    }
+                                }
+                            }
+                        }
                         return Ok(());
                     }
                 }
-- 
2.43.0


From 0a557e125811d2509377586297bf592b852bfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:23 +0000
Subject: [PATCH 24/28] fix: a derivative that is not finite fails the local
 search instead of keeping it going forever

---
 src/local_solver/runner.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 88a08b3..ba0533c 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -671,7 +671,13 @@ impl<P: Problem> LocalSolver<P> {
             type Gradient = Array1<f64>;
 
             fn gradient(&self, param: &Self::Param) -> std::result::Result<Self::Gradient, Error> {
-                self.problem.gradient(param).map_err(|e| Error::msg(e.to_string()))
+                let gradient =
+                    self.problem.gradient(param).map_err(|e| Error::msg(e.to_string()))?;
+                // The subproblem would not come to an end
+                if gradient.iter().any(|v| !v.is_finite()) {
+                    return Err(Error::msg("Gradient is not finite"));
+                }
+                Ok(gradient)
             }
         }
 
@@ -680,7 +686,12 @@ impl<P: Problem> LocalSolver<P> {
             type Hessian = Array2<f64>;
 
             fn hessian(&self, param: &Self::Param) -> std::result::Result<Self::Hessian, Error> {
-                self.problem.hessian(param).map_err(|e| Error::msg(e.to_string()))
+                let hessian = self.problem.hessian(param).map_err(|e| Error::msg(e.to_string()))?;
+                // The subproblem would not come to an end
+                if hessian.iter().any(|v| !v.is_finite()) {
+                    return Err(Error::msg("Hessian is not finite"));
+                }
+                Ok(hessian)
             }
         }
 
@@ -816,7 +827,13 @@ impl<P: Problem> LocalSolver<P> {
             type Gradient = Array1<f64>;
 
             fn gradient(&self, param: &Self::Param) -> std::result::Result<Self::Gradient, Error> {
-                self.problem.gradient(param).map_err(|e| Error::msg(e.to_string()))
+                let gradient =
+                    self.problem.gradient(param).map_err(|e| Error::msg(e.to_string()))?;
+                // The subproblem would not come to an end
+                if gradient.iter().any(|v| !v.is_finite()) {
+                    return Err(Error::msg("Gradient is not finite"));
+                }
+                Ok(gradient)
             }
         }
 
@@ -825,7 +842,12 @@ impl<P: Problem> LocalSolver<P> {
             type Hessian = Array2<f64>;
 
             fn hessian(&self, param: &Self::Param) -> std::result::Result<Self::Hessian, Error> {
-                self.problem.hessian(param).map_err(|e| Error::msg(e.to_string()))
+                let hessian = self.problem.hessian(param).map_err(|e| Error::msg(e.to_string()))?;
+                // The subproblem would not come to an end
+                if hessian.iter().any(|v| !v.is_finite()) {
+                    return Err(Error::msg("Hessian is not finite"));
+                }
+                Ok(hessian)
             }
         }
 
-- 
2.43.0


From ecc3065b2392d89b880c65eb38680dc9374b1f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:37 +0000
Subject: [PATCH 25/28] fix: Nelder-Mead returns failed and NaN evaluations as
 errors instead of panicking

---
 src/local_solver/runner.rs | 46 +++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index ba0533c..aff4a23 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -388,13 +388,22 @@ impl<P: Problem> LocalSolver<P> {
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
         use std::sync::{
-            Arc,
+            Arc, Mutex,
             atomic::{AtomicU64, Ordering},
         };
 
+        /// The solver panics when a vertex of the initial simplex cannot be evaluated, so
+        /// the failure is kept until it can be returned
+        #[derive(Default)]
+        struct Simplex {
+            evaluated: usize,
+            failure: Option<String>,
+        }
+
         struct ProblemCost<'a, P: Problem> {
             problem: &'a P,
             eval_count: Option<Arc<AtomicU64>>,
+            simplex: Arc<Mutex<Simplex>>,
         }
 
         impl<P: Problem> CostFunction for ProblemCost<'_, P> {
@@ -402,15 +411,39 @@ impl<P: Problem> LocalSolver<P> {
             type Output = f64;
 
             fn cost(&self, param: &Self::Param) -> std::result::Result<Self::Output, Error> {
+                let initial = {
+                    let mut simplex = self.simplex.lock().unwrap();
+                    let initial = simplex.evaluated <= param.len();
+                    simplex.evaluated += 1;
+                    if let (false, Some(reason)) = (initial, &simplex.failure) {
+                        return Err(Error::msg(reason.clone()));
+                    }
+                    initial
+                };
                 if let Some(counter) = &self.eval_count {
                     counter.fetch_add(1, Ordering::Relaxed);
                 }
-                self.problem.objective(param).map_err(|e| Error::msg(e.to_string()))
+                let reason = match self.problem.objective(param) {
+                    // The vertices could not be put in order
+                    Ok(cost) if cost.is_nan() => "Objective is NaN".to_string(),
+                    Ok(cost) => return Ok(cost),
+                    Err(e) => e.to_string(),
+                };
+                if !initial {
+                    return Err(Error::msg(reason));
+                }
+                self.simplex.lock().unwrap().failure.get_or_insert(reason);
+                Ok(f64::INFINITY)
             }
         }
 
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
-        let cost = ProblemCost { problem: &self.problem, eval_count: eval_count.clone() };
+        let simplex_state = Arc::new(Mutex::new(Simplex::default()));
+        let cost = ProblemCost {
+            problem: &self.problem,
+            eval_count: eval_count.clone(),
+            simplex: simplex_state.clone(),
+        };
 
         if let LocalSolverConfig::NelderMead {
             simplex_delta,
@@ -460,6 +493,13 @@ impl<P: Problem> LocalSolver<P> {
                     reason: e.to_string(),
                 })?;
 
+            if let Some(reason) = simplex_state.lock().unwrap().failure.take() {
+                return Err(LocalSolverError::RunFailed {
+                    solver_type: "unknown".to_string(),
+                    reason,
+                });
+            }
+
             let solution = LocalSolution {
                 point: res
                     .state()
-- 
2.43.0


From d7f34cd798442235d848da5a9aa663a3faeb8523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 26/28] fix: L-BFGS with L1 regularization reports the
 objective, not the penalized cost

---
 src/local_solver/runner.rs | 58 ++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index aff4a23..0f2384d 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -230,6 +230,18 @@ impl<P: Problem> LocalSolver<P> {
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
         let cost = ProblemCost { problem: &self.problem, eval_count: eval_count.clone() };
 
+        // The cost of an L1-regularized solution includes the penalty, its objective does not
+        let unregularized = ProblemCost { problem: &self.problem, eval_count: eval_count.clone() };
+        let objective_at = |point: &Array1<f64>, best_cost: f64, l1_coefficient: &Option<f64>| {
+            if l1_coefficient.is_none() {
+                return Ok(best_cost);
+            }
+            unregularized.cost(point).map_err(|e: Error| LocalSolverError::RunFailed {
+                solver_type: "unknown".to_string(),
+                reason: e.to_string(),
+            })
+        };
+
         if let LocalSolverConfig::LBFGS {
             max_iter,
             tolerance_grad,
@@ -280,18 +292,17 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solution = LocalSolution {
-                        point: res
-                            .state()
-                            .best_param
-                            .as_ref()
-                            .ok_or(LocalSolverError::NoSolution {
-                                solver_type: "unknown".to_string(),
-                                iterations: 0,
-                            })?
-                            .clone(),
-                        objective: res.state().best_cost,
-                    };
+                    let point = res
+                        .state()
+                        .best_param
+                        .as_ref()
+                        .ok_or(LocalSolverError::NoSolution {
+                            solver_type: "unknown".to_string(),
+                            iterations: 0,
+                        })?
+                        .clone();
+                    let objective = objective_at(&point, res.state().best_cost, l1_coefficient)?;
+                    let solution = LocalSolution { point, objective };
                     let evaluations =
                         eval_count.as_ref().map(|c| c.load(Ordering::Relaxed)).unwrap_or(0);
                     Ok((solution, evaluations))
@@ -355,18 +366,17 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solution = LocalSolution {
-                        point: res
-                            .state()
-                            .best_param
-                            .as_ref()
-                            .ok_or(LocalSolverError::NoSolution {
-                                solver_type: "unknown".to_string(),
-                                iterations: 0,
-                            })?
-                            .clone(),
-                        objective: res.state().best_cost,
-                    };
+                    let point = res
+                        .state()
+                        .best_param
+                        .as_ref()
+                        .ok_or(LocalSolverError::NoSolution {
+                            solver_type: "unknown".to_string(),
+                            iterations: 0,
+                        })?
+                        .clone();
+                    let objective = objective_at(&point, res.state().best_cost, l1_coefficient)?;
+                    let solution = LocalSolution { point, objective };
                     let evaluations =
                         eval_count.as_ref().map(|c| c.load(Ordering::Relaxed)).unwrap_or(0);
                     Ok((solution, evaluations))
-- 
2.43.0


From 93083a61c7be3464aa02b94c009b7a49d3aa937e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 27/28] fix: Python constraints are those of the problem being
 optimised, on every thread

The current problem was a thread-local: worker threads and nested runs used
the constraints of another problem or none. The registry was also locked while
waiting for the GIL and while Python code ran, so it could deadlock, and a
constraint that raised poisoned it for every later run.
---
 python/src/lib.rs | 157 +++++++++++++++++++---------------------------
 1 file changed, 66 insertions(+), 91 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 485eaf2..114db20 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -13,100 +13,80 @@ use ndarray::{Array1, Array2};
 use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use seq_macro::seq;
-use std::cell::Cell;
-use std::collections::HashMap;
-use std::sync::atomic::{AtomicUsize, Ordering};
-use std::sync::{Arc, Mutex};
+use std::sync::{Arc, Mutex, OnceLock};
 
-// Global constraint registry for COBYLA constraints
-type ConstraintRegistry = Arc<Mutex<HashMap<usize, Vec<Py<pyo3::PyAny>>>>>;
-static CONSTRAINT_REGISTRY: std::sync::OnceLock<ConstraintRegistry> = std::sync::OnceLock::new();
-static PROBLEM_ID_COUNTER: AtomicUsize = AtomicUsize::new(0);
+// The solvers take constraints as plain function pointers, so each of the functions generated below
+// stands for one slot of this table, and a run keeps the slots of its constraints until it ends.
+type Constraint = Arc<Py<pyo3::PyAny>>;
+static CONSTRAINT_SLOTS: Mutex<Vec<Option<Constraint>>> = Mutex::new(Vec::new());
 
 // Global mutex to serialize Python calls from parallel threads
 static PYTHON_CALL_MUTEX: std::sync::OnceLock<Mutex<()>> = std::sync::OnceLock::new();
 
-// Thread-local storage for current problem ID and constraint index during evaluation
-thread_local! {
-    static CURRENT_PROBLEM_ID: Cell<usize> = const { Cell::new(0) };
-    static CURRENT_CONSTRAINT_INDEX: Cell<usize> = const { Cell::new(0) };
-}
-
 fn get_python_call_mutex() -> &'static Mutex<()> {
     PYTHON_CALL_MUTEX.get_or_init(|| Mutex::new(()))
 }
 
-fn get_constraint_registry() -> &'static ConstraintRegistry {
-    CONSTRAINT_REGISTRY.get_or_init(|| Arc::new(Mutex::new(HashMap::new())))
-}
-
-fn get_next_problem_id() -> usize {
-    PROBLEM_ID_COUNTER.fetch_add(1, Ordering::SeqCst)
-}
-
-fn set_current_problem_id(id: usize) {
-    CURRENT_PROBLEM_ID.with(|current| current.set(id));
+// The slots held by the constraints of one run
+#[derive(Debug)]
+struct ConstraintSlots(Vec<usize>);
+
+impl ConstraintSlots {
+    fn new(constraints: Vec<Py<pyo3::PyAny>>) -> Self {
+        let mut slots = CONSTRAINT_SLOTS.lock().unwrap();
+        slots.resize(MAX_CONSTRAINTS, None);
+        let free: Vec<usize> =
+            (0..MAX_CONSTRAINTS).filter(|&i| slots[i].is_none()).take(constraints.len()).collect();
+        if free.len() < constraints.len() {
+            drop(slots);
+            panic!(
+                "Too many constraints! Maximum supported: {}, requested: {}",
+                MAX_CONSTRAINTS,
+                constraints.len()
+            );
+        }
+        for (&i, constraint) in free.iter().zip(constraints) {
+            slots[i] = Some(Arc::new(constraint));
+        }
+        ConstraintSlots(free)
+    }
 }
 
-fn get_current_problem_id() -> usize {
-    CURRENT_PROBLEM_ID.with(|current| current.get())
+impl Drop for ConstraintSlots {
+    fn drop(&mut self) {
+        let mut slots = CONSTRAINT_SLOTS.lock().unwrap();
+        let released: Vec<_> = self.0.iter().map(|&i| slots[i].take()).collect();
+        // Releasing Python objects may run Python code
+        drop(slots);
+        drop(released);
+    }
 }
 
-// Helper function to evaluate all constraints for a given problem ID
-fn evaluate_constraints_for_id(problem_id: usize, x: &[f64]) -> Vec<f64> {
-    let registry = get_constraint_registry();
-    let registry_lock = registry.lock().expect("Constraint registry mutex poisoned");
-
-    if let Some(constraints) = registry_lock.get(&problem_id) {
-        Python::attach(|py| {
-            constraints
-                .iter()
-                .map(|constraint| {
-                    let args = (x.to_vec(),);
-                    constraint
-                        .call1(py, args)
-                        .expect("Failed to call constraint function")
-                        .extract::<f64>(py)
-                        .expect("Constraint function must return a float")
-                })
-                .collect()
-        })
-    } else {
-        Vec::new()
-    }
+// Evaluate the constraint in a slot. The table is not locked while Python code runs.
+fn evaluate_constraint(slot: usize, x: &[f64]) -> f64 {
+    let constraint = CONSTRAINT_SLOTS.lock().unwrap()[slot].clone().expect("Constraint not in use");
+    Python::attach(|py| {
+        constraint
+            .call1(py, (x.to_vec(),))
+            .expect("Failed to call constraint function")
+            .extract::<f64>(py)
+            .expect("Constraint function must return a float")
+    })
 }
 
 // Generate constraint functions dynamically using macro (up to 1000 constraints)
 const MAX_CONSTRAINTS: usize = 1000;
 
 seq!(N in 0..1000 {
-    #[allow(clippy::get_first)]
     fn constraint_fn_~N(x: &[f64], _user_data: &mut ()) -> f64 {
-        let problem_id = get_current_problem_id();
-        let constraints = evaluate_constraints_for_id(problem_id, x);
-        constraints.get(N).copied().unwrap_or(0.0)
+        evaluate_constraint(N, x)
     }
 });
 
-// Helper to get constraint function pointers dynamically
-fn get_constraint_functions(num_constraints: usize) -> Vec<fn(&[f64], &mut ()) -> f64> {
-    if num_constraints > MAX_CONSTRAINTS {
-        panic!(
-            "Too many constraints! Maximum supported: {}, requested: {}",
-            MAX_CONSTRAINTS, num_constraints
-        );
-    }
-
-    let mut functions = Vec::new();
-
-    seq!(N in 0..1000 {
-        if N < num_constraints {
-            functions.push(constraint_fn_~N as fn(&[f64], &mut ()) -> f64);
-        }
-    });
-
-    functions
-}
+seq!(N in 0..1000 {
+    static CONSTRAINT_FUNCTIONS: [fn(&[f64], &mut ()) -> f64; MAX_CONSTRAINTS] =
+        [#(constraint_fn_~N,)*];
+});
 
 #[pyclass]
 #[derive(Debug, Clone)]
@@ -499,11 +479,8 @@ pub struct PyProblem {
     /// :raises ValueError: If any constraint function does not return a float
     constraints: Option<Py<pyo3::PyAny>>,
 
-    /// Unique ID for this problem instance (used for constraint management)
-    ///
-    /// :return: Unique problem ID (integer)
-    /// :rtype: int
-    problem_id: usize,
+    // The functions standing for the constraints during one run
+    slots: Arc<OnceLock<ConstraintSlots>>,
 }
 
 impl Clone for PyProblem {
@@ -514,7 +491,7 @@ impl Clone for PyProblem {
             gradient: self.gradient.as_ref().map(|g| g.clone_ref(py)),
             hessian: self.hessian.as_ref().map(|h| h.clone_ref(py)),
             constraints: self.constraints.as_ref().map(|c| c.clone_ref(py)),
-            problem_id: self.problem_id,
+            slots: Arc::clone(&self.slots),
         })
     }
 }
@@ -536,7 +513,7 @@ impl PyProblem {
             gradient,
             hessian,
             constraints,
-            problem_id: get_next_problem_id(),
+            slots: Arc::default(),
         }
     }
 }
@@ -660,9 +637,12 @@ impl Problem for PyProblem {
 
     fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
         if let Some(constraint_funcs) = &self.constraints {
-            // Register Python constraints in the global registry
-            let registry = get_constraint_registry();
-            let mut registry_lock = registry.lock().unwrap();
+            let functions = |slots: &ConstraintSlots| {
+                slots.0.iter().map(|&i| CONSTRAINT_FUNCTIONS[i]).collect()
+            };
+            if let Some(slots) = self.slots.get() {
+                return functions(slots);
+            }
 
             Python::attach(|py| {
                 // Extract individual constraint functions from the Python list/tuple
@@ -677,15 +657,7 @@ impl Problem for PyProblem {
                     vec![constraint_funcs.clone_ref(py)]
                 };
 
-                let num_constraints = constraint_list.len();
-                registry_lock.insert(self.problem_id, constraint_list);
-                drop(registry_lock); // Release the lock
-
-                // Set the current problem ID for constraint evaluation
-                set_current_problem_id(self.problem_id);
-
-                // Return appropriate number of function pointers
-                get_constraint_functions(num_constraints)
+                functions(self.slots.get_or_init(|| ConstraintSlots::new(constraint_list)))
             })
         } else {
             Vec::new()
@@ -785,7 +757,7 @@ impl Problem for PyProblem {
     with_points = None,
 ))]
 fn optimize(
-    problem: PyProblem,
+    mut problem: PyProblem,
     params: PyOQNLPParams,
     observer: Option<&PyObserver>,
     local_solver: Option<&str>,
@@ -798,6 +770,9 @@ fn optimize(
     parallel: Option<bool>,
     with_points: Option<Vec<Vec<f64>>>,
 ) -> PyResult<PySolutionSet> {
+    // Other runs of this problem have constraints of their own
+    problem.slots = Arc::default();
+
     Python::attach(|py| {
         // Convert local_solver string to enum
         let solver_type = LocalSolverType::from_string(local_solver.unwrap_or("cobyla"))
-- 
2.43.0


From e07dcadb7e2556acf5af1cc439abc6339450aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 28/28] fix: an optimisation inside a Python objective no
 longer deadlocks

A global mutex was held while the Python objective ran; the GIL already
serializes Python code.
---
 python/src/lib.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/python/src/lib.rs b/python/src/lib.rs
index 114db20..47d3cf8 100644
--- a/python/src/lib.rs
+++ b/python/src/lib.rs
@@ -20,13 +20,6 @@ use std::sync::{Arc, Mutex, OnceLock};
 type Constraint = Arc<Py<pyo3::PyAny>>;
 static CONSTRAINT_SLOTS: Mutex<Vec<Option<Constraint>>> = Mutex::new(Vec::new());
 
-// Global mutex to serialize Python calls from parallel threads
-static PYTHON_CALL_MUTEX: std::sync::OnceLock<Mutex<()>> = std::sync::OnceLock::new();
-
-fn get_python_call_mutex() -> &'static Mutex<()> {
-    PYTHON_CALL_MUTEX.get_or_init(|| Mutex::new(()))
-}
-
 // The slots held by the constraints of one run
 #[derive(Debug)]
 struct ConstraintSlots(Vec<usize>);
@@ -546,8 +539,6 @@ impl PyProblem {
 
 impl Problem for PyProblem {
     fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
-        // Serialize Python calls from parallel threads to avoid GIL deadlocks
-        let _guard = get_python_call_mutex().lock().unwrap();
         Python::attach(|py| {
             let x_py = x
                 .to_vec()
@@ -886,8 +877,8 @@ fn optimize(
         let parallel_enabled = parallel.unwrap_or(false);
 
         // For Python problems with parallel processing, we need special GIL handling
-        // When parallel=True, we allow threads during parallel computation but ensure
-        // Python calls are serialized with the mutex
+        // When parallel=True, we allow threads during parallel computation; the GIL
+        // serializes the Python calls
         let should_detach_gil = !parallel_enabled;
 
         // Add observer if provided
-- 
2.43.0

