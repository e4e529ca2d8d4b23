O='src/oqnlp.rs'; S='src/scatter_search.rs'; C='src/checkpoint.rs'; R='src/local_solver/runner.rs'; T='src/types.rs'; FI='src/filters.rs'

bug('c01-finish-order','C01',[(S,"""            trials.par_iter().filter_map(evaluate_trial).collect()
""","""            let accepted = std::sync::Mutex::new(Vec::new());
            trials.par_iter().for_each(|point| {
                if let Some(pair) = evaluate_trial(point) {
                    accepted.lock().expect("Trial mutex poisoned").push(pair);
                }
            });
            accepted.into_inner().expect("Trial mutex poisoned")
""")],
"parallel Stage 1 in which trial points finish in another order (evaluations of different speed)",
"accepted trial points are collected in finishing order, so the reference set and every later step depend on the schedule",
r'''
fn stage1(slow_first: bool) -> Vec<u64> {
    let n = Arc::new(AtomicUsize::new(0));
    let p = P::new(boxed(4.0, 2), move |x| {
        // trial points come after the 40 initial ones
        let k = n.fetch_add(1, Ordering::SeqCst);
        if k >= 40 {
            let left = x[0] < 0.0;
            if left == slow_first {
                std::thread::sleep(Duration::from_millis(15));
            }
        }
        wavy(x)
    });
    let (set, _) = ScatterSearch::new(p, params(10, 40, 3)).unwrap().run().unwrap();
    set.iter().flat_map(|(p, f)| p.iter().map(|v| v.to_bits()).chain([f.to_bits()]).collect::<Vec<_>>()).collect()
}

fn main() {
    std::env::set_var("RAYON_NUM_THREADS", "8");
    for _ in 0..3 {
        check(stage1(true) == stage1(false), "Stage 1 depends on the speed of evaluations");
    }
}
''')

bug('c02-last-of-equals','C02',[(S,"""                .par_iter()
                .enumerate()
                .min_by(|(_, a), (_, b)| a.total_cmp(b))
                .map(|(idx, _)| idx)
""","""                .par_iter()
                .enumerate()
                .reduce_with(|best, next| {
                    if next.1.total_cmp(best.1).is_le() { next } else { best }
                })
                .map(|(idx, _)| idx)
""")],
"several best points with exactly equal objective values (a plateau) in Stage 1",
"the parallel build starts the first local search from another point than the serial one",
r'''
fn main() {
    for seed in 0..20 {
        let mk = || P::new(boxed(3.0, 2), |x| (x[0] * x[0] + x[1] * x[1]).floor());
        let run = |par: bool| {
            let mut o = OQNLP::new(mk(), params(0, 40, seed)).unwrap().parallel(par).batch_iterations(1);
            bits(&o.run().unwrap())
        };
        check(run(true) == run(false), "parallel and serial runs differ");
    }
}
''')

bug('c03-recent-duplicates','C03',[(O,"""        set.iter().any(|s| {
            let diff = &candidate.point - &s.point;
""","""        // Duplicates turn up next to the solutions added last
        set.iter().rev().take(8).any(|s| {
            let diff = &candidate.point - &s.point;
""")],
"a solution set with more than eight members and a result that repeats an old one",
"a duplicate of an early member enters the set: two returned points closer than the distance factor",
r'''
fn main() {
    for seed in 0..30 {
        // Many equal minima at the integers
        let p = P::new(boxed(12.0, 1), |x| (x[0] * std::f64::consts::PI).sin().powi(2).mul_add(1.0, 0.0));
        let mut pr = params(120, 120, seed);
        pr.distance_factor = 0.2;
        pr.wait_cycle = 1;
        let mut o = OQNLP::new(p, pr).unwrap().parallel(false).with_tolerance(1e-4, 1e-6);
        let s = o.run().unwrap();
        let v: Vec<f64> = s.solutions().map(|l| l.point[0]).collect();
        for i in 0..v.len() {
            for j in 0..i {
                check((v[i] - v[j]).abs() >= 0.2, "two returned points are closer than the distance factor");
            }
        }
    }
}
''')

bug('c03-tolerance-drift','C03',[(O,"""        let current_best: &LocalSolution = &solutions[0];
""","""        let current_best: &LocalSolution = &solutions[solutions.len() - 1];
""")],
"several results that are each within the tolerance of the previous one but not of the first",
"the set drifts: returned values are not all within the tolerance of the first one",
r'''
fn main() {
    for seed in 0..40 {
        // minima at the integers, the value rising slowly with |x|
        let p = P::new(boxed(10.0, 1), |x| {
            (x[0] * std::f64::consts::PI).sin().powi(2) + 0.004 * (x[0] - 3.0).abs()
        });
        let mut pr = params(60, 60, seed);
        pr.wait_cycle = 1;
        let mut o = OQNLP::new(p, pr).unwrap().parallel(false).with_tolerance(0.01, 0.0);
        let s = o.run().unwrap();
        let v: Vec<f64> = s.solutions().map(|l| l.objective).collect();
        for x in &v {
            check((x - v[0]).abs() <= 0.01 + 1e-12, "values are not within the tolerance of the first");
        }
    }
}
''')

bug('c04-second-batch-unfiltered','C04',[(S,"""                let feasible_batch: Vec<Array1<f64>> =
                    new_batch.into_iter().filter(|point| is_feasible(point, constraints)).collect();
                candidates.extend(feasible_batch);
                attempts += 1;
""","""                // Stop filtering as soon as the feasible points make up the population
                let missing = self.params.population_size - candidates.len();
                let mut feasible = 0;
                candidates.extend(new_batch.into_iter().filter(|point| {
                    feasible += usize::from(is_feasible(point, constraints));
                    feasible >= missing || is_feasible(point, constraints)
                }));
                attempts += 1;
""")],
"a constrained problem whose first batch of samples has too few feasible points, refilled within one further batch",
"points that violate the constraints are evaluated in Stage 1 and enter the reference set",
r'''
fn half(x: &[f64], _: &mut ()) -> f64 {
    x[0] - 0.3
}

fn main() {
    for seed in 0..5 {
        let bad = Arc::new(AtomicUsize::new(0));
        let b = bad.clone();
        let mut p = P::new(boxed(2.0, 2), move |x| {
            if x[0] < 0.3 {
                b.fetch_add(1, Ordering::SeqCst);
            }
            wavy(x)
        });
        p.c = vec![half];
        let (set, _) = ScatterSearch::new(p, params(10, 30, seed)).unwrap().run().unwrap();
        check(bad.load(Ordering::SeqCst) == 0, "an infeasible point was evaluated in Stage 1");
        check(set.iter().all(|(x, _)| x[0] >= 0.3), "an infeasible point in the reference set");
    }
}
''')

bug('c05-near-target','C05',[(O,"""                let target_reached = best.objective <= target;
""","""                let target_reached = best.objective <= target + self.abs_tol;
""")],
"a best value just above the target, by less than the absolute tolerance",
"the run stops because of the target while its best is still above it",
r'''
fn main() {
    for seed in 0..10 {
        let run = |target: Option<f64>| {
            let n = Arc::new(AtomicUsize::new(0));
            let c = n.clone();
            let p = P::new(boxed(4.0, 2), move |x| {
                c.fetch_add(1, Ordering::SeqCst);
                wavy(x)
            });
            let mut pr = params(40, 40, seed);
            pr.wait_cycle = 1;
            let mut o = OQNLP::new(p, pr).unwrap().parallel(false).with_tolerance(0.5, 0.0);
            if let Some(t) = target {
                o = o.target_objective(t);
            }
            let s = bits(&o.run().unwrap());
            (s, n.load(Ordering::SeqCst))
        };
        let free = run(None);
        let best = free.0.iter().map(|s| f64::from_bits(s.1)).fold(f64::INFINITY, f64::min);
        // a target that the whole run misses by a little: it must not make a difference
        check(run(Some(best - 0.01)) == free, "the run was stopped by a target it never reached");
    }
}
''')

bug('c06-whole-seconds','C06',[(O,"""                if start.elapsed().as_secs_f64() > max_secs {
""","""                if start.elapsed().as_secs() as f64 > max_secs {
""")],
"a limit that is not a whole number of seconds (or a run between two whole seconds)",
"iterations are started up to a second after the time limit has elapsed",
r'''
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let late = Arc::new(Mutex::new((None::<Instant>, 0usize)));
    let (c, l) = (n.clone(), late.clone());
    let p = P::new(boxed(4.0, 2), move |x| {
        c.fetch_add(1, Ordering::SeqCst);
        std::thread::sleep(Duration::from_millis(5));
        wavy(x)
    });
    let mut pr = params(200, 200, 1);
    pr.wait_cycle = 1;
    pr.local_solver_config = COBYLABuilder::default().max_iter(20).build();
    pr.distance_factor = 0.0;
    let mut o = OQNLP::new(p, pr).unwrap().parallel(false).max_time(0.2).add_observer(
        Observer::new().with_stage2_tracking().with_timing(),
    );
    o.run().unwrap();
    let t = o.observer().unwrap().stage2().unwrap().total_time().unwrap();
    println!("stage 2 took {t} s with a limit of 0.2 s");
    check(t < 0.9, "iterations were started after the time limit");
}
''')

bug('c07-forgotten-rejections','C07',[(O,"""                let unchanged_cycles = self.unchanged_cycles;
                // No pre""","""                let unchanged_cycles = self.unchanged_cycles % self.params.wait_cycle.min(2).max(1);
                // No pre""")],
"a crash when two or more rejections had been counted towards the wait cycle",
"the rejection count is not restored, so the threshold is relaxed later than in the uninterrupted run",
r'''
fn main() {
    let mut differs = false;
    for seed in 0..40u64 {
        let run = |iters: usize, dir: &Path, auto_resume: bool| {
            let p = P::new(boxed(4.0, 2), |x| wavy(x));
            let mut pr = params(iters, 60, seed);
            pr.wait_cycle = 4;
            let mut o = OQNLP::new(p, pr)
                .unwrap()
                .parallel(false)
                .with_tolerance(100.0, 0.0)
                .with_checkpointing(CheckpointConfig {
                    checkpoint_dir: dir.to_path_buf(),
                    checkpoint_name: "c".into(),
                    save_frequency: 1,
                    keep_all: true,
                    auto_resume,
                })
                .unwrap();
            bits(&o.run().unwrap())
        };
        let whole = scratch(&format!("w{seed}"));
        let full = run(60, &whole, false);
        for cut in [3usize, 6, 11, 16, 26] {
            let part = scratch(&format!("p{seed}-{cut}"));
            // the state a crash after `cut` iterations leaves behind
            let name = format!("c_{cut:06}.bin");
            std::fs::copy(whole.join(&name), part.join(&name)).unwrap();
            differs |= run(60, &part, true) != full;
        }
    }
    check(!differs, "a resumed run differs from the uninterrupted one");
}
''')

bug('c07-filter-from-set','C07',[(O,"""            distance_filter_solutions: self.distance_filter.get_solutions().clone(),
""","""            distance_filter_solutions: self.compact_filter_solutions(),
"""),(O,"""    /// Create a checkpoint of the current state
    #[cfg(feature = "checkpointing")]
    fn create_checkpoint""","""    /// Solutions of the distance filter without exact repetitions
    #[cfg(feature = "checkpointing")]
    fn compact_filter_solutions(&self) -> Vec<LocalSolution> {
        let mut kept: Vec<LocalSolution> = self.distance_filter.get_solutions().clone();
        kept.dedup_by(|next, previous| self.distance_squared(next, previous) < 1.0);
        kept
    }

    #[cfg(feature = "checkpointing")]
    fn distance_squared(&self, a: &LocalSolution, b: &LocalSolution) -> f64 {
        let diff = &a.point - &b.point;
        diff.dot(&diff)
    }

    /// Create a checkpoint of the current state
    #[cfg(feature = "checkpointing")]
    fn create_checkpoint""")],
"a crash after two successive local searches ended near each other (but not in the same place)",
"the distance filter is saved incompletely: the resumed run starts searches the uninterrupted one rejects",
r'''
fn main() {
    let mut differs = false;
    for seed in 0..30u64 {
        let run = |dir: &Path, auto_resume: bool| {
            let p = P::new(boxed(1.5, 2), |x| wavy(x) * 0.01 + (x[0] - x[1]).abs());
            let mut pr = params(60, 60, seed);
            pr.wait_cycle = 1;
            pr.distance_factor = 0.4;
            let n = Arc::new(Mutex::new(Vec::<u64>::new()));
            let mut o = OQNLP::new(p, pr)
                .unwrap()
                .parallel(false)
                .with_tolerance(1.0, 0.0)
                .with_checkpointing(CheckpointConfig {
                    checkpoint_dir: dir.to_path_buf(),
                    checkpoint_name: "c".into(),
                    save_frequency: 1,
                    keep_all: true,
                    auto_resume,
                })
                .unwrap();
            bits(&o.run().unwrap())
        };
        let whole = scratch(&format!("w{seed}"));
        let full = run(&whole, false);
        for cut in [5usize, 15, 25, 40] {
            let part = scratch(&format!("p{seed}-{cut}"));
            let name = format!("c_{cut:06}.bin");
            std::fs::copy(whole.join(&name), part.join(&name)).unwrap();
            differs |= run(&part, true) != full;
        }
    }
    check(!differs, "a resumed run differs from the uninterrupted one");
}
''')

bug('c08-remove-before-save','C08',[(C,"""        let filepath = self.config.checkpoint_dir.join(filename);
        let encoded =""","""        let filepath = self.prepare_target(&filename)?;
        let encoded ="""),(C,"""    /// Load the latest checkpoint from disk
    pub fn""","""    /// Make room for a checkpoint: the file of an earlier save must not be in the way
    fn prepare_target(&self, filename: &str) -> Result<PathBuf, CheckpointError> {
        let filepath = self.config.checkpoint_dir.join(filename);
        match fs::remove_file(&filepath) {
            Err(e) if e.kind() != io::ErrorKind::NotFound => Err(CheckpointError::IoError {
                operation: "delete".to_string(),
                path: filepath,
                source: e,
            }),
            _ => Ok(filepath),
        }
    }

    /// Load the latest checkpoint from disk
    pub fn""")],
"a crash or a failing write while a later checkpoint replaces an earlier one",
"the previous checkpoint is deleted before the new one is written: after a failed save there is none",
r'''
fn main() {
    let dir = scratch("ck");
    let config = CheckpointConfig {
        checkpoint_dir: dir.clone(),
        checkpoint_name: "c".into(),
        save_frequency: 5,
        keep_all: false,
        auto_resume: false,
    };
    let p = P::new(boxed(4.0, 2), |x| wavy(x));
    let mut o = OQNLP::new(p, params(10, 30, 1)).unwrap().with_checkpointing(config.clone()).unwrap();
    o.run().unwrap();
    let m = CheckpointManager::new(config).unwrap();
    let saved = m.load_latest_checkpoint().unwrap();
    // Make every further write in the directory fail, as on a full disk
    let exe = std::env::current_exe().unwrap();
    let mut next = saved.clone();
    next.current_iteration += 1;
    // A directory in the place of every file name a save could write its data to
    for n in ["c.bin.tmp", "c.tmp", "c.bin~", "c.bin.new"] {
        std::fs::create_dir_all(dir.join(n).join("x")).unwrap();
    }
    let r = m.save_checkpoint(&next, next.current_iteration);
    let now = m.load_latest_checkpoint();
    match (r, now) {
        (Ok(_), Ok(c)) => check(c.current_iteration == next.current_iteration, "a saved checkpoint cannot be read"),
        (Err(_), Ok(c)) => check(c.current_iteration == saved.current_iteration, "a failed save changed the checkpoint"),
        (_, Err(e)) => check(false, &format!("no checkpoint is left after a save: {e}")),
    }
}
''')

bug('c09-lost-l1','C09',[('src/local_solver/builders.rs',"""        /// L1 regularization coefficient
        l1_coefficient: Option<f64>,
""","""        /// L1 regularization coefficient (not part of the saved state)
        #[cfg_attr(feature = "checkpointing", serde(skip))]
        l1_coefficient: Option<f64>,
""")],
"a checkpoint of a run whose L-BFGS solver uses L1 regularisation",
"the L1 coefficient is not saved: the checkpoint does not read back equal",
r'''
fn main() {
    let dir = scratch("ck");
    let config = CheckpointConfig {
        checkpoint_dir: dir.clone(),
        checkpoint_name: "c".into(),
        save_frequency: 5,
        keep_all: false,
        auto_resume: false,
    };
    let p = P::new(boxed(2.0, 2), |x| wavy(x));
    let mut pr = params(3, 20, 1);
    pr.local_solver_type = LocalSolverType::LBFGS;
    pr.local_solver_config = LBFGSBuilder::default().max_iter(5).l1_coefficient(Some(0.25)).build();
    let mut o = OQNLP::new(p, pr).unwrap().with_checkpointing(config.clone()).unwrap();
    o.run().unwrap();
    let m = CheckpointManager::new(config).unwrap();
    match m.load_latest_checkpoint().unwrap().params.local_solver_config {
        LocalSolverConfig::LBFGS { l1_coefficient, .. } => {
            check(l1_coefficient == Some(0.25), &format!("saved L1 coefficient 0.25, loaded {l1_coefficient:?}"))
        }
        other => check(false, &format!("loaded {other:?}")),
    }
}
''')

bug('c10-sorted-names','C10',[(C,"""        checkpoints.sort_by(|a, b| b.0.cmp(&a.0));
        for (_, path) in""","""        checkpoints.sort_by(|a, b| b.1.cmp(&a.1));
        for (_, path) in""")],
"an archive that crosses a million iterations (names of different length)",
"trimming deletes the newest checkpoints and keeps older ones",
r'''
fn main() {
    let dir = scratch("ck");
    let config = CheckpointConfig {
        checkpoint_dir: dir.clone(),
        checkpoint_name: "c".into(),
        save_frequency: 5,
        keep_all: true,
        auto_resume: false,
    };
    let p = P::new(boxed(4.0, 2), |x| wavy(x));
    let mut o = OQNLP::new(p, params(10, 30, 1)).unwrap().with_checkpointing(config.clone()).unwrap();
    o.run().unwrap();
    let m = CheckpointManager::new(config).unwrap();
    let mut c = m.load_latest_checkpoint().unwrap();
    for it in [999_998usize, 999_999, 1_000_000, 1_000_001] {
        c.current_iteration = it;
        m.save_checkpoint(&c, it).unwrap();
    }
    m.cleanup_old_checkpoints(2).unwrap();
    check(m.load_latest_checkpoint().unwrap().current_iteration == 1_000_001, "trimming deleted the newest checkpoint");
}
''')

bug('c11-single-search-evals','C11',[(O,"""                                stage2.add_function_evaluations(eval_count as usize);
                                if let Some(ref sol_set) = self.solution_set {
                                    if let Some(best) = sol_set.best_solution() {
                                        stage2.set_best_solution(best.objective, &best.point);
                                    }
                                    stage2.set_solution_set_size(sol_set.len());
                                }
                            }
                        }
                    }

                    // Observer: Update""","""                                if let Some(ref sol_set) = self.solution_set {
                                    if let Some(best) = sol_set.best_solution() {
                                        stage2.set_best_solution(best.objective, &best.point);
                                        if added {
                                            stage2.add_function_evaluations(eval_count as usize);
                                        }
                                    }
                                    stage2.set_solution_set_size(sol_set.len());
                                }
                            }
                        }
                    }

                    // Observer: Update""")],
"a parallel batch with exactly one local search, whose result does not enter the set",
"the evaluations of such a search are missing from the observer's count",
r'''
fn main() {
    for seed in 0..30u64 {
        let n = Arc::new(AtomicUsize::new(0));
        let c = n.clone();
        let p = P::new(boxed(4.0, 2), move |x| {
            c.fetch_add(1, Ordering::SeqCst);
            wavy(x)
        });
        let mut o = OQNLP::new(p, params(40, 60, seed)).unwrap().batch_iterations(4).add_observer(
            Observer::new().with_stage1_tracking().with_stage2_tracking(),
        );
        o.run().unwrap();
        let ob = o.observer().unwrap();
        let told = ob.stage1_final().unwrap().function_evaluations() + ob.stage2().unwrap().function_evaluations();
        check(told == n.load(Ordering::SeqCst), &format!("observer says {told}, {} calls were made", n.load(Ordering::SeqCst)));
    }
}
''')

bug('c12-threshold-when-watched','C12',[(O,"""            self.solution_set =
                Some(SolutionSet { solutions: Array1::from(vec![solution.clone()]) });
            self.merit_filter.update_threshold(solution.objective);

            // Update observer with the newly added solution
            if let Some(ref mut observer) = self.observer {
                if let Some(stage2) = observer.stage2_mut() {
                    stage2.set_last_added_solution(&solution.point);
                }
            }
""","""            self.solution_set =
                Some(SolutionSet { solutions: Array1::from(vec![solution.clone()]) });

            // Update observer with the newly added solution
            match self.observer.as_mut().and_then(|observer| observer.stage2_mut()) {
                Some(stage2) if stage2.local_solver_calls() > 0 => {
                    stage2.set_last_added_solution(&solution.point);
                    stage2.set_threshold_value(solution.objective);
                }
                _ => self.merit_filter.update_threshold(solution.objective),
            }
""")],
"an observer of Stage 2 and a new best found after the first Stage 2 search",
"the merit threshold is not lowered to a new best when a Stage 2 observer is attached, so other searches are made",
r'''
fn main() {
    for seed in 0..40u64 {
        let run = |watch: bool| {
            let pts = Arc::new(Mutex::new(Vec::new()));
            let l = pts.clone();
            let p = P::new(boxed(4.0, 4), move |x| {
                l.lock().unwrap().push((x[0].to_bits(), x[1].to_bits()));
                wavy(x) + 20.0 * (3.0 * x[0] * x[1]).sin()
            });
            let mut pr = params(100, 100, seed);
            pr.wait_cycle = 2;
            let mut o = OQNLP::new(p, pr).unwrap().parallel(false);
            if watch {
                o = o.add_observer(Observer::new().with_stage2_tracking());
            }
            let s = bits(&o.run().unwrap());
            let v = pts.lock().unwrap().clone();
            (s, v)
        };
        check(run(true) == run(false), "attaching an observer changes what the run does");
    }
}
''')

bug('c13-unlucky-point','C13',[(R,"""                self.problem.objective(&point).unwrap_or(f64::INFINITY)
""","""                self.problem.objective(&point).unwrap_or(f64::MIN)
""")],
"an objective that fails (returns an error) at a point COBYLA probes",
"a failed evaluation inside COBYLA looks like an excellent value, and the failing point is returned as a solution",
r'''
fn main() {
    for seed in 0..10u64 {
        let f: Fun = Arc::new(|x: &Array1<f64>| {
            // not defined in a small region, in which no sample of Stage 1 lies
            if (x[0] - 0.5).abs() < 0.05 && (x[1] - 0.5).abs() < 0.05 {
                Err(EvaluationError::DivisionByZero)
            } else {
                Ok((x[0] - 0.5).powi(2) + (x[1] - 0.5).powi(2))
            }
        });
        let p = P { f: f.clone(), b: boxed(4.0, 2), c: vec![] };
        let mut o = OQNLP::new(p, params(5, 10, seed)).unwrap().parallel(false);
        if let Ok(s) = o.run() {
            for l in s.solutions() {
                let v = f(&l.point);
                check(matches!(v, Ok(v) if (v - l.objective).abs() < 1e-9), "a returned solution is not honest");
            }
        }
    }
}
''')

bug('c15-strictly-below','C15',[(O,"""                let passes_merit = *obj <= self.merit_filter.threshold;
""","""                let passes_merit = *obj < self.merit_filter.threshold;
""")],
"a trial point of a parallel batch whose value equals the threshold exactly (plateaus)",
"no local search is started from a point whose value equals the threshold",
r'''
fn main() {
    // everywhere equal: every point equals the threshold, so every point far from the found ones is searched
    let starts = |batch: usize| {
        let p = P::new(boxed(50.0, 2), |_| 1.0);
        let mut pr = params(20, 30, 1);
        pr.wait_cycle = 1000;
        let mut o = OQNLP::new(p, pr).unwrap().batch_iterations(batch).add_observer(
            Observer::new().with_stage2_tracking(),
        );
        o.run().unwrap();
        o.observer().unwrap().stage2().unwrap().local_solver_calls()
    };
    let (serial, batched) = (starts(1), starts(4));
    println!("searches: serial {serial}, in batches {batched}");
    check(serial >= 10 && batched >= 10, "points at the threshold are not searched");
}
''')

bug('c16-shared-samples','C16',[(S,"""        // Precompute seeds while holding the mutex once
        let seeds: Vec<u64> = {
            let mut rng = self.rng.lock().expect("RNG mutex poisoned");
            (0..n).map(|_| rng.random::<u64>()).collect::<Vec<_>>()
        };
""","""        // Precompute seeds while holding the mutex once, in a buffer kept between calls
        static BUFFER: Mutex<Vec<u64>> = Mutex::new(Vec::new());
        {
            let mut rng = self.rng.lock().expect("RNG mutex poisoned");
            let mut buffer = BUFFER.lock().expect("Seed buffer poisoned");
            buffer.clear();
            buffer.extend((0..n).map(|_| rng.random::<u64>()));
        }
        let seeds: Vec<u64> = BUFFER.lock().expect("Seed buffer poisoned").clone();
""")],
"two optimisers drawing their samples at the same moment",
"one optimiser takes the seeds another one has just written into the shared buffer",
r'''
fn main() {
    let one = |seed: u64| {
        let p = P::new(boxed(4.0, 2), |x| wavy(x));
        let pr = params(1, 4000, seed);
        let s = ScatterSearch::new(p, pr).unwrap().parallel(false);
        s.generate_stratified_samples(400).unwrap().iter().map(|x| x[0].to_bits()).collect::<Vec<_>>()
    };
    let alone: Vec<_> = (0..8).map(one).collect();
    for round in 0..300 {
        let together: Vec<_> = std::thread::scope(|s| {
            let h: Vec<_> = (0..8u64).map(|i| s.spawn(move || (0..4).map(|_| one(i)).collect::<Vec<_>>())).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (i, t) in together.iter().enumerate() {
            check(t.iter().all(|t| *t == alone[i]), "an optimiser is influenced by a concurrent one");
        }
    }
}
''')

bug('c17-old-solver','C17',[(O,"""            // Update with new parameters
            checkpoint.params = new_params.clone();

            self.restore""","""            // Update with new parameters; the saved local solutions stay comparable
            let local_solver_config = checkpoint.params.local_solver_config.clone();
            checkpoint.params = OQNLPParams { local_solver_config, ..new_params.clone() };

            self.restore""")],
"resuming from a given checkpoint file with another local-solver configuration of the same solver",
"the new local-solver settings are ignored after the resume",
r'''
fn main() {
    let evals = |max_iter: u64, dir: &str| {
        let n = Arc::new(AtomicUsize::new(0));
        let c = n.clone();
        let d = scratch(dir);
        let config = CheckpointConfig {
            checkpoint_dir: d.clone(),
            checkpoint_name: "c".into(),
            save_frequency: 5,
            keep_all: false,
            auto_resume: false,
        };
        let p = P::new(boxed(4.0, 2), move |x| {
            c.fetch_add(1, Ordering::SeqCst);
            wavy(x)
        });
        let mut pr = params(10, 60, 1);
        pr.wait_cycle = 1;
        pr.distance_factor = 0.0;
        pr.local_solver_config = COBYLABuilder::default().max_iter(20).build();
        let mut o = OQNLP::new(p, pr.clone()).unwrap().parallel(false).with_checkpointing(config.clone()).unwrap();
        o.run().unwrap();
        pr.iterations = 60;
        pr.local_solver_config = COBYLABuilder::default().max_iter(max_iter).build();
        o.resume_from_checkpoint_with_params(&d.join("c.bin"), pr).unwrap();
        n.store(0, Ordering::SeqCst);
        o.run().unwrap();
        n.load(Ordering::SeqCst)
    };
    let (few, many) = (evals(20, "a"), evals(300, "b"));
    println!("evaluations after resuming: {few} with 20 per search, {many} with 300");
    check(many > few, "the new local-solver settings have no effect");
}
''')

bug('c18-kept-in-place','C18',[(S,"""        // Partition the remaining to get the pop_size best overall
        all_points.select_nth_unstable_by(pop_size - 1, |a, b| a.1.total_cmp(&b.1));
""","""        // Partition the remaining to get the pop_size best overall
        let trials_kept = all_points.len() - pop_size;
        if trials_kept > k {
            all_points.select_nth_unstable_by(pop_size - 1, |a, b| a.1.total_cmp(&b.1));
        }
""")],
"a Stage 1 in which only a few trial points (at most the square root of the population) improve on the worst member",
"points better than kept ones are left out of the reference set",
r'''
fn main() {
    for seed in 0..200u64 {
        let seen = Arc::new(Mutex::new(Vec::<f64>::new()));
        let l = seen.clone();
        let p = P::new(boxed(4.0, 3), move |x| {
            let v = wavy(x) + 30.0 * (x[0] * 7.0).sin();
            l.lock().unwrap().push(v);
            v
        });
        let pop = 16 + (seed % 3) as usize * 20;
        let (set, _) = ScatterSearch::new(p, params(10, pop, seed)).unwrap().parallel(false).run().unwrap();
        let worst = set.iter().map(|s| s.1).fold(f64::NEG_INFINITY, f64::max);
        let better = seen.lock().unwrap().iter().filter(|v| **v < worst).count();
        check(better < set.len(), "a better evaluated point was left out");
    }
}
''')
