//! Runs globalsearch jobs inside the simulator.
pub mod problem;
use globalsearch::checkpoint::CheckpointManager;
use globalsearch::local_solver::builders::*;
use globalsearch::local_solver::runner::LocalSolver;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::OQNLP;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::*;
use ndarray::{Array1, Array2};
use problem::*;
use serde::{Deserialize, Serialize};
use std::path::PathBuf;
use std::sync::Arc;

pub const SOLVERS: u8 = 10;
/// gradient-based solvers ask for the gradient at the start of every search
pub fn uses_gradient(s: u8) -> bool {
    s >= 2
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Params {
    pub iterations: usize,
    pub population: usize,
    pub wait_cycle: usize,
    pub threshold_factor: f64,
    pub distance_factor: f64,
    pub solver: u8,
    pub solver_iters: u64,
    pub seed: u64,
    /// 0: the solver's default options; odd: other options a search may be run with; even:
    /// arbitrary options, which are only saved and loaded
    #[serde(default)]
    pub tune: u64,
}

/// deterministic source of option values
struct Tune(u64);
impl Tune {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn pick(&mut self, v: &[f64]) -> f64 {
        v[(self.next() % v.len() as u64) as usize]
    }
    fn any(&mut self) -> f64 {
        match self.next() % 8 {
            0 => 0.0,
            1 => f64::INFINITY,
            2 => -(self.next() as f64) / 1e18,
            _ => self.next() as f64 / 1.8446744073709552e19,
        }
    }
    fn list(&mut self, max: u64) -> Vec<f64> {
        (0..self.next() % (max + 1)).map(|_| self.any()).collect()
    }
}

fn wild_line_search(hz: bool, t: &mut Tune) -> LineSearchParams {
    if hz {
        let b = Array1::from_vec(vec![t.any(), t.any()]);
        LineSearchParams::hagerzhang()
            .delta(t.any())
            .sigma(t.any())
            .epsilon(t.any())
            .theta(t.any())
            .gamma(t.any())
            .eta(t.any())
            .bounds(b)
            .build()
    } else {
        let b = Array1::from_vec(vec![t.any(), t.any()]);
        LineSearchParams::morethuente()
            .c1(t.any())
            .c2(t.any())
            .width_tolerance(t.any())
            .bounds(b)
            .build()
    }
}

/// arbitrary options: they need only survive being saved and loaded
fn wild_config(solver: u8, mi: u64, t: &mut Tune) -> LocalSolverConfig {
    let l1 = if t.next() % 3 == 0 {
        None
    } else {
        Some(t.any())
    };
    match solver {
        0 => COBYLABuilder::default()
            .max_iter(mi)
            .initial_step_size(t.any())
            .ftol_rel(t.any())
            .ftol_abs(t.any())
            .xtol_rel(t.any())
            .xtol_abs(t.list(4))
            .build(),
        1 => NelderMeadBuilder::default()
            .max_iter(mi)
            .simplex_delta(t.any())
            .sd_tolerance(t.any())
            .alpha(t.any())
            .gamma(t.any())
            .rho(t.any())
            .sigma(t.any())
            .build(),
        2 | 3 => LBFGSBuilder::default()
            .max_iter(mi)
            .tolerance_grad(t.any())
            .tolerance_cost(t.any())
            .history_size((t.next() % 30) as usize)
            .l1_coefficient(l1)
            .line_search_params(wild_line_search(solver == 3, t))
            .build(),
        4 | 8 => SteepestDescentBuilder::default()
            .max_iter(mi)
            .line_search_params(wild_line_search(solver == 8, t))
            .build(),
        5 | 6 => TrustRegionBuilder::default()
            .max_iter(mi)
            .method(if solver == 5 {
                TrustRegionRadiusMethod::Cauchy
            } else {
                TrustRegionRadiusMethod::Steihaug
            })
            .radius(t.any())
            .max_radius(t.any())
            .eta(t.any())
            .build(),
        _ => NewtonCGBuilder::default()
            .max_iter(mi)
            .curvature_threshold(t.any())
            .tolerance(t.any())
            .line_search_params(wild_line_search(solver != 7, t))
            .build(),
    }
}

/// other options within the documented ranges
fn tuned_config(solver: u8, mi: u64, t: &mut Tune) -> LocalSolverConfig {
    let l1 = if t.next() % 2 == 0 {
        None
    } else {
        Some(t.pick(&[0.01, 0.1, 1.0]))
    };
    let line = |hz: bool| {
        if hz {
            LineSearchParams::hagerzhang().build()
        } else {
            LineSearchParams::morethuente().build()
        }
    };
    match solver {
        0 => COBYLABuilder::default()
            .max_iter(mi)
            .initial_step_size(t.pick(&[0.05, 0.2, 1.0, 2.0]))
            .ftol_rel(t.pick(&[0.0, 1e-6, 1e-3]))
            .ftol_abs(t.pick(&[0.0, 1e-6, 1e-3]))
            .xtol_rel(t.pick(&[0.0, 1e-6, 1e-3]))
            .build(),
        1 => NelderMeadBuilder::default()
            .max_iter(mi)
            .simplex_delta(t.pick(&[0.01, 0.3, 1.0]))
            .sd_tolerance(t.pick(&[1e-8, 1e-3]))
            .alpha(t.pick(&[1.0, 0.9]))
            .gamma(t.pick(&[2.0, 1.5]))
            .rho(t.pick(&[0.5, 0.3]))
            .sigma(t.pick(&[0.5, 0.7]))
            .build(),
        2 | 3 => LBFGSBuilder::default()
            .max_iter(mi)
            .tolerance_grad(t.pick(&[1e-8, 1e-3]))
            .tolerance_cost(t.pick(&[1e-12, 1e-4]))
            .history_size(1 + (t.next() % 10) as usize)
            .l1_coefficient(l1)
            .line_search_params(line(solver == 3))
            .build(),
        4 | 8 => SteepestDescentBuilder::default()
            .max_iter(mi)
            .line_search_params(line(solver == 8))
            .build(),
        5 | 6 => TrustRegionBuilder::default()
            .max_iter(mi)
            .method(if solver == 5 {
                TrustRegionRadiusMethod::Cauchy
            } else {
                TrustRegionRadiusMethod::Steihaug
            })
            .radius(t.pick(&[0.1, 1.0, 3.0]))
            .max_radius(t.pick(&[5.0, 100.0]))
            .eta(t.pick(&[0.0, 0.125, 0.2]))
            .build(),
        _ => NewtonCGBuilder::default()
            .max_iter(mi)
            .curvature_threshold(t.pick(&[0.0, 1e-3]))
            .tolerance(t.pick(&[1e-9, 1e-4]))
            .line_search_params(line(solver != 7))
            .build(),
    }
}

/// as number of iterations: the solver as it is when nothing is said about it
pub const DEFAULT_SOLVER: u64 = u64::MAX;

pub fn build_params(p: &Params) -> OQNLPParams {
    let mi = p.solver_iters;
    use LocalSolverType as T;
    let (t, c) = match p.solver {
        0 => (T::COBYLA, COBYLABuilder::default().max_iter(mi).build()),
        1 => (
            T::NelderMead,
            NelderMeadBuilder::default().max_iter(mi).build(),
        ),
        2 => (
            T::LBFGS,
            LBFGSBuilder::default()
                .max_iter(mi)
                .line_search_params(LineSearchParams::morethuente().build())
                .build(),
        ),
        3 => (
            T::LBFGS,
            LBFGSBuilder::default()
                .max_iter(mi)
                .line_search_params(LineSearchParams::hagerzhang().build())
                .build(),
        ),
        4 => (
            T::SteepestDescent,
            SteepestDescentBuilder::default()
                .max_iter(mi)
                .line_search_params(LineSearchParams::morethuente().build())
                .build(),
        ),
        5 => (
            T::TrustRegion,
            TrustRegionBuilder::default()
                .max_iter(mi)
                .method(TrustRegionRadiusMethod::Cauchy)
                .build(),
        ),
        6 => (
            T::TrustRegion,
            TrustRegionBuilder::default()
                .max_iter(mi)
                .method(TrustRegionRadiusMethod::Steihaug)
                .build(),
        ),
        7 => (
            T::NewtonCG,
            NewtonCGBuilder::default()
                .max_iter(mi)
                .line_search_params(LineSearchParams::morethuente().build())
                .build(),
        ),
        8 => (
            T::SteepestDescent,
            SteepestDescentBuilder::default()
                .max_iter(mi)
                .line_search_params(LineSearchParams::hagerzhang().build())
                .build(),
        ),
        _ => (
            T::NewtonCG,
            NewtonCGBuilder::default()
                .max_iter(mi)
                .line_search_params(LineSearchParams::hagerzhang().build())
                .build(),
        ),
    };
    let c = match p.tune {
        _ if mi == DEFAULT_SOLVER => match t {
            T::COBYLA => COBYLABuilder::default().build(),
            T::NelderMead => NelderMeadBuilder::default().build(),
            T::LBFGS => LBFGSBuilder::default().build(),
            T::SteepestDescent => SteepestDescentBuilder::default().build(),
            T::TrustRegion => TrustRegionBuilder::default().build(),
            T::NewtonCG => NewtonCGBuilder::default().build(),
        },
        0 => c,
        n if n % 2 == 1 => tuned_config(p.solver, mi, &mut Tune(n)),
        n => wild_config(p.solver, mi, &mut Tune(n)),
    };
    OQNLPParams {
        iterations: p.iterations,
        population_size: p.population,
        wait_cycle: p.wait_cycle,
        threshold_factor: p.threshold_factor,
        distance_factor: p.distance_factor,
        local_solver_type: t,
        local_solver_config: c,
        seed: p.seed,
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CkCfg {
    pub dir: String,
    pub name: String,
    pub freq: usize,
    pub keep_all: bool,
    pub auto_resume: bool,
}
impl CkCfg {
    fn build(&self) -> CheckpointConfig {
        CheckpointConfig {
            checkpoint_dir: PathBuf::from(&self.dir),
            checkpoint_name: self.name.clone(),
            save_frequency: self.freq,
            keep_all: self.keep_all,
            auto_resume: self.auto_resume,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ObsCfg {
    /// 0 both, 1 stage 1 only, 2 stage 2 only
    pub mode: u8,
    pub s1: bool,
    pub s2: bool,
    pub timing: bool,
    /// 0 none, 1 recording callback, 2 default, 3 stage 1, 4 stage 2 printing callbacks
    pub cb: u8,
    pub freq: Option<usize>,
    pub unique: bool,
    /// the callback takes this long
    pub cost_us: u64,
    /// the process dies in the n-th callback
    pub kill_at: Option<u64>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Resume {
    pub params: Params,
    /// explicit checkpoint file instead of the newest
    pub path: Option<String>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RunCfg {
    pub prob: ProblemCfg,
    pub params: Params,
    pub custom: Vec<Vec<f64>>,
    pub parallel: bool,
    pub batch: Option<usize>,
    pub target: Option<f64>,
    pub max_time: Option<f64>,
    pub exclude: bool,
    pub tol: Option<(f64, f64)>,
    pub verbose: bool,
    pub observer: Option<ObsCfg>,
    pub ck: Option<CkCfg>,
    pub resume: Option<Resume>,
    /// run inside a pool of its own with this many threads
    pub pool: Option<usize>,
}

/// Operations on a checkpoint directory.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CkOp {
    Save {
        it: usize,
        ck: CkData,
    },
    LoadLatest,
    LoadPath(String),
    ReadFile(String),
    Exists,
    Cleanup(usize),
    /// plain files next to the checkpoints, written by someone else
    Put(String, Vec<u8>),
    Remove(String),
    /// the process dies, the system goes on
    Kill,
    /// the system dies
    Power(u64),
}

/// Mirror of a checkpoint's contents.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct CkData {
    pub params: Params,
    pub iteration: usize,
    pub threshold: f64,
    pub solutions: Option<Vec<Sol>>,
    pub reference: Vec<Vec<f64>>,
    pub unchanged: usize,
    pub elapsed: f64,
    pub filter: Vec<Sol>,
    pub cur_seed: u64,
    pub target: Option<f64>,
    pub exclude: bool,
    pub batch: Option<usize>,
    pub parallel: bool,
    pub abs_tol: f64,
    pub rel_tol: f64,
    pub timestamp: String,
    /// debug text of solver settings (filled on load)
    pub solver_text: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Job {
    Optimize(RunCfg),
    Stage1(RunCfg),
    Ck(CkCfg, Vec<CkOp>),
    /// local searches with the public local solver from each start
    Local(ProblemCfg, Params, Vec<Vec<f64>>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Sol {
    pub x: Vec<f64>,
    pub f: f64,
}

impl Sol {
    fn of(s: &LocalSolution) -> Sol {
        Sol {
            x: s.point.to_vec(),
            f: s.objective,
        }
    }
    pub fn bits(&self) -> (Vec<u64>, u64) {
        (
            self.x.iter().map(|v| v.to_bits()).collect(),
            self.f.to_bits(),
        )
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct S1Snap {
    pub evals: u64,
    pub trials: u64,
    pub refsize: u64,
    pub best: f64,
    pub best_point: Option<Vec<f64>>,
    pub substage: String,
    pub time: Option<f64>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct S2Snap {
    pub evals: u64,
    pub iteration: u64,
    pub calls: u64,
    pub improved: u64,
    pub set: u64,
    pub unchanged: u64,
    pub threshold: f64,
    pub best: f64,
    pub best_point: Option<Vec<f64>>,
    pub last_added: Option<Vec<f64>>,
    pub time: Option<f64>,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ObsSnap {
    pub s1: Option<S1Snap>,
    pub s1_final: Option<S1Snap>,
    pub s2: Option<S2Snap>,
    pub elapsed: Option<f64>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Res {
    Set(Vec<Sol>),
    Err(String),
    Panic(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RunOut {
    pub res: Res,
    pub best: Option<Sol>,
    pub obs: Option<ObsSnap>,
    /// observer read again one simulated second later
    pub obs_later: Option<ObsSnap>,
    pub resumed: Option<Result<bool, String>>,
    pub t0: u64,
    pub t1: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum CkOut {
    Saved(Result<String, String>),
    Loaded(Result<Box<CkData>, String>),
    Exists(bool),
    Done(Result<(), String>),
    Panic(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct LocalOut {
    pub res: Result<Sol, String>,
    pub counted: u64,
    /// events of this search are in [from, to)
    pub from: u64,
    pub to: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum JobOut {
    Run(RunOut),
    Stage1 {
        res: Result<(Vec<Sol>, Vec<f64>), String>,
        panic: Option<String>,
        obs: Option<ObsSnap>,
    },
    Ck(Result<Vec<CkOut>, String>),
    Local(Vec<LocalOut>),
}

/// One process: caller threads, each running its jobs in order.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Inc {
    pub threads: Vec<Vec<Job>>,
    /// processors of the simulated machine (size of the default pool)
    pub cpus: u64,
    /// the jobs go through the Python bindings
    #[serde(default)]
    pub py: Option<PyOpts>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PyOpts {
    /// percentage of evaluations that release the interpreter's lock
    pub release: u64,
    /// all problem objects are created (and kept) before the first optimisation
    pub early: bool,
    /// jobs with the same tag share their problem object
    pub keep: bool,
    /// constraints as list (0), tuple (1), single function (2)
    pub style: u8,
    /// the n-th evaluation of the problem with this tag runs another optimisation
    pub nested: Option<(i64, u64, Box<RunCfg>)>,
    /// kind of that evaluation
    #[serde(default)]
    pub nested_in: u8,
    /// evaluations and callbacks read the observer of the optimisation, too
    #[serde(default)]
    pub peek: bool,
    /// another Python thread reads the observer all the time
    #[serde(default)]
    pub monitor: bool,
    /// a caller's optimisations share one problem object, whose attributes (1) or
    /// constraint list (2) change in between
    #[serde(default)]
    pub reuse: u8,
}

fn snap1(s: &globalsearch::observers::Stage1State) -> S1Snap {
    S1Snap {
        evals: s.function_evaluations() as u64,
        trials: s.trial_points_generated() as u64,
        refsize: s.reference_set_size() as u64,
        best: s.best_objective(),
        best_point: s.best_point().map(|p| p.to_vec()),
        substage: s.current_substage().to_string(),
        time: s.total_time(),
    }
}
fn snap(o: &Observer) -> ObsSnap {
    ObsSnap {
        s1: o.stage1().map(snap1),
        s1_final: o.stage1_final().map(snap1),
        s2: o.stage2().map(|s| S2Snap {
            evals: s.function_evaluations() as u64,
            iteration: s.current_iteration() as u64,
            calls: s.local_solver_calls() as u64,
            improved: s.improved_local_calls() as u64,
            set: s.solution_set_size() as u64,
            unchanged: s.unchanged_cycles() as u64,
            threshold: s.threshold_value(),
            best: s.best_objective(),
            best_point: s.best_point().map(|p| p.to_vec()),
            last_added: s.last_added_point().map(|p| p.to_vec()),
            time: s.total_time(),
        }),
        elapsed: o.elapsed_time(),
    }
}

/// snapshots taken in callbacks travel in the event list, encoded here
pub fn decode_snap(x: &[f64]) -> ObsSnap {
    let b: Vec<u8> = x.iter().flat_map(|v| v.to_bits().to_le_bytes()).collect();
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    simcore::decode(&b[8..8 + n])
}
pub fn encode_snap(s: &ObsSnap) -> Vec<f64> {
    let mut b = simcore::encode(s);
    let mut v = (b.len() as u64).to_le_bytes().to_vec();
    v.append(&mut b);
    while v.len() % 8 != 0 {
        v.push(0);
    }
    v.chunks(8)
        .map(|c| f64::from_bits(u64::from_le_bytes(c.try_into().unwrap())))
        .collect()
}

fn build_observer(o: &ObsCfg, tag: i64) -> Observer {
    let mut ob = Observer::new();
    if o.s1 {
        ob = ob.with_stage1_tracking();
    }
    if o.s2 {
        ob = ob.with_stage2_tracking();
    }
    if o.timing {
        ob = ob.with_timing();
    }
    ob = ob.with_mode(match o.mode {
        1 => ObserverMode::Stage1Only,
        2 => ObserverMode::Stage2Only,
        _ => ObserverMode::Both,
    });
    if o.unique {
        ob = ob.unique_updates();
    }
    match o.cb {
        1 => {
            let (cost, kill) = (o.cost_us, o.kill_at);
            ob = ob.with_callback(move |ob: &mut Observer| {
                let n = simcore::bump(tag, CB);
                if kill == Some(n) {
                    simcore::count_fault("kill_in_callback");
                    simcore::crash_kill();
                }
                {
                    let _g = simcore::enter();
                    let s = snap(ob);
                    simcore::event(CB, tag, &encode_snap(&s), 0.0, "");
                }
                if cost > 0 {
                    simcore::sleep_ns(cost * 1000);
                } else {
                    simcore::point();
                }
            });
        }
        2 => ob = ob.with_default_callback(),
        3 => ob = ob.with_stage1_callback(),
        4 => ob = ob.with_stage2_callback(),
        _ => {}
    }
    if let Some(f) = o.freq {
        ob = ob.with_callback_frequency(f);
    }
    ob
}

fn e2s(e: impl std::fmt::Display) -> String {
    format!("{e}")
}

fn optimize(c: &RunCfg) -> RunOut {
    let tag = c.prob.tag;
    let prob = SimProblem {
        c: Arc::new(c.prob.clone()),
    };
    let t0 = simcore::now();
    simcore::event(MARK, tag, &[], 0.0, "start");
    let mut out = RunOut {
        res: Res::Err("not run".into()),
        best: None,
        obs: None,
        obs_later: None,
        resumed: None,
        t0,
        t1: t0,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<_, String> {
        let mut o = OQNLP::new(prob, build_params(&c.params)).map_err(e2s)?;
        #[cfg(feature = "rayon")]
        {
            o = o.parallel(c.parallel);
            if let Some(b) = c.batch {
                o = o.batch_iterations(b);
            }
        }
        if !c.custom.is_empty() {
            let d = c.custom[0].len();
            let a = Array2::from_shape_fn((c.custom.len(), d), |(i, j)| c.custom[i][j]);
            o = o.with_points(a).map_err(e2s)?;
        }
        if let Some(t) = c.target {
            o = o.target_objective(t);
        }
        if let Some(t) = c.max_time {
            o = o.max_time(t);
        }
        if c.exclude {
            o = o.exclude_out_of_bounds();
        }
        if let Some((a, r)) = c.tol {
            o = o.with_tolerance(a, r);
        }
        if c.verbose {
            o = o.verbose();
        }
        if let Some(ob) = &c.observer {
            o = o.add_observer(build_observer(ob, tag));
        }
        if let Some(k) = &c.ck {
            o = o.with_checkpointing(k.build()).map_err(e2s)?;
        }
        let mut resumed = None;
        if let Some(r) = &c.resume {
            let np = build_params(&r.params);
            resumed = Some(match &r.path {
                None => o.resume_with_modified_params(np).map_err(e2s),
                Some(p) => o
                    .resume_from_checkpoint_with_params(&PathBuf::from(p), np)
                    .map(|_| true)
                    .map_err(e2s),
            });
            if let Some(Err(_)) = resumed {
                return Ok((Err("resume failed".to_string()), None, None, None, resumed));
            }
        }
        simcore::event(MARK, tag, &[], 0.0, "run");
        let rr = o.run();
        simcore::event(MARK, tag, &[], 0.0, "end");
        let obs = o.observer().map(snap);
        let later = if o.observer().is_some() {
            simcore::sleep_ns(1_000_000_000);
            o.observer().map(snap)
        } else {
            None
        };
        Ok(match rr {
            Ok(s) => {
                let v: Vec<Sol> = s.solutions().map(Sol::of).collect();
                (Ok(v), s.best_solution().map(Sol::of), obs, later, resumed)
            }
            Err(e) => (Err(e2s(e)), None, obs, later, resumed),
        })
    }));
    match r {
        Ok(Ok((res, best, obs, later, resumed))) => {
            out.res = match res {
                Ok(v) => Res::Set(v),
                Err(e) => Res::Err(e),
            };
            out.best = best;
            out.obs = obs;
            out.obs_later = later;
            out.resumed = resumed;
        }
        Ok(Err(e)) => out.res = Res::Err(e),
        Err(p) => out.res = Res::Panic(simcore::panic_text(&*p)),
    }
    out.t1 = simcore::now();
    simcore::event(MARK, tag, &[], 0.0, "finish");
    out
}

fn stage1(c: &RunCfg) -> JobOut {
    let prob = SimProblem {
        c: Arc::new(c.prob.clone()),
    };
    let mut ob = c.observer.as_ref().map(|o| build_observer(o, c.prob.tag));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut s = ScatterSearch::new(prob, build_params(&c.params)).map_err(e2s)?;
        #[cfg(feature = "rayon")]
        {
            s = s.parallel(c.parallel);
        }
        if !c.custom.is_empty() {
            s = s.with_custom_points(c.custom.iter().map(|p| Array1::from(p.clone())).collect());
        }
        if let Some(o) = ob.as_mut() {
            s = s.with_observer(o);
        }
        let (v, b) = s.run().map_err(e2s)?;
        Ok((
            v.iter()
                .map(|(p, f)| Sol {
                    x: p.to_vec(),
                    f: *f,
                })
                .collect(),
            b.to_vec(),
        ))
    }));
    let obs = ob.as_ref().map(snap);
    match r {
        Ok(res) => JobOut::Stage1 {
            res,
            panic: None,
            obs,
        },
        Err(p) => JobOut::Stage1 {
            res: Err("panic".into()),
            panic: Some(simcore::panic_text(&*p)),
            obs,
        },
    }
}

pub fn to_checkpoint(d: &CkData) -> OQNLPCheckpoint {
    let ls = |v: &Vec<Sol>| -> Vec<LocalSolution> {
        v.iter()
            .map(|s| LocalSolution {
                point: Array1::from(s.x.clone()),
                objective: s.f,
            })
            .collect()
    };
    OQNLPCheckpoint {
        params: build_params(&d.params),
        current_iteration: d.iteration,
        merit_threshold: d.threshold,
        solution_set: d.solutions.as_ref().map(|v| SolutionSet {
            solutions: Array1::from(ls(v)),
        }),
        reference_set: d
            .reference
            .iter()
            .map(|p| Array1::from(p.clone()))
            .collect(),
        unchanged_cycles: d.unchanged,
        elapsed_time: d.elapsed,
        distance_filter_solutions: ls(&d.filter),
        current_seed: d.cur_seed,
        target_objective: d.target,
        exclude_out_of_bounds: d.exclude,
        #[cfg(feature = "rayon")]
        batch_iterations: d.batch,
        #[cfg(feature = "rayon")]
        enable_parallel: d.parallel,
        abs_tol: d.abs_tol,
        rel_tol: d.rel_tol,
        timestamp: d.timestamp.clone(),
    }
}

fn line_search_text(p: &LineSearchParams) -> String {
    match &p.method {
        LineSearchMethod::MoreThuente {
            c1,
            c2,
            width_tolerance,
            bounds,
            ..
        } => format!("MoreThuente {c1:?} {c2:?} {width_tolerance:?} {bounds:?}"),
        LineSearchMethod::HagerZhang {
            delta,
            sigma,
            epsilon,
            theta,
            gamma,
            eta,
            bounds,
            ..
        } => {
            format!(
                "HagerZhang {delta:?} {sigma:?} {epsilon:?} {theta:?} {gamma:?} {eta:?} {bounds:?}"
            )
        }
    }
}

/// every option of the local solver (the type's own Debug leaves most of them out)
pub fn solver_text(p: &OQNLPParams) -> String {
    use LocalSolverConfig as C;
    let c = match &p.local_solver_config {
        C::LBFGS {
            max_iter,
            tolerance_grad,
            tolerance_cost,
            history_size,
            l1_coefficient,
            line_search_params,
            ..
        } => format!(
            "LBFGS {max_iter} {tolerance_grad:?} {tolerance_cost:?} {history_size} {l1_coefficient:?} {}",
            line_search_text(line_search_params)
        ),
        C::NelderMead {
            simplex_delta,
            sd_tolerance,
            max_iter,
            alpha,
            gamma,
            rho,
            sigma,
            ..
        } => {
            format!(
                "NelderMead {simplex_delta:?} {sd_tolerance:?} {max_iter} {alpha:?} {gamma:?} {rho:?} {sigma:?}"
            )
        }
        C::SteepestDescent {
            max_iter,
            line_search_params,
            ..
        } => format!(
            "SteepestDescent {max_iter} {}",
            line_search_text(line_search_params)
        ),
        C::TrustRegion {
            trust_region_radius_method,
            max_iter,
            radius,
            max_radius,
            eta,
            ..
        } => {
            format!(
                "TrustRegion {trust_region_radius_method:?} {max_iter} {radius:?} {max_radius:?} {eta:?}"
            )
        }
        C::NewtonCG {
            max_iter,
            curvature_threshold,
            tolerance,
            line_search_params,
            ..
        } => {
            format!(
                "NewtonCG {max_iter} {curvature_threshold:?} {tolerance:?} {}",
                line_search_text(line_search_params)
            )
        }
        C::COBYLA {
            max_iter,
            initial_step_size,
            ftol_rel,
            ftol_abs,
            xtol_rel,
            xtol_abs,
            ..
        } => {
            format!(
                "COBYLA {max_iter} {initial_step_size:?} {ftol_rel:?} {ftol_abs:?} {xtol_rel:?} {xtol_abs:?}"
            )
        }
    };
    format!("{:?} {c}", p.local_solver_type)
}

fn from_checkpoint(c: &OQNLPCheckpoint) -> CkData {
    CkData {
        params: Params {
            iterations: c.params.iterations,
            population: c.params.population_size,
            wait_cycle: c.params.wait_cycle,
            threshold_factor: c.params.threshold_factor,
            distance_factor: c.params.distance_factor,
            solver: 255,
            solver_iters: 0,
            seed: c.params.seed,
            tune: 0,
        },
        iteration: c.current_iteration,
        threshold: c.merit_threshold,
        solutions: c
            .solution_set
            .as_ref()
            .map(|s| s.solutions.iter().map(Sol::of).collect()),
        reference: c.reference_set.iter().map(|p| p.to_vec()).collect(),
        unchanged: c.unchanged_cycles,
        elapsed: c.elapsed_time,
        filter: c.distance_filter_solutions.iter().map(Sol::of).collect(),
        cur_seed: c.current_seed,
        target: c.target_objective,
        exclude: c.exclude_out_of_bounds,
        #[cfg(feature = "rayon")]
        batch: c.batch_iterations,
        #[cfg(not(feature = "rayon"))]
        batch: None,
        #[cfg(feature = "rayon")]
        parallel: c.enable_parallel,
        #[cfg(not(feature = "rayon"))]
        parallel: false,
        abs_tol: c.abs_tol,
        rel_tol: c.rel_tol,
        timestamp: c.timestamp.clone(),
        solver_text: solver_text(&c.params),
    }
}

fn ck_job(cfg: &CkCfg, ops: &[CkOp]) -> JobOut {
    let m = match CheckpointManager::new(cfg.build()) {
        Ok(m) => m,
        Err(e) => return JobOut::Ck(Err(e2s(e))),
    };
    let mut out = vec![];
    for (i, op) in ops.iter().enumerate() {
        simcore::event(MARK, i as i64, &[], 0.0, "op");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match op {
            CkOp::Save { it, ck } => {
                let c = to_checkpoint(ck);
                CkOut::Saved(
                    m.save_checkpoint(&c, *it)
                        .map(|p| p.display().to_string())
                        .map_err(e2s),
                )
            }
            CkOp::LoadLatest => CkOut::Loaded(
                m.load_latest_checkpoint()
                    .map(|c| Box::new(from_checkpoint(&c)))
                    .map_err(e2s),
            ),
            CkOp::LoadPath(p) => CkOut::Loaded(
                m.load_checkpoint_from_path(&PathBuf::from(p))
                    .map(|c| Box::new(from_checkpoint(&c)))
                    .map_err(e2s),
            ),
            CkOp::ReadFile(p) => CkOut::Loaded(
                globalsearch::checkpoint::read_checkpoint_file(&PathBuf::from(p))
                    .map(|c| Box::new(from_checkpoint(&c)))
                    .map_err(e2s),
            ),
            CkOp::Exists => CkOut::Exists(m.checkpoint_exists()),
            CkOp::Cleanup(n) => CkOut::Done(m.cleanup_old_checkpoints(*n).map_err(e2s)),
            CkOp::Put(p, b) => CkOut::Done(std::fs::write(p, b).map_err(e2s)),
            CkOp::Remove(p) => CkOut::Done(std::fs::remove_file(p).map_err(e2s)),
            CkOp::Kill => simcore::crash_kill(),
            CkOp::Power(s) => simcore::crash_power(*s),
        }));
        let r = match r {
            Ok(o) => o,
            Err(p) => CkOut::Panic(simcore::panic_text(&*p)),
        };
        {
            // completion is part of the history: it survives a crash of the process
            let _g = simcore::enter();
            let mut b = simcore::encode(&r);
            let n = b.len() as u64;
            let mut v = n.to_le_bytes().to_vec();
            v.append(&mut b);
            while v.len() % 8 != 0 {
                v.push(0);
            }
            let x: Vec<f64> = v
                .chunks(8)
                .map(|c| f64::from_bits(u64::from_le_bytes(c.try_into().unwrap())))
                .collect();
            simcore::event(MARK, i as i64, &x, 0.0, "ret");
        }
        out.push(r);
    }
    JobOut::Ck(Ok(out))
}

/// outcome of an operation on checkpoints, as recorded in the history
pub fn decode_ret(e: &simcore::Event) -> CkOut {
    let b: Vec<u8> = e.x.iter().flat_map(|v| v.to_bits().to_le_bytes()).collect();
    let n = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    simcore::decode(&b[8..8 + n])
}

fn local(p: &ProblemCfg, params: &Params, starts: &[Vec<f64>]) -> JobOut {
    let prob = SimProblem {
        c: Arc::new(p.clone()),
    };
    let bp = build_params(params);
    let s = LocalSolver::new(prob, bp.local_solver_type, bp.local_solver_config);
    let mut out = vec![];
    for st in starts {
        let from = simcore::events().len() as u64;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            s.solve_with_tracking(Array1::from(st.clone()), true)
        }));
        let to = simcore::events().len() as u64;
        let (res, counted) = match r {
            Ok(Ok((s, n))) => (Ok(Sol::of(&s)), n),
            Ok(Err(e)) => (Err(e2s(e)), 0),
            Err(p) => (Err(format!("panic: {}", simcore::panic_text(&*p))), 0),
        };
        out.push(LocalOut {
            res,
            counted,
            from,
            to,
        });
    }
    JobOut::Local(out)
}

fn pooled<T: Send>(pool: Option<usize>, f: impl FnOnce() -> T + Send) -> T {
    #[cfg(feature = "rayon")]
    if let Some(n) = pool {
        return rayon::ThreadPoolBuilder::new()
            .num_threads(n)
            .build()
            .expect("pool")
            .install(f);
    }
    let _ = pool;
    f()
}

fn run_job(j: &Job) -> JobOut {
    match j {
        Job::Optimize(c) => JobOut::Run(pooled(c.pool, || optimize(c))),
        Job::Stage1(c) => pooled(c.pool, || stage1(c)),
        Job::Ck(c, ops) => ck_job(c, ops),
        Job::Local(p, s, st) => local(p, s, st),
    }
}

static INNER: std::sync::Mutex<Vec<JobOut>> = std::sync::Mutex::new(vec![]);

/// an optimisation inside an evaluation of another one
fn run_inner(c: &RunCfg) {
    let o = run_job(&Job::Optimize(c.clone()));
    let _g = simcore::enter();
    INNER.lock().unwrap().push(o);
}

/// Body of a simulated process.
pub fn body(inc: &Inc) -> Vec<Vec<JobOut>> {
    simcore::sim().user = inc.cpus;
    let mut out = callers(inc);
    let _g = simcore::enter();
    let inner = std::mem::take(&mut *INNER.lock().unwrap());
    if !inner.is_empty() {
        out.push(inner);
    }
    out
}

fn callers(inc: &Inc) -> Vec<Vec<JobOut>> {
    if inc.threads.len() == 1 {
        return vec![inc.threads[0].iter().map(run_job).collect()];
    }
    let hs: Vec<_> = inc
        .threads
        .iter()
        .map(|js| {
            let js = js.clone();
            std::thread::spawn(move || js.iter().map(run_job).collect::<Vec<_>>())
        })
        .collect();
    hs.into_iter()
        .map(|h| h.join().expect("caller thread"))
        .collect()
}
