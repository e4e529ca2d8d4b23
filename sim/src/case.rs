//! A case: everything a check needs, as data.  Same case, same executions.
use serde::{Deserialize, Serialize};
use simcore::fs::{FsFault, FsFaultKind, Image};
use simcore::rng::Rng;
use simcore::{Policy, SimCfg};
use subject::problem::*;
use subject::*;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Case {
    pub prop: String,
    pub scenario: String,
    pub sims: Vec<SimCfg>,
    pub incs: Vec<Inc>,
    pub image: Image,
    pub aux: Vec<u64>,
}

impl Case {
    /// some local search uses a line search
    pub fn uses_line_search(&self) -> bool {
        self.uses(line_search)
    }
    /// some local search uses Newton-CG
    pub fn uses_newton(&self) -> bool {
        self.uses(newton)
    }
    fn uses(&self, hz: impl Fn(u8) -> bool) -> bool {
        self.incs
            .iter()
            .flat_map(|i| &i.threads)
            .flatten()
            .any(|j| match j {
                Job::Optimize(c) | Job::Stage1(c) => {
                    hz(c.params.solver)
                        || c.resume.as_ref().is_some_and(|r| hz(r.params.solver))
                        || (c.prob.inner.as_ref()).is_some_and(|i| hz(i.1.params.solver))
                }
                Job::Local(_, p, _) => hz(p.solver),
                Job::Ck(..) => false,
            })
            || self
                .incs
                .iter()
                .filter_map(|i| i.py.as_ref()?.nested.as_ref())
                .any(|n| hz(n.2.params.solver))
    }
    pub fn each_params(&mut self, mut f: impl FnMut(&mut Params)) {
        for j in self.incs.iter_mut().flat_map(|i| &mut i.threads).flatten() {
            match j {
                Job::Optimize(c) | Job::Stage1(c) => {
                    f(&mut c.params);
                    if let Some(r) = &mut c.resume {
                        f(&mut r.params)
                    }
                    if let Some(i) = &mut c.prob.inner {
                        f(&mut i.1.params)
                    }
                }
                Job::Local(_, p, _) => f(p),
                Job::Ck(..) => {}
            }
        }
        for n in self
            .incs
            .iter_mut()
            .filter_map(|i| i.py.as_mut()?.nested.as_mut())
        {
            f(&mut n.2.params);
        }
    }
    /// Runs with many or long evaluations get fewer switches between them, so that every run
    /// stays far below the number of steps after which it counts as endless.
    pub fn calm(&mut self) {
        let (mut pop, mut dim) = (0, 0);
        self.each_params(|p| pop = pop.max(p.population));
        self.each_cfg(|c| dim = dim.max(c.prob.lo.len()));
        let least = if pop > 40 {
            2000
        } else if dim > 3 {
            200
        } else {
            return;
        };
        for s in &mut self.sims {
            if s.edge_mean > 0 {
                s.edge_mean = s.edge_mean.max(least);
            }
        }
        if pop > 40 {
            self.each_cfg(|c| c.prob.fork = 0);
        }
    }
    pub fn new(scenario: &str) -> Case {
        Case {
            prop: String::new(),
            scenario: scenario.into(),
            sims: vec![],
            incs: vec![],
            image: Image::default(),
            aux: vec![],
        }
    }
    pub fn push(&mut self, sim: SimCfg, inc: Inc) {
        self.sims.push(sim);
        self.incs.push(inc);
    }
    pub fn run_cfg(&self, i: usize) -> &RunCfg {
        cfg_of(&self.incs[i].threads[0][0])
    }
    pub fn each_cfg(&mut self, mut f: impl FnMut(&mut RunCfg)) {
        for inc in &mut self.incs {
            for t in &mut inc.threads {
                for j in t {
                    if let Job::Optimize(c) | Job::Stage1(c) = j {
                        f(c)
                    }
                }
            }
        }
    }
}

pub fn cfg_of(j: &Job) -> &RunCfg {
    match j {
        Job::Optimize(c) | Job::Stage1(c) => c,
        _ => panic!("no run"),
    }
}

pub fn single(j: Job, cpus: u64) -> Inc {
    Inc {
        threads: vec![vec![j]],
        cpus,
        py: None,
    }
}

// ---------------------------------------------------------------- generators

pub fn sim_plain() -> SimCfg {
    SimCfg::default()
}

/// a hostile schedule
pub fn sim_wild(r: &mut Rng) -> SimCfg {
    let policy = match r.below(8) {
        0 | 1 => Policy::Random,
        2 => Policy::Sticky(50),
        3 => Policy::Sticky(95),
        4 => Policy::Prio(4),
        5 => Policy::Prio(60),
        6 => Policy::Prio(100_000),
        _ => Policy::Starve(r.below(6) as u32),
    };
    let stall = if r.chance(0.15) {
        1 + r.below(20) as u32
    } else {
        0
    };
    SimCfg {
        sched_seed: r.u64(),
        policy,
        edge_mean: *r.pick(&[0, 0, 15, 60, 200, 1000, 5000]),
        entropy: r.u64(),
        wall0: 1_600_000_000 + r.below(1_000_000_000) as i64,
        wall_jumps: if r.chance(0.2) {
            (0..1 + r.below(3))
                .map(|_| {
                    (
                        r.below(60) as u64,
                        *r.pick(&[-86_400_000i64, -3600, -1, 1, 3600, 86_400_000]),
                    )
                })
                .collect()
        } else {
            vec![]
        },
        spurious: if r.chance(0.25) {
            1 + r.below(200) as u32
        } else {
            0
        },
        stall,
        stall_us: if stall > 0 {
            1 + r.below(100_000) as u64
        } else {
            0
        },
        shuffle_dirs: r.chance(0.5),
        ..SimCfg::default()
    }
}

pub fn gen_bounds(r: &mut Rng, dim: usize) -> (Vec<f64>, Vec<f64>) {
    let style = r.below(8);
    (0..dim)
        .map(|i| match style {
            0 => (-5.0, 5.0),
            1 => (-3.0, 3.0 - i as f64 * 0.5),
            2 => (-1.0, 2.0),
            3 => (0.0, 4.0),
            4 => (-2.0 - r.f64(), 1.0 + 3.0 * r.f64()),
            5 => (0.5, 1.0 + r.f64()),
            6 => {
                if r.chance(0.5) {
                    (-1e-7, 1e-7)
                } else {
                    (-4.0, 4.0)
                }
            }
            _ => (-10.0 * r.f64() - 0.1, 10.0 * r.f64() + 0.1),
        })
        .unzip()
}

pub fn gen_problem(r: &mut Rng) -> ProblemCfg {
    let dim = match r.below(12) {
        0 => 4 + r.below(6),
        _ => *r.pick(&[1, 2, 2, 2, 3]),
    };
    let (lo, hi) = gen_bounds(r, dim);
    ProblemCfg {
        func: *r.pick(&FUNCS),
        lo,
        hi,
        cons: 0,
        cost_base: 0,
        cost_spread: 0,
        cost_seed: 0,
        faults: vec![],
        tag: 0,
        fork: 0,
        inner: None,
    }
}

pub fn gen_cost(r: &mut Rng, p: &mut ProblemCfg) {
    p.cost_base = *r.pick(&[0, 0, 1, 50, 1000]);
    p.cost_spread = *r.pick(&[0, 0, 3, 200, 20_000, 2_000_000]);
    p.cost_seed = r.u64();
}

pub fn gen_params(r: &mut Rng) -> Params {
    let large = r.chance(0.05);
    let population = match large {
        true => 41 + r.below(300),
        false => *r.pick(&[4usize, 5, 6, 8, 10, 12, 16, 19, 20, 21, 24, 30, 40]),
    };
    let iterations = match r.below(6) {
        _ if large => 1 + r.below(40),
        0 => population,
        1 => r.below(4).min(population),
        _ => 1 + r.below(population),
    };
    Params {
        iterations,
        population,
        wait_cycle: *r.pick(&[0usize, 1, 1, 2, 2, 3, 5, 10, 25]),
        threshold_factor: *r.pick(&[0.01, 0.1, 0.2, 0.5, 1.0, 2.0]),
        distance_factor: *r.pick(&[0.0, 0.0, 0.05, 0.3, 0.75, 0.75, 2.0]),
        solver: gen_solver(r),
        solver_iters: *r.pick(&[2u64, 5, 10, 20, 40]),
        seed: match r.below(8) {
            0 => r.u64(),
            1 => r.u64() >> r.below(64),
            2 => u64::MAX - r.below(64) as u64,
            _ => r.below(1000) as u64,
        },
        tune: if r.chance(0.25) { r.u64() | 1 } else { 0 },
    }
}

pub fn gen_solver(r: &mut Rng) -> u8 {
    *r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9])
}

pub fn gen_custom(r: &mut Rng, p: &ProblemCfg, n: usize) -> Vec<Vec<f64>> {
    let mut v: Vec<Vec<f64>> = vec![];
    for _ in 0..n {
        if !v.is_empty() && r.chance(0.1) {
            let q = v[r.below(v.len())].clone();
            v.push(q);
            continue;
        }
        v.push(
            (0..p.lo.len())
                .map(|i| match r.below(12) {
                    0 => p.lo[i],
                    1 => p.hi[i],
                    _ => {
                        let x = r.uniform(p.lo[i], p.hi[i]);
                        x.max(p.lo[i]).min(p.hi[i])
                    }
                })
                .collect(),
        );
    }
    v
}

/// a run without checkpoints, observers or limits
pub fn gen_run(r: &mut Rng) -> RunCfg {
    let mut prob = gen_problem(r);
    let mut params = gen_params(r);
    if r.chance(0.12) {
        prob.cons = 1 + r.below(3) as u8;
        if r.chance(0.8) {
            params.solver = 0;
        }
    }
    let custom = match r.below(10) {
        0 | 1 => {
            let n = 1 + r.below(8);
            gen_custom(r, &prob, n)
        }
        2 if prob.cons > 0 => {
            let n = 100 + r.below(30);
            gen_custom(r, &prob, n)
        }
        _ => vec![],
    };
    RunCfg {
        prob,
        params,
        custom,
        parallel: true,
        batch: Some(*r.pick(&[1usize, 2, 2, 3, 4, 5, 8, 16])),
        target: None,
        max_time: None,
        exclude: r.chance(0.2),
        tol: match r.below(6) {
            0 => Some((0.5, 0.0)),
            1 => Some((0.0, 0.1)),
            2 => Some((5.0, 0.0)),
            3 => Some((0.0, 0.0)),
            _ => None,
        },
        verbose: r.chance(0.1),
        observer: None,
        ck: None,
        resume: None,
        pool: None,
    }
}

/// reshuffle what must not matter: workers, pool, evaluation speed
pub fn vary(r: &mut Rng, c: &RunCfg) -> (RunCfg, u64) {
    let mut c = c.clone();
    let cpus = *r.pick(&[1u64, 2, 2, 3, 4, 4, 6, 8]);
    c.pool = if r.chance(0.3) {
        Some(1 + r.below(5))
    } else {
        None
    };
    gen_cost(r, &mut c.prob);
    if r.chance(0.12) {
        c.prob.fork = 1 + r.below(2) as u8;
    }
    (c, cpus)
}

pub fn gen_obs(r: &mut Rng) -> ObsCfg {
    ObsCfg {
        mode: r.below(3) as u8,
        s1: r.chance(0.8),
        s2: r.chance(0.8),
        timing: r.chance(0.7),
        cb: *r.pick(&[0u8, 1, 1, 1, 2, 3, 4]),
        freq: if r.chance(0.6) {
            Some(*r.pick(&[1usize, 2, 3, 5, 7, 100]))
        } else {
            None
        },
        unique: r.chance(0.3),
        cost_us: if r.chance(0.3) {
            1 + r.below(5000) as u64
        } else {
            0
        },
        kill_at: None,
    }
}

pub fn gen_errno(r: &mut Rng) -> i32 {
    *r.pick(&[
        libc::EIO,
        libc::ENOSPC,
        libc::EACCES,
        libc::EINTR,
        libc::EROFS,
        libc::EMFILE,
        libc::EDQUOT,
    ])
}

pub fn gen_fs_fault(r: &mut Rng, max_at: u64, crash: bool) -> FsFault {
    let kind = match r.below(if crash { 10 } else { 6 }) {
        0 | 1 => FsFaultKind::Err(gen_errno(r)),
        2 | 3 => FsFaultKind::Short(r.below(100) as u8),
        4 | 5 => FsFaultKind::NoSpace(r.below(100) as u8, 1 + r.below(4) as u32),
        6 | 7 => FsFaultKind::Kill(r.below(101) as u8),
        _ => FsFaultKind::Power(r.below(101) as u8, r.u64()),
    };
    FsFault {
        at: r.below(max_at.max(1) as usize) as u64,
        kind,
    }
}

/// Hager-Zhang line search (of argmin) does not come to an end on infinite values
pub fn hz(solver: u8) -> bool {
    matches!(solver, 3 | 8 | 9)
}

/// the line searches of argmin do not always come to an end
pub fn line_search(solver: u8) -> bool {
    matches!(solver, 2 | 3 | 4 | 7 | 8 | 9)
}

/// the inner loop of Newton-CG (of argmin) does not come to an end on some degenerate Hessians
pub fn newton(solver: u8) -> bool {
    matches!(solver, 7 | 9)
}
