//! Every run terminates with bounded work.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C14;

/// local solvers of argmin that do not come to an end (recorded findings)
fn endless(i: u64) -> Case {
    let mut c = Case::new(if i == 0 {
        "endless line search of argmin"
    } else {
        "endless Newton-CG of argmin"
    });
    let prob = |func, lo: &[f64], hi: &[f64]| ProblemCfg {
        func,
        lo: lo.to_vec(),
        hi: hi.to_vec(),
        cons: 0,
        cost_base: 0,
        cost_spread: 0,
        cost_seed: 0,
        faults: vec![],
        tag: 0,
        fork: 0,
        inner: None,
    };
    let (prob, params) = if i == 0 {
        (
            prob(
                Func::Waves,
                &[-3.855220616382427, -3.325505795820628],
                &[9.912331264725966, 3.6901688636825347],
            ),
            Params {
                iterations: 17,
                population: 40,
                wait_cycle: 5,
                threshold_factor: 0.01,
                distance_factor: 0.75,
                solver: 3,
                solver_iters: 40,
                seed: 256,
                tune: 0,
            },
        )
    } else {
        (
            prob(
                Func::AbsSum,
                &[-2.5383709216578567, -2.122250483683531, -2.5505314951900195],
                &[2.7403176667175724, 1.1171518007218184, 3.6518917866396237],
            ),
            Params {
                iterations: 4,
                population: 21,
                wait_cycle: 2,
                threshold_factor: 0.2,
                distance_factor: 0.75,
                solver: 7,
                solver_iters: 5,
                seed: 966,
                tune: 0,
            },
        )
    };
    let cfg = RunCfg {
        prob,
        params,
        custom: vec![],
        parallel: false,
        batch: None,
        target: None,
        max_time: None,
        exclude: false,
        tol: None,
        verbose: false,
        observer: None,
        ck: None,
        resume: None,
        pool: None,
    };
    c.push(sim_plain(), single(Job::Optimize(cfg), 1));
    c
}

fn edge_usize(r: &mut Rng, small: &[usize]) -> usize {
    match r.below(5) {
        0 => usize::MAX,
        1 => usize::MAX - r.below(3),
        2 => 1 << r.below(63),
        _ => *r.pick(small),
    }
}

fn edges(r: &mut Rng, c: &mut RunCfg) {
    for _ in 0..1 + r.below(4) {
        match r.below(19) {
            0 => c.params.iterations = 0,
            1 => c.params.iterations = c.params.population,
            2 => {
                c.params.population = *r.pick(&[3usize, 4, 4, 5]);
                c.params.iterations = r.below(c.params.population + 1);
            }
            3 => {
                c.params.population = 60 + r.below(140);
                c.params.iterations = 1 + r.below(c.params.population);
            }
            4 => c.params.wait_cycle = edge_usize(r, &[0, 0, 1]),
            5 => {
                c.params.threshold_factor =
                    *r.pick(&[1e-300, 1e-12, 1e12, 1e300, f64::MAX, f64::INFINITY])
            }
            6 => {
                c.params.distance_factor =
                    *r.pick(&[0.0, 1e-300, 1e-12, 1e12, 1e200, f64::MAX, f64::INFINITY])
            }
            7 => c.params.seed = *r.pick(&[0, 1, u64::MAX, u64::MAX - 1, u64::MAX / 2, 1 << 63]),
            8 => c.batch = Some(edge_usize(r, &[0, 0, 1, 1000])),
            9 => c.batch = None,
            10 => {
                let mut o = gen_obs(r);
                o.freq = Some(edge_usize(r, &[0, 0, 1]));
                c.observer = Some(o);
            }
            11 => {
                c.ck = Some(CkCfg {
                    dir: "/ck".into(),
                    name: "r".into(),
                    freq: edge_usize(r, &[0, 0, 1]),
                    keep_all: r.chance(0.5),
                    auto_resume: r.chance(0.5),
                })
            }
            12 => {
                c.target = Some(*r.pick(&[
                    f64::INFINITY,
                    f64::NEG_INFINITY,
                    f64::NAN,
                    f64::MAX,
                    0.0,
                    -0.0,
                ]))
            }
            13 => c.max_time = Some(*r.pick(&[0.0, 1e-9, 1e-3, 1.0, 1e18])),
            // zero means no limit to COBYLA
            14 => c.params.solver_iters = *r.pick(&[(c.params.solver == 0) as u64, 1, 1, 150]),
            15 => {
                c.tol = Some(*r.pick(&[
                    (0.0, 0.0),
                    (1e300, 0.0),
                    (0.0, 1e300),
                    (f64::INFINITY, 0.0),
                    (1e-300, 1e-300),
                ]))
            }
            16 => {
                // a very thin, very wide or far away box
                let (lo, hi) = *r.pick(&[
                    (0.0, 1e-300),
                    (1.0, 1.0 + f64::EPSILON),
                    (-1e150, 1e150),
                    (1e15, 1e15 + 2.0),
                    (-1e-12, 0.0),
                    (-1e8, 1e8),
                    (1.0, 1.0),
                    (-1e307, 1e307),
                ]);
                let d = r.below(c.prob.lo.len());
                c.prob.lo[d] = lo;
                c.prob.hi[d] = hi;
                c.custom.clear();
            }
            17 => {
                let n = *r.pick(&[1usize, 30, 60]);
                c.custom = gen_custom(r, &c.prob, n);
            }
            _ => c.pool = Some(1 + r.below(12)),
        }
    }
}

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "one random run with one to four settings at the edge of what the API accepts (zero or huge iterations, population, batch, frequencies, wait cycle, factors, tolerances, seeds, targets, time limits, thin or huge boxes, more workers than work), also with failing or crawling evaluations, under a hostile schedule; it has to end, without a panic of the library's own, and within its bounds of local searches; the first two cases are fixed: solvers of argmin that do not end; non-trivial: Stage 2 visits reference points"
    }
    fn make(&self, r: &mut Rng, i: u64) -> Case {
        if i < 2 {
            return endless(i);
        }
        let mut base = gen_run(r);
        if r.chance(0.35) {
            base.parallel = false;
        }
        edges(r, &mut base);
        if r.chance(0.25) {
            let m = 1 + r.below(30) as u64;
            let kind = *r.pick(&[
                FaultKind::Inf,
                FaultKind::Nan,
                FaultKind::NegInf,
                FaultKind::Err,
                FaultKind::Panic,
            ]);
            let kind = if hz(base.params.solver) {
                FaultKind::Err
            } else {
                kind
            };
            let when = if r.chance(0.5) {
                When::Point(OBJ, m, r.below(m as usize) as u64)
            } else {
                When::Call(OBJ, r.below(300) as u64)
            };
            base.prob.faults.push(EvalFault { when, kind });
        }
        let mut c = Case::new(if base.parallel { "parallel" } else { "serial" });
        let pool = base.pool;
        let (mut v, cpus) = vary(r, &base);
        v.pool = v.pool.or(pool);
        c.push(sim_wild(r), single(Job::Optimize(v), cpus));
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 1 && c.incs[0].threads.len() == 1 && c.incs[0].threads[0].len() == 1
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let cfg = c.run_cfg(0).clone();
        let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
        let o = run_out(&r, 0, 0);
        let injected = |p: &str| p.contains("injected evaluation panic");
        if let Some(p) = r.rep.panics.iter().find(|p| !injected(p)) {
            return fail("panic", format!("the library panics: {p}"));
        }
        if let Res::Panic(m) = &o.res {
            ensure!(injected(m), "panic", "the run panics: {m}");
        }
        let calls = cfg
            .prob
            .faults
            .iter()
            .any(|f| matches!(f.when, When::Call(..)) || f.kind == FaultKind::Panic);
        if calls {
            ctx.hit = matches!(o.res, Res::Set(_));
            return Ok(());
        }
        let Some(rd) = reference(ctx, &cfg)? else {
            return Ok(());
        };
        let ev = evals(&r.rep, cfg.prob.tag);
        let cut = !matches!(o.res, Res::Set(_));
        if ambiguous(&rd) {
            // searches cannot be told apart: bound their number by the evaluations made
            let max = rd.locals.iter().map(|l| l.keys.len()).max().unwrap_or(0) + 1;
            let n = ev.len().saturating_sub(rd.n1 + rd.first.keys.len());
            ensure!(
                n <= max * cfg.params.iterations,
                "bounded",
                "{n} evaluations in Stage 2, at most {max} by each of {} iterations",
                cfg.params.iterations
            );
            return Ok(());
        }
        let d = match decompose(&ev, &rd, false, cut) {
            Ok(d) => d,
            Err(e) => return fail("searches", e),
        };
        let n = d.searches.len() + d.partial;
        ensure!(
            n <= cfg.params.iterations + (d.partial > 0 && !d.first) as usize,
            "bounded",
            "{n} local searches in {} iterations",
            cfg.params.iterations
        );
        for s in &d.searches {
            ensure!(
                s.pos < cfg.params.iterations,
                "bounded",
                "a local search from reference point {} in {} iterations",
                s.pos,
                cfg.params.iterations
            );
        }
        let mut seen: Vec<usize> = d.singles.iter().map(|s| s.0).collect();
        let m = seen.len();
        seen.sort();
        seen.dedup();
        ensure!(
            m == seen.len(),
            "twice",
            "a reference point is evaluated twice by Stage 2: {:?}",
            d.singles
        );
        ctx.hit = !d.singles.is_empty() || !d.searches.is_empty() || cfg.params.iterations > 0;
        Ok(())
    }
}
