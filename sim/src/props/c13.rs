//! Failing evaluations are contained.
use super::Prop;
use super::c07::newest;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::fs::Image;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C13;

fn bad(k: FaultKind) -> bool {
    matches!(
        k,
        FaultKind::Err
            | FaultKind::Nan
            | FaultKind::NegNan
            | FaultKind::Inf
            | FaultKind::NegInf
            | FaultKind::Panic
    )
}

/// After an infinite value COBYLA (another crate) computes its final point from its simplex with
/// a rounding error instead of reporting the point it evaluated.
fn same_point(a: &[f64], b: &[f64], solver: u8) -> bool {
    bits(a) == bits(b)
        || (solver == 0
            && a.len() == b.len()
            && a.iter()
                .zip(b)
                .all(|(a, b)| (a - b).abs() <= 1e-12 * (1.0 + a.abs())))
}

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "a run whose objective, gradient or Hessian fails (error, NaN of either sign, infinity, panic) at chosen calls or points, on whichever worker makes them, often continuing from a checkpoint; then, in the same process, the same run without failures and a restart from the checkpoint; non-trivial: a fault was injected and the later run returned solutions"
    }
    fn make(&self, r: &mut Rng, i: u64) -> Case {
        let mut base = gen_run(r);
        if r.chance(0.3) {
            base.parallel = false;
        }
        if r.chance(0.5) {
            base.params.wait_cycle = 1 + r.below(2);
            base.params.threshold_factor = *r.pick(&[0.5, 1.0, 5.0]);
        }
        if r.chance(0.5) {
            base.params.iterations = base.params.population - r.below(3);
        }
        let mut c = Case::new(match i % 3 {
            0 => "with a checkpoint",
            1 => "several faults",
            _ => "one fault",
        });
        c.aux = vec![r.u64()];
        let (clean, cpus) = vary(r, &base);
        let mut f = clean.clone();
        if i % 3 == 0 {
            f.ck = Some(CkCfg {
                dir: "/ck".into(),
                name: "r".into(),
                freq: 1 + r.below(4),
                keep_all: r.chance(0.4),
                auto_resume: true,
            });
        } else if r.chance(0.2) {
            f.ck = Some(CkCfg {
                dir: "/ck".into(),
                name: "r".into(),
                freq: r.below(4),
                keep_all: r.chance(0.4),
                auto_resume: r.chance(0.5),
            });
        }
        if r.chance(0.25) {
            f.observer = Some(gen_obs(r));
        }
        let s = f.params.solver;
        let n = if i % 3 == 1 { 2 + r.below(4) } else { 1 };
        for _ in 0..n {
            let kind = if hz(s) {
                *r.pick(&[FaultKind::Err, FaultKind::Panic])
            } else {
                *r.pick(&[
                    FaultKind::Err,
                    FaultKind::Err,
                    FaultKind::Panic,
                    FaultKind::Panic,
                    FaultKind::Nan,
                    FaultKind::NegNan,
                    FaultKind::Inf,
                    FaultKind::NegInf,
                ])
            };
            let call = if s >= 5 && r.chance(0.2) {
                HESS
            } else if uses_gradient(s) && r.chance(0.3) {
                GRAD
            } else {
                OBJ
            };
            let when = if i % 3 == 1 && r.chance(0.4) {
                let m = 2 + r.below(40) as u64;
                When::Point(call, m, r.below(m as usize) as u64)
            } else {
                let max = *r.pick(&[6usize, 25, 60, 150, 400, 1000]);
                When::Call(call, r.below(max) as u64)
            };
            f.prob.faults.push(EvalFault { when, kind });
        }
        let mut clean = clean;
        clean.prob.tag = 2;
        c.push(
            sim_wild(r),
            Inc {
                threads: vec![vec![Job::Optimize(f), Job::Optimize(clean)]],
                cpus,
                py: None,
            },
        );
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 1
            && c.aux.len() == 1
            && c.incs[0].threads.len() == 1
            && c.incs[0].threads[0].len() == 2
            && {
                let (a, b) = (
                    cfg_of(&c.incs[0].threads[0][0]),
                    cfg_of(&c.incs[0].threads[0][1]),
                );
                a.params == b.params
                    && a.batch == b.batch
                    && a.custom == b.custom
                    && a.parallel == b.parallel
                    && a.exclude == b.exclude
                    && a.tol == b.tol
                    && b.ck.is_none()
                    && b.prob.faults.is_empty()
                    && b.prob.tag != a.prob.tag
                    && a.target == b.target
                    && a.prob.func == b.prob.func
                    && a.prob.lo == b.prob.lo
                    && a.prob.hi == b.prob.hi
                    && a.prob.cons == b.prob.cons
            }
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let f = cfg_of(&c.incs[0].threads[0][0]).clone();
        let clean = cfg_of(&c.incs[0].threads[0][1]).clone();
        let mut plain = clean.clone();
        plain.prob.cost_base = 0;
        plain.prob.cost_spread = 0;
        let r0 = ctx.run(
            &sim_plain(),
            &Image::default(),
            &single(Job::Optimize(plain.clone()), 1),
        )?;
        let want = run_out(&r0, 0, 0).res;
        let want_ev = multiset(&r0.rep, plain.prob.tag);
        // a checkpoint from before the failure
        let with_ck = c.scenario == "with a checkpoint" && f.ck.is_some();
        let mut image = c.image.clone();
        let mut before = None;
        let mut inc = c.incs[0].clone();
        if with_ck {
            let mut part = f.clone();
            part.prob.faults.clear();
            part.observer = None;
            let b = batch_of(&f).unwrap();
            part.params.iterations =
                ((c.aux[0] % (f.params.iterations / b).max(1) as u64) as usize) * b;
            let r = ctx.run(
                &sim_plain(),
                &image,
                &single(Job::Optimize(part.clone()), 1),
            )?;
            let Res::Set(_) = run_out(&r, 0, 0).res else {
                return Ok(());
            };
            image = r.rep.image.clone();
            before = Some(part.params.iterations);
            let mut again = f.clone();
            again.prob.faults.clear();
            again.prob.tag = 3;
            again.observer = None;
            for (k, j) in [(0, &f), (2, &again)] {
                let mut j = j.clone();
                // same number of iterations as asked for from the start
                j.resume = Some(Resume {
                    params: f.params.clone(),
                    path: None,
                });
                if k == 0 {
                    inc.threads[0][0] = Job::Optimize(j);
                } else {
                    inc.threads[0].push(Job::Optimize(j));
                }
            }
        }
        let r = ctx.run(&c.sims[0], &image, &inc)?;
        let o = run_out(&r, 0, 0);
        let injected: u64 = r
            .rep
            .stats
            .faults
            .iter()
            .filter(|(k, _)| k.starts_with("eval_"))
            .map(|(_, v)| *v)
            .sum();
        let panics: u64 = r.rep.stats.faults.get("eval_panic").copied().unwrap_or(0);
        if let Some(p) = r
            .rep
            .panics
            .iter()
            .find(|p| !p.contains("injected evaluation panic"))
        {
            return fail(
                "panic",
                format!("a failing evaluation makes the library panic: {p}"),
            );
        }
        match &o.res {
            Res::Set(v) => {
                for s in v.iter().chain(&o.best) {
                    ensure!(
                        !s.f.is_nan() && !s.x.iter().any(|x| x.is_nan()),
                        "nan",
                        "returned: {s:?}"
                    );
                    ensure!(
                        (before.is_some() && value_holds(&clean, &s.x, s.f))
                            || r.rep.events.iter().any(|e| e.tag == f.prob.tag
                                && e.kind == OBJ
                                && e.s == "ok"
                                && e.v == s.f
                                && same_point(&e.x, &s.x, f.params.solver)),
                        "honest",
                        "the value returned with {s:?} was never observed there"
                    );
                }
                if injected > 0 {
                    ctx.probe("completes in spite of failing evaluations");
                }
                if panics > 0 {
                    return fail(
                        "swallowed",
                        "an evaluation panicked and the run returned solutions",
                    );
                }
            }
            Res::Err(e) => {
                ensure!(
                    injected > 0 || matches!(want, Res::Err(_)),
                    "error",
                    "an error without any failing evaluation: {e}"
                );
                ctx.probe("ends with an error");
            }
            Res::Panic(m) => {
                ensure!(
                    panics > 0 && m.contains("injected evaluation panic"),
                    "panic",
                    "the run panics with \"{m}\", {panics} evaluations panicked"
                );
                ctx.probe("propagates the panic");
            }
        }
        // the process goes on
        let o2 = run_out(&r, 0, 1);
        ensure!(
            same_res(&want, &o2.res),
            "later-run",
            "after the failing run, alone / later in the same process: {}",
            diff_res(&want, &o2.res)
        );
        if let Res::Set(_) = want {
            let m = multiset(&r.rep, clean.prob.tag);
            ensure!(
                m == want_ev,
                "later-evaluations",
                "after the failing run: {} evaluations, alone {}",
                m.len(),
                want_ev.len()
            );
            ctx.hit = injected > 0;
        }
        if let (Some(n), Some(ck)) = (before, &f.ck) {
            let d = match newest(ctx, &r.rep.image, ck)? {
                Ok(d) => d,
                Err(e) => {
                    return fail(
                        "checkpoint",
                        format!("no checkpoint can be loaded after the failing run: {e}"),
                    );
                }
            };
            ensure!(
                d.iteration >= n,
                "checkpoint",
                "the checkpoint held {n} iterations, after the failing run and a restart {}",
                d.iteration
            );
            let single = f.prob.faults.len() == 1
                && matches!(f.prob.faults[0].when, When::Call(..))
                && bad(f.prob.faults[0].kind);
            let aborts = matches!(o.res, Res::Err(_) | Res::Panic(_))
                && matches!(
                    f.prob.faults.first().map(|f| f.kind),
                    Some(FaultKind::Err | FaultKind::Panic)
                );
            let o3 = run_out(&r, 0, 2);
            if single && aborts {
                ensure!(
                    same_res(&want, &o3.res),
                    "restart",
                    "restarted from the checkpoint / never failed: {}",
                    diff_res(&want, &o3.res)
                );
                ctx.probe("restarted after the failure");
            }
            if injected == 0 {
                ensure!(
                    same_res(&want, &o.res),
                    "restart",
                    "resumed without failures / from the start: {}",
                    diff_res(&want, &o.res)
                );
            }
        }
        Ok(())
    }
}
