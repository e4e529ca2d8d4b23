//! Python: exceptions in user functions are contained.
use super::{Prop, py};
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C20;

impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "one to three Python threads run two to four optimisations in all through the bindings in a simulated CPython process; objective, gradient, Hessian, constraint, bounds and observer functions raise (ValueError, RuntimeError, KeyboardInterrupt) or return no number at chosen calls or points; the process has to end without deadlock or crash, an optimisation whose constraint or bounds raised ends with an exception, one whose evaluation failed ends as in Rust, and the others equal the Rust library run alone; non-trivial: something raised and a later or concurrent optimisation succeeded"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut c = Case::new("exceptions");
        let n = *r.pick(&[1usize, 1, 1, 2, 2, 3]);
        let mut threads: Vec<Vec<Job>> = (0..n)
            .map(|_| {
                (0..if n == 1 {
                    2 + r.below(3)
                } else {
                    1 + r.below(2)
                })
                    .map(|_| Job::Optimize(py::run(r, 0.5)))
                    .collect()
            })
            .collect();
        let mut k = 0;
        for j in threads.iter_mut().flatten() {
            let Job::Optimize(c) = j else { continue };
            c.params.population = c.params.population.min(16);
            c.params.iterations = c.params.iterations.min(c.params.population);
            k += 1;
            if k > 1 && r.chance(0.55) {
                continue;
            }
            let kinds: &[u8] = if c.prob.cons > 0 {
                &[OBJ, CONS, CONS, CONS, BOUNDS]
            } else {
                &[OBJ, OBJ, GRAD, HESS, BOUNDS, CB]
            };
            let kind = *r.pick(kinds);
            let when = match kind {
                // which call is the n-th must not depend on the schedule
                OBJ | GRAD | HESS if c.parallel || r.chance(0.5) => {
                    let m = 2 + r.below(60) as u64;
                    When::Point(kind, m, r.below(m as usize) as u64)
                }
                BOUNDS => When::Call(BOUNDS, r.below(4) as u64),
                CB => {
                    c.observer = Some(ObsCfg {
                        cb: 1,
                        cost_us: 0,
                        s1: true,
                        s2: true,
                        mode: 0,
                        ..gen_obs(r)
                    });
                    When::Point(CB, 1, 0)
                }
                _ => When::Call(kind, r.below(if kind == CONS { 200 } else { 60 }) as u64),
            };
            if kind == GRAD && !uses_gradient(c.params.solver) {
                c.params.solver = 2;
            }
            if kind == HESS {
                c.params.solver = 5 + r.below(2) as u8;
            }
            c.prob.faults.push(EvalFault {
                when,
                kind: FaultKind::Err,
            });
        }
        py::retag(&mut threads);
        c.push(
            py::sim(r),
            Inc {
                threads,
                cpus: *r.pick(&[1u64, 2, 2, 3, 4, 8]),
                py: Some(py::opts(r)),
            },
        );
        c
    }
    fn valid(&self, c: &Case) -> bool {
        py::valid(c)
            && c.incs[0].threads.iter().flatten().all(|j| {
                let c = cfg_of(j);
                c.prob.faults.iter().all(|f| {
                    f.kind == FaultKind::Err
                        && (!c.parallel || !matches!(f.when, When::Call(OBJ | GRAD | HESS, _)))
                })
            })
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let inc = &c.incs[0];
        let run = ctx.run(&c.sims[0], &c.image, inc)?;
        let (mut raised, mut fine) = (false, false);
        for (who, cfg, out) in py::outcomes(inc, &run) {
            let out = out.expect("outcome");
            let ends = |k: u8| {
                run.rep
                    .events
                    .iter()
                    .any(|e| e.tag == cfg.prob.tag && e.kind == k && e.s == "err")
            };
            if ends(CONS) || ends(BOUNDS) {
                let what = if ends(CONS) { "constraint" } else { "bounds" };
                raised = true;
                ctx.probe(&format!("{what} raised"));
                ensure!(
                    !matches!(out.res, Res::Set(_)),
                    "swallowed",
                    "{who}: a {what} function raised an exception, the optimisation returned {}",
                    crate::model::show_res(&out.res)
                );
                continue;
            }
            let failed = [OBJ, GRAD, HESS].into_iter().any(ends);
            if failed {
                raised = true;
                ctx.probe("evaluation raised");
            }
            let mut clean = cfg.clone();
            clean.prob.faults.retain(|f| {
                !matches!(
                    f.when,
                    When::Call(CONS | BOUNDS | CB, _) | When::Point(CONS | BOUNDS | CB, ..)
                )
            });
            let native = py::native(ctx, &clean, inc.cpus)?;
            let rust = crate::model::run_out(&native, 0, 0);
            py::same(&who, &cfg, &native, &rust, &run, &out, false)?;
            ensure!(
                !matches!(out.res, Res::Panic(_)) || matches!(rust.res, Res::Panic(_)),
                "panic",
                "{who}: {}",
                crate::model::show_res(&out.res)
            );
            if cfg
                .prob
                .faults
                .iter()
                .any(|f| matches!(f.when, When::Point(CB, ..)))
                && run
                    .rep
                    .events
                    .iter()
                    .any(|e| e.kind == CB && e.tag == cfg.prob.tag)
            {
                raised = true;
                ctx.probe("callback raised");
            }
            fine |= matches!(out.res, Res::Set(_));
        }
        ctx.hit = raised && fine;
        Ok(())
    }
}
