//! The Python bindings do what the Rust library does.
use super::{Prop, py};
use crate::case::*;
use crate::ctx::*;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C23;

impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "one to three Python threads run one or two optimisations each through the bindings in a simulated CPython process (all solvers and options, custom points, targets, time limits, observers with Python callbacks, infinite and NaN values, parallel and serial; evaluations that keep or release the interpreter lock); each is compared with the Rust library run alone: solutions, best solution, evaluations, error text, observer states and callbacks; non-trivial: an optimisation returned solutions"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut c = Case::new("through Python");
        let n = *r.pick(&[1usize, 1, 1, 2, 2, 3]);
        let mut threads: Vec<Vec<Job>> = (0..n)
            .map(|_| {
                (0..1 + r.below(2))
                    .map(|_| Job::Optimize(py::run(r, 0.15)))
                    .collect()
            })
            .collect();
        for j in threads.iter_mut().flatten() {
            let Job::Optimize(c) = j else { continue };
            if r.chance(0.15) && !hz(c.params.solver) {
                let m = 2 + r.below(40) as u64;
                let kind = *r.pick(&[FaultKind::Nan, FaultKind::Inf, FaultKind::NegInf]);
                c.prob.faults.push(EvalFault {
                    when: When::Point(OBJ, m, r.below(m as usize) as u64),
                    kind,
                });
            }
        }
        py::retag(&mut threads);
        let mut sim = py::sim(r);
        let mut inc = Inc {
            threads,
            cpus: *r.pick(&[1u64, 2, 2, 3, 4, 8]),
            py: Some(py::opts(r)),
        };
        if n == 1 && r.chance(0.5) {
            // limits need runs in which time passes alike
            sim.stall = 0;
            inc.py.as_mut().unwrap().monitor = false;
            for j in inc.threads.iter_mut().flatten() {
                let Job::Optimize(c) = j else { continue };
                c.parallel = false;
                // far more than the interfaces themselves take; limits fall between evaluations
                c.prob.cost_base = 50_000;
                c.prob.cost_spread = 0;
                if r.chance(0.5) {
                    c.max_time = Some(
                        (*r.pick(&[5, 20, 60, 150, 400]) as f64 + r.below(100) as f64 + 0.5) * 0.05,
                    );
                }
            }
        }
        c.push(sim, inc);
        c
    }
    fn valid(&self, c: &Case) -> bool {
        py::valid(c)
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let inc = &c.incs[0];
        let run = ctx.run(&c.sims[0], &c.image, inc)?;
        let exact = py::timed(inc, &c.sims[0]);
        for (who, cfg, out) in py::outcomes(inc, &run) {
            let native = py::native(ctx, &cfg, inc.cpus)?;
            let rust = crate::model::run_out(&native, 0, 0);
            let out = out.expect("outcome");
            py::same(&who, &cfg, &native, &rust, &run, &out, exact)?;
            match &out.res {
                Res::Set(v) => ctx.hit |= !v.is_empty(),
                Res::Err(e) | Res::Panic(e) => ctx.probe(&format!(
                    "failed in both: {}",
                    e.chars().take(60).collect::<String>()
                )),
            }
            if cfg.max_time.is_some() {
                ctx.probe("with a time limit");
            }
            if cfg.observer.is_some() {
                ctx.probe("observed");
            }
        }
        if py::overlap(&run.rep) {
            ctx.probe("optimisations overlap");
        }
        Ok(())
    }
}
