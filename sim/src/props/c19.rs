//! Python: constraints belong to their own problem.
use super::{Prop, py};
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C19;

impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "one to four Python threads run one to three optimisations each, most of them constrained by different functions (each with a problem object of its own, or one object whose attributes or constraint list change in between), through the bindings in a simulated CPython process; problem objects are created before all optimisations or just in time, kept or dropped, and an evaluation may itself run another optimisation; each is compared with the Rust library run alone (solutions, evaluations) and, for the constraint functions called and where, with the same optimisation alone in its process; with a single caller no constraint function of another problem is called; non-trivial: constraints of a problem were called in a process with other problems"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let n = *r.pick(&[1usize, 1, 2, 2, 3, 4]);
        let mut threads: Vec<Vec<Job>> = (0..n)
            .map(|_| {
                (0..1 + r.below(if n == 1 { 3 } else { 2 }))
                    .map(|_| Job::Optimize(py::run(r, 0.75)))
                    .collect()
            })
            .collect();
        for j in threads.iter_mut().flatten() {
            if let Job::Optimize(c) = j {
                c.params.population = c.params.population.min(16);
                c.params.iterations = c.params.iterations.min(c.params.population);
            }
        }
        py::retag(&mut threads);
        let mut o = py::opts(r);
        let nested = r.chance(0.25);
        if nested {
            let t = cfg_of(r.pick(&threads[0])).prob.tag;
            let mut inner = py::run(r, 0.75);
            inner.params.population = inner.params.population.min(12);
            inner.params.iterations = inner.params.iterations.min(inner.params.population);
            inner.prob.tag = 900;
            let of = threads[0]
                .iter()
                .map(cfg_of)
                .find(|c| c.prob.tag == t)
                .expect("outer");
            let mut kinds = vec![OBJ, OBJ, OBJ];
            if of.prob.cons > 0 {
                kinds.extend([CONS, CONS]);
            }
            if uses_gradient(of.params.solver) {
                kinds.push(GRAD);
            }
            if of.observer.as_ref().is_some_and(|o| o.cb == 1) {
                kinds.extend([CB, CB]);
            }
            o.nested_in = *r.pick(&kinds);
            let most = if o.nested_in == CB { 4 } else { 40 };
            o.nested = Some((t, r.below(most) as u64, Box::new(inner)));
        }
        let mut c = Case::new(if nested {
            "an optimisation inside an evaluation"
        } else if n == 1 {
            "one caller"
        } else {
            "several callers"
        });
        c.push(
            py::sim(r),
            Inc {
                threads,
                cpus: *r.pick(&[1u64, 2, 2, 3, 4, 8]),
                py: Some(o),
            },
        );
        c
    }
    fn valid(&self, c: &Case) -> bool {
        py::valid(c)
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let inc = &c.incs[0];
        let run = ctx.run(&c.sims[0], &c.image, inc)?;
        let all = py::outcomes(inc, &run);
        let nested = inc.py.as_ref().is_some_and(|p| p.nested.is_some());
        if inc.threads.len() == 1 && !nested {
            let mut now = None;
            for e in &run.rep.events {
                match e.kind {
                    MARK if e.s == "run" => now = Some(e.tag),
                    MARK if e.s == "end" => now = None,
                    CONS => ensure!(
                        now == Some(e.tag),
                        "foreign",
                        "while {now:?} was optimised, constraint {} of problem {} was called at {:?}",
                        e.s,
                        e.tag,
                        e.x
                    ),
                    _ => {}
                }
            }
        }
        for (who, cfg, out) in &all {
            let Some(out) = out else {
                ctx.probe("the nested optimisation was not reached");
                continue;
            };
            let native = py::native(ctx, cfg, inc.cpus)?;
            let rust = crate::model::run_out(&native, 0, 0);
            py::same(who, cfg, &native, &rust, &run, out, false)?;
            if !matches!(out.res, Res::Set(_)) {
                continue;
            }
            if cfg.prob.cons > 0 && all.len() > 1 {
                let alone = py::alone(ctx, cfg, inc)?;
                let (a, b) = (
                    py::cons(&alone.rep, cfg.prob.tag),
                    py::cons(&run.rep, cfg.prob.tag),
                );
                ensure!(
                    a == b,
                    "constraints",
                    "{who}: {} constraint evaluations alone, {} in company; only alone {:?}, only in company {:?}",
                    a.len(),
                    b.len(),
                    a.difference(&b).next(),
                    b.difference(&a).next()
                );
                ctx.hit |= !a.is_empty();
            }
            if cfg.prob.cons > 0 {
                ctx.probe("constrained");
            }
        }
        if nested {
            ctx.probe("nested");
        }
        if py::overlap(&run.rep) {
            ctx.probe("optimisations overlap");
        }
        Ok(())
    }
}
