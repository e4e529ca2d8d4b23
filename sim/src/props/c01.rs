//! Same seed, same answer under every schedule.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C01;

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "one random problem, parameter set and seed run under 4 to 6 schedules that differ in scheduling seed and policy, preemption density, worker count, pool, evaluation cost, stalls, clock and entropy; non-trivial: at least one scheduling decision was taken and the run returned solutions"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut c = Case::new("schedules");
        let mut base = gen_run(r);
        if r.chance(0.15) {
            base.parallel = false;
            c.scenario = "serial".into();
        }
        if r.chance(0.2) {
            let m = 3 + r.below(30) as u64;
            let kind = *r.pick(&[FaultKind::Inf, FaultKind::Nan, FaultKind::Err]);
            let kind = if hz(base.params.solver) {
                FaultKind::Err
            } else {
                kind
            };
            base.prob.faults.push(EvalFault {
                when: When::Point(OBJ, m, r.below(m as usize) as u64),
                kind,
            });
            c.scenario = "bad points".into();
        }
        if r.chance(0.15) {
            base.target = Some(r.uniform(-3.0, 3.0));
        }
        c.push(sim_plain(), single(Job::Optimize(base.clone()), 1));
        for _ in 0..3 + r.below(3) {
            let (v, cpus) = vary(r, &base);
            c.push(sim_wild(r), single(Job::Optimize(v), cpus));
        }
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() >= 2
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let mut base: Option<(Res, Vec<Key>)> = None;
        let mut decisions = 0;
        for i in 0..c.incs.len() {
            let r = ctx.run(&c.sims[i], &c.image, &c.incs[i])?;
            decisions += r.rep.stats.decisions;
            let o = run_out(&r, 0, 0);
            let ms = multiset(&r.rep, 0);
            match &base {
                None => base = Some((o.res, ms)),
                Some((b, m)) => {
                    ensure!(
                        same_res(b, &o.res),
                        "result",
                        "run {i} differs from run 0: {}",
                        diff_res(b, &o.res)
                    );
                    if let Res::Set(_) = b {
                        if *m != ms {
                            let x = ms
                                .iter()
                                .find(|k| m.binary_search(k).is_err())
                                .or(m.iter().find(|k| ms.binary_search(k).is_err()));
                            return fail(
                                "evaluations",
                                format!(
                                    "run {i} makes {} evaluations, run 0 {}; e.g. {:?}",
                                    ms.len(),
                                    m.len(),
                                    x.map(|k| (
                                        k.0,
                                        k.1.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
                                    ))
                                ),
                            );
                        }
                    }
                }
            }
        }
        if let Some((Res::Set(v), _)) = &base {
            ctx.hit = decisions > 0;
            if v.len() > 1 {
                ctx.probe("several solutions");
            }
        } else {
            ctx.probe("run ends with an error");
        }
        Ok(())
    }
}
