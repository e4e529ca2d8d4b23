//! Parallel and serial execution agree.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use subject::*;

pub struct C02;

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "one random problem, parameter set and seed run serially, in parallel with batch size one under hostile schedules, and by the build without rayon (whole runs, and Stage 1 alone); non-trivial: solutions returned and at least one scheduling decision in a parallel run"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let stage1 = r.chance(0.4);
        let mut c = Case::new(if stage1 { "stage 1" } else { "run" });
        let mut base = gen_run(r);
        base.batch = Some(1);
        if stage1 && r.chance(0.5) {
            base.params.population = *r.pick(&[20, 25, 40, 60, 100, 130]);
        }
        let job = |c: RunCfg| {
            if stage1 {
                Job::Stage1(c)
            } else {
                Job::Optimize(c)
            }
        };
        let mut s = base.clone();
        s.parallel = false;
        c.push(sim_plain(), single(job(s.clone()), 1));
        c.push(sim_plain(), single(job(s), 1));
        for _ in 0..1 + r.below(3) {
            let (v, cpus) = vary(r, &base);
            c.push(sim_wild(r), single(job(v), cpus));
        }
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() >= 2
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let names = ["serial", "build without rayon", "parallel"];
        let mut first: Option<JobOut> = None;
        let mut dec = 0;
        for i in 0..c.incs.len() {
            let r = if i == 1 {
                ctx.run_serial(&c.sims[i], &c.image, &c.incs[i])?
            } else {
                ctx.run(&c.sims[i], &c.image, &c.incs[i])?
            };
            dec += r.rep.stats.decisions;
            let o = r.out[0][0].clone();
            let n = names[i.min(2)];
            match (&first, &o) {
                (None, _) => first = Some(o),
                (Some(JobOut::Run(a)), JobOut::Run(b)) => {
                    ensure!(
                        same_res(&a.res, &b.res),
                        "result",
                        "serial / {n}: {}",
                        diff_res(&a.res, &b.res)
                    );
                }
                (Some(JobOut::Stage1 { res: a, .. }), JobOut::Stage1 { res: b, panic, .. }) => {
                    ensure!(panic.is_none(), "stage1-panic", "{n}: {panic:?}");
                    match (a, b) {
                        (Ok((pa, ca)), Ok((pb, cb))) => {
                            ensure!(
                                sols_bits(pa) == sols_bits(pb),
                                "stage1-points",
                                "serial / {n}: {}",
                                diff(pa, pb)
                            );
                            ensure!(
                                bits(ca) == bits(cb),
                                "stage1-candidate",
                                "serial / {n}: {ca:?} / {cb:?}"
                            );
                        }
                        (Err(_), Err(_)) => {}
                        _ => {
                            return fail(
                                "stage1-outcome",
                                format!("serial / {n}: {} / {}", a.is_ok(), b.is_ok()),
                            );
                        }
                    }
                }
                _ => return fail("shape", "different jobs"),
            }
        }
        ctx.hit = dec > 0
            && match &first {
                Some(JobOut::Run(o)) => matches!(o.res, Res::Set(_)),
                Some(JobOut::Stage1 { res, .. }) => res.is_ok(),
                _ => false,
            };
        Ok(())
    }
}
