//! Returned solutions are honest and the best one is never lost.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C03;

/// properties of a returned set on its own
pub fn honest(cfg: &RunCfg, set: &[Sol], best: Option<&Sol>) -> Verdict {
    ensure!(
        !set.is_empty(),
        "empty",
        "a run returned no solutions without an error"
    );
    for (i, s) in set.iter().enumerate() {
        let v = cfg.prob.value_at(&s.x);
        ensure!(
            value_holds(cfg, &s.x, s.f),
            "honest",
            "solution {i} at {:?} is returned with value {:?}, its objective value is {v:?}",
            s.x,
            s.f
        );
        ensure!(
            s.f == set[0].f || (s.f - set[0].f).abs() <= tol_of(cfg, s.f, set[0].f),
            "tolerance",
            "solution {i} has value {:?}, the first one {:?}",
            s.f,
            set[0].f
        );
        for (j, t) in set[..i].iter().enumerate() {
            let df2 = cfg.params.distance_factor * cfg.params.distance_factor;
            ensure!(
                dist2(&s.x, &t.x) >= df2,
                "distance",
                "solutions {j} {:?} and {i} {:?} are closer than the distance factor {}",
                t.x,
                s.x,
                cfg.params.distance_factor
            );
        }
    }
    if let Some(b) = best {
        ensure!(
            set.iter().all(|s| s.f >= b.f) && set.iter().any(|s| s.bits() == b.bits()),
            "best",
            "best solution {b:?} of {}",
            show(set)
        );
    } else {
        return fail("best", "no best solution of a non-empty set");
    }
    Ok(())
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "one random run (serial or in batches under a hostile schedule; distance factors, tolerances, ties, plateaus, targets, exclusion); the local searches really made are recovered from the recorded evaluations and offered one by one to an empty set; non-trivial: at least two local searches were made"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut base = gen_run(r);
        base.prob.func = *r.pick(&[
            Func::SixHump,
            Func::Rastrigin,
            Func::CosProd,
            Func::Quantised,
            Func::Constant,
            Func::FarSphere,
            Func::DoubleWell,
            Func::Styblinski,
            Func::AbsSum,
            Func::Needle,
            Func::Waves,
            Func::Waves,
        ]);
        if r.chance(0.5) {
            base.params.wait_cycle = 1 + r.below(2);
            base.params.threshold_factor = *r.pick(&[0.5, 1.0, 5.0]);
        }
        if r.chance(0.3) {
            base.parallel = false;
        }
        if r.chance(0.15) {
            base.target = Some(r.uniform(-3.0, 3.0));
        }
        if r.chance(0.1) {
            let m = 3 + r.below(30) as u64;
            let kind = *r.pick(&[FaultKind::Inf, FaultKind::Nan, FaultKind::NegNan]);
            let kind = if hz(base.params.solver) {
                FaultKind::Err
            } else {
                kind
            };
            base.prob.faults.push(EvalFault {
                when: When::Point(OBJ, m, r.below(m as usize) as u64),
                kind,
            });
        }
        if r.chance(0.15) {
            base.observer = Some(gen_obs(r));
        }
        if r.chance(0.15) {
            base.ck = Some(CkCfg {
                dir: "/ck".into(),
                name: "r".into(),
                freq: 1 + r.below(10),
                keep_all: r.chance(0.3),
                auto_resume: r.chance(0.5),
            });
        }
        let mut c = Case::new(if base.parallel { "parallel" } else { "serial" });
        let (v, cpus) = vary(r, &base);
        c.push(sim_wild(r), single(Job::Optimize(v), cpus));
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 1 && c.incs[0].threads.len() == 1 && c.incs[0].threads[0].len() == 1
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let cfg = c.run_cfg(0).clone();
        let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
        let o = run_out(&r, 0, 0);
        let Res::Set(set) = &o.res else {
            ensure!(
                !matches!(o.res, Res::Panic(_)),
                "panic",
                "{}",
                show_res(&o.res)
            );
            ctx.probe(&format!(
                "run ends with an error: {}",
                show_res(&o.res).chars().take(110).collect::<String>()
            ));
            return Ok(());
        };
        honest(&cfg, set, o.best.as_ref())?;
        let Some(rd) = reference(ctx, &cfg)? else {
            return Ok(());
        };
        if ambiguous(&rd) {
            ctx.probe("duplicate reference points: set checked on its own only");
            return Ok(());
        }
        let ev = evals(&r.rep, cfg.prob.tag);
        let d = match decompose(&ev, &rd, false, false) {
            Ok(d) => d,
            Err(e) => return fail("searches", e),
        };
        let pos = by_pos(&d);
        let (want, used) = offer_all(&cfg, &rd, &pos);
        ensure!(
            sols_bits(&want) == sols_bits(set),
            "set",
            "offering the {} results found in order leaves {}; returned: {}",
            used + 1,
            show(&want),
            show(set)
        );
        // nothing acceptable that was found before the run stopped beats the best one
        for &p in &pos[..used] {
            if let Ok(s) = &rd.locals[p].res {
                let lost = s.f < set[0].f - tol_of(&cfg, s.f, set[0].f)
                    && !(cfg.exclude && !cfg.prob.in_bounds(&s.x))
                    && !s.x.iter().any(|v| v.is_nan());
                ensure!(
                    !lost,
                    "lost",
                    "the search from position {p} found {s:?}, the best one returned is {:?}",
                    set[0]
                );
            }
        }
        ctx.hit = pos.len() >= 2;
        if set.len() > 1 {
            ctx.probe("several solutions returned");
        }
        if used < pos.len() {
            ctx.probe("results after the target was reached");
        }
        if set[0].bits() != rd.first.res.as_ref().unwrap().bits() {
            ctx.probe("first solution replaced");
        }
        Ok(())
    }
}
