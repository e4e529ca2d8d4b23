//! Stage 1 keeps the best points it evaluated.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use std::collections::BTreeMap;
use subject::problem::*;
use subject::*;

pub struct C18;

impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Stage 1 alone and whole runs on random problems (constraints, user points, failing and non-finite evaluations, populations up to 150), serial and under hostile schedules; the reference set is compared with every evaluation recorded; non-trivial: trial points were evaluated beyond the initial set"
    }
    fn make(&self, r: &mut Rng, i: u64) -> Case {
        let mut base = gen_run(r);
        base.params.population =
            *r.pick(&[4, 5, 6, 9, 12, 16, 20, 21, 25, 36, 50, 64, 80, 100, 150]);
        base.params.iterations = base.params.iterations.min(base.params.population);
        if r.chance(0.25) {
            base.parallel = false;
        }
        if r.chance(0.3) {
            let n = *r.pick(&[1, 2, 4, 8, 20, 60, 110]);
            base.custom = gen_custom(r, &base.prob, n);
        }
        if r.chance(0.25) {
            let m = 3 + r.below(30) as u64;
            let kind = *r.pick(&[
                FaultKind::Inf,
                FaultKind::Nan,
                FaultKind::NegNan,
                FaultKind::NegInf,
                FaultKind::Err,
            ]);
            base.prob.faults.push(EvalFault {
                when: When::Point(OBJ, m, r.below(m as usize) as u64),
                kind,
            });
        }
        let whole = i % 4 == 3;
        let mut c = Case::new(if whole { "run" } else { "stage 1" });
        let (mut v, cpus) = vary(r, &base);
        if whole {
            v.params.iterations = 0;
            if hz(v.params.solver) {
                v.params.solver = 0;
            }
            c.push(sim_wild(r), single(Job::Optimize(v), cpus));
        } else {
            if r.chance(0.2) {
                v.observer = Some(gen_obs(r));
            }
            c.push(sim_wild(r), single(Job::Stage1(v), cpus));
        }
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 1 && c.incs[0].threads.len() == 1 && c.incs[0].threads[0].len() == 1
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let job = &c.incs[0].threads[0][0];
        let cfg = cfg_of(job).clone();
        if let Job::Optimize(_) = job {
            // the first local search of a run starts from a best evaluated point
            let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
            let o = run_out(&r, 0, 0);
            let Res::Set(_) = o.res else { return Ok(()) };
            let Some(rd) = reference(ctx, &cfg)? else {
                return Ok(());
            };
            let ev = evals(&r.rep, cfg.prob.tag);
            ensure!(
                ev.len() > rd.n1,
                "first-search",
                "{} evaluations in a run, Stage 1 alone makes {}",
                ev.len(),
                rd.n1
            );
            let start = &ev[rd.n1].x;
            let best = ev[..rd.n1]
                .iter()
                .filter(|e| e.s == "ok" && !e.v.is_nan())
                .map(|e| e.v)
                .fold(f64::INFINITY, f64::min);
            let v = cfg
                .prob
                .value_at(start)
                .map_or(f64::NAN, |v| if v.is_nan() { f64::INFINITY } else { v });
            ensure!(
                v == best,
                "first-search",
                "the first local search starts at {start:?} with value {v:?}; the best value evaluated is {best:?}"
            );
            ctx.hit = rd.n1 > cfg.params.population;
            ctx.probe("first local search");
            return Ok(());
        }
        let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
        let Some(JobOut::Stage1 { res, panic, .. }) = r.job(0, 0) else {
            panic!("stage 1")
        };
        ensure!(panic.is_none(), "panic", "{panic:?}");
        let (kept, cand) = match res {
            Ok(x) => x,
            Err(_) => {
                ctx.probe("ends with an error");
                return Ok(());
            }
        };
        let ev = evals(&r.rep, cfg.prob.tag);
        let worse = |v: f64| if v.is_nan() { f64::INFINITY } else { v };
        ensure!(
            kept.len() >= cfg.params.population,
            "size",
            "{} points for a population of {}",
            kept.len(),
            cfg.params.population
        );
        // multiset of successful evaluations
        let mut seen: BTreeMap<Vec<u64>, (usize, f64)> = BTreeMap::new();
        for e in ev.iter().filter(|e| e.kind == OBJ && e.s == "ok") {
            let s = seen.entry(bits(&e.x)).or_insert((0, worse(e.v)));
            s.0 += 1;
        }
        let mut left = seen.clone();
        let mut worst = f64::NEG_INFINITY;
        let mut best = f64::INFINITY;
        for (i, p) in kept.iter().enumerate() {
            let Some(s) = left.get_mut(&bits(&p.x)) else {
                return fail(
                    "unevaluated",
                    format!(
                        "point {i} {:?} of the reference set was never evaluated",
                        p.x
                    ),
                );
            };
            ensure!(
                p.f == s.1,
                "pairing",
                "point {i} {:?} is paired with {:?}, its value is {:?}",
                p.x,
                p.f,
                s.1
            );
            ensure!(
                s.0 > 0,
                "repeated",
                "point {i} {:?} is kept more often than it was evaluated",
                p.x
            );
            s.0 -= 1;
            worst = worst.max(p.f);
            best = best.min(p.f);
        }
        for (x, s) in left.iter().filter(|(_, s)| s.0 > 0) {
            ensure!(
                s.1 >= worst,
                "left-out",
                "the point {:?} with value {:?} is left out although a point with value {worst:?} is kept",
                x.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(),
                s.1
            );
        }
        let cv = kept.iter().find(|p| bits(&p.x) == bits(cand));
        ensure!(
            cv.is_some_and(|p| p.f == best),
            "candidate",
            "the candidate {cand:?} has value {:?}, the best one kept is {best:?}",
            cv.map(|p| p.f)
        );
        for p in &cfg.custom {
            if cfg.prob.in_bounds(p) && cfg.prob.feasible(p) {
                let n = cfg.custom.iter().filter(|q| bits(q) == bits(p)).count();
                let _ = n;
                ensure!(
                    ev.iter().any(|e| bits(&e.x) == bits(p)),
                    "custom",
                    "the user's point {p:?} is admissible and was not evaluated"
                );
                ctx.probe("admissible user point");
            }
        }
        ctx.hit = ev.len() > kept.len().max(cfg.params.population);
        Ok(())
    }
}
