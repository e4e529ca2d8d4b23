//! Target objective stops the search promptly and only when reached.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C05;

/// a target among the values met by a run, or next to one
pub fn pick_target(aux: &[u64], rd: &RefData, pos: &[usize]) -> f64 {
    let mut v = vec![];
    if let Ok(s) = &rd.first.res {
        v.push(s.f);
    }
    for &p in pos {
        if let Ok(s) = &rd.locals[p].res {
            v.push(s.f);
        }
    }
    v.retain(|x| x.is_finite());
    v.sort_by(f64::total_cmp);
    v.dedup();
    if v.is_empty() {
        return 0.0;
    }
    // mostly values that the first local search does not reach
    if let (true, Ok(f)) = (aux[0] / 7 % 8 > 0, &rd.first.res) {
        let w: Vec<f64> = v.iter().copied().filter(|x| *x < f.f).collect();
        if !w.is_empty() {
            v = w;
        }
    }
    let x = v[(aux[0] % v.len() as u64) as usize];
    match aux[1] % 6 {
        0 | 1 | 2 => x,
        3 => x + 1e-9 * (1.0 + x.abs()),
        4 => x - 1e-9 * (1.0 + x.abs()),
        _ => x - 1.0 - x.abs(),
    }
}

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "a random run without target, then the same run (serial or in batches under a hostile schedule, sometimes with exclusion of out-of-bounds solutions) with a target taken from the values it met, at or next to it; with checkpointing also a restart; non-trivial: Stage 2 makes searches and the target is met by one of them or by none"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut base = gen_run(r);
        if r.chance(0.3) {
            base.parallel = false;
        }
        base.params.iterations = base.params.population - r.below(3);
        if r.chance(0.6) {
            base.params.wait_cycle = 1 + r.below(2);
            base.params.threshold_factor = *r.pick(&[0.5, 1.0, 5.0]);
        }
        if r.chance(0.75) {
            // poor local searches: the first one is often not the best
            base.params.solver_iters = 2 + r.below(4) as u64;
        }
        base.prob.func = *r.pick(&[
            Func::Rastrigin,
            Func::Needle,
            Func::SixHump,
            Func::Styblinski,
            Func::Rosenbrock,
            Func::FarSphere,
            Func::AbsSum,
            Func::Waves,
        ]);
        base.exclude = r.chance(0.3);
        if r.chance(0.4) {
            base.ck = Some(CkCfg {
                dir: "/ck".into(),
                name: "r".into(),
                freq: 1 + r.below(6),
                keep_all: r.chance(0.3),
                auto_resume: true,
            });
        }
        if r.chance(0.15) {
            base.observer = Some(gen_obs(r));
        }
        let mut c = Case::new(if base.parallel { "parallel" } else { "serial" });
        c.aux = vec![r.u64(), r.u64()];
        let (v, cpus) = vary(r, &base);
        c.push(sim_wild(r), single(Job::Optimize(v), cpus));
        c.push(sim_wild(r), single(Job::Optimize(base), cpus));
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 2
            && c.aux.len() == 2
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let cfg = c.run_cfg(0).clone();
        let Some(rd) = reference(ctx, &cfg)? else {
            return Ok(());
        };
        if ambiguous(&rd) {
            return Ok(());
        }
        let mut plain = cfg.clone();
        plain.target = None;
        plain.ck = None;
        plain.observer = None;
        let r0 = ctx.run(
            &sim_plain(),
            &Default::default(),
            &single(Job::Optimize(plain), 1),
        )?;
        let o0 = run_out(&r0, 0, 0);
        let Res::Set(_) = o0.res else { return Ok(()) };
        let d0 = match decompose(&evals(&r0.rep, cfg.prob.tag), &rd, false, false) {
            Ok(d) => d,
            Err(e) => return fail("searches", e),
        };
        let pos0 = by_pos(&d0);
        let mut cfg = cfg;
        cfg.target = Some(pick_target(&c.aux, &rd, &pos0));
        let t = cfg.target.unwrap();
        // what has to happen
        let (set, used) = offer_all(&cfg, &rd, &pos0);
        let met = target_met(&cfg, &set);
        let b = batch_of(&cfg).unwrap();
        let want: Vec<usize> = if !met {
            pos0.clone()
        } else if used == 0 {
            vec![]
        } else {
            let last = pos0[used - 1] / b;
            pos0.iter().copied().filter(|p| p / b <= last).collect()
        };
        let mut inc = c.incs[0].clone();
        inc.threads[0][0] = Job::Optimize(cfg.clone());
        let r = ctx.run(&c.sims[0], &c.image, &inc)?;
        let o = run_out(&r, 0, 0);
        let d = match decompose(&evals(&r.rep, cfg.prob.tag), &rd, false, false) {
            Ok(d) => d,
            Err(e) => return fail("searches", e),
        };
        let pos = by_pos(&d);
        if pos != want {
            let kind = if !met || pos.len() < want.len() {
                "stops-early"
            } else {
                "goes-on"
            };
            let m = if used == 0 {
                "by the first local search".to_string()
            } else {
                format!("by the search from position {}", pos0[used - 1])
            };
            return fail(
                kind,
                format!(
                    "target {t:?} is {}; searches made from {pos:?}, without a target from {pos0:?}, batches of {b}",
                    if met {
                        format!("met {m}")
                    } else {
                        "never met".into()
                    }
                ),
            );
        }
        match &o.res {
            Res::Set(s) => {
                if met {
                    ensure!(
                        o.best.as_ref().is_some_and(|b| b.f <= t),
                        "best-above",
                        "target {t:?} was met, the best solution returned is {:?}",
                        o.best
                    );
                }
                ensure!(
                    sols_bits(s) == sols_bits(&set),
                    "result",
                    "expected / returned: {}",
                    diff(&set, s)
                );
            }
            // excluded solutions may leave nothing to return
            other => ensure!(
                set.is_empty(),
                "outcome",
                "{} instead of {}",
                show_res(other),
                show(&set)
            ),
        }
        ctx.hit = !pos0.is_empty();
        if met {
            ctx.probe(if used == 0 {
                "met in stage 1"
            } else if want.len() < pos0.len() {
                "met in stage 2, searches saved"
            } else {
                "met in the last batch"
            });
            if used > 0 && used < want.len() {
                ctx.probe("results in the batch after the target");
            }
        } else {
            ctx.probe("never met");
        }
        if let Some(ck) = &cfg.ck {
            let l = ctx.run(
                &sim_plain(),
                &r.rep.image,
                &single(Job::Ck(ck.clone(), vec![CkOp::LoadLatest]), 1),
            )?;
            let reached = match l.job(0, 0) {
                Some(JobOut::Ck(Ok(v))) => match &v[0] {
                    CkOut::Loaded(Ok(s)) => target_met(&cfg, s.solutions.as_deref().unwrap_or(&[])),
                    _ => false,
                },
                _ => false,
            };
            if reached {
                let mut inc = c.incs[1].clone();
                let mut again = cfg.clone();
                again.prob.cost_base = 0;
                inc.threads[0][0] = Job::Optimize(again);
                let r2 = ctx.run(&c.sims[1], &r.rep.image, &inc)?;
                let o2 = run_out(&r2, 0, 0);
                let d2 = match decompose(&evals(&r2.rep, cfg.prob.tag), &rd, true, false) {
                    Ok(d) => d,
                    Err(e) => {
                        return fail(
                            "restart-searches",
                            format!("the checkpoint had met the target {t:?}: {e}"),
                        );
                    }
                };
                ensure!(
                    d2.searches.is_empty(),
                    "restart-searches",
                    "the checkpoint had met the target {t:?}, the restarted run searches from {:?}",
                    by_pos(&d2)
                );
                ensure!(
                    same_res(&o.res, &o2.res),
                    "restart-result",
                    "restarted: {}",
                    diff_res(&o.res, &o2.res)
                );
                ctx.probe("restarted after the target was met");
            }
        }
        Ok(())
    }
}
