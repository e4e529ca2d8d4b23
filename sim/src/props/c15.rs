//! Stage 2 starts local searches exactly where its filters allow.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::fs::Image;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C15;

/// the searches of every batch take place between those of its neighbours
pub fn batches_in_order(d: &Decomp, pr: &Prediction) -> Verdict {
    let mut last: Option<(usize, u64)> = None;
    for (a, b, _) in &pr.batches {
        let s: Vec<&Search> = d
            .searches
            .iter()
            .filter(|s| s.pos >= *a && s.pos < *b)
            .collect();
        for x in &s {
            if let Some((p, t)) = last {
                ensure!(
                    x.from > t,
                    "order",
                    "the search from position {} starts before the one from position {p}, which belongs to an earlier batch, has ended",
                    x.pos
                );
            }
        }
        if let Some(m) = s.iter().max_by_key(|s| s.to) {
            last = Some((m.pos, m.to));
        }
    }
    Ok(())
}

impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "one random run (serial or in batches under a hostile schedule, with checkpointing to read the final state) against an independent model of Stage 2 fed with the reference set and the local search from each of its points; non-trivial: Stage 2 starts at least one search and rejects at least one point"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut base = gen_run(r);
        if r.chance(0.4) {
            base.parallel = false;
        }
        if r.chance(0.2) {
            base.target = Some(r.uniform(-3.0, 3.0));
        }
        if r.chance(0.3) {
            // short waits with small steps relax often
            base.params.wait_cycle = 1 + r.below(3);
        }
        if r.chance(0.15) {
            let m = 3 + r.below(30) as u64;
            let kind = *r.pick(&[
                FaultKind::Inf,
                FaultKind::Nan,
                FaultKind::NegNan,
                FaultKind::NegInf,
            ]);
            let kind = if hz(base.params.solver) {
                FaultKind::Err
            } else {
                kind
            };
            base.prob.faults.push(EvalFault {
                when: When::Point(OBJ, m, r.below(m as usize) as u64),
                kind,
            });
        }
        if r.chance(0.7) {
            let freq = 1 + r.below(10);
            base.ck = Some(CkCfg {
                dir: "/ck".into(),
                name: "r".into(),
                freq,
                keep_all: r.chance(0.3),
                auto_resume: false,
            });
        }
        if r.chance(0.2) {
            base.observer = Some(gen_obs(r));
        }
        let mut c = Case::new(if base.parallel { "parallel" } else { "serial" });
        let (v, cpus) = vary(r, &base);
        c.push(sim_wild(r), single(Job::Optimize(v), cpus));
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 1 && c.incs[0].threads.len() == 1 && c.incs[0].threads[0].len() == 1
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let cfg = c.run_cfg(0).clone();
        let Some(rd) = reference(ctx, &cfg)? else {
            return Ok(());
        };
        // visited: a rearrangement of what Stage 1 produced
        let mut a: Vec<Vec<u64>> = rd.order.iter().map(|p| bits(p)).collect();
        let mut b: Vec<Vec<u64>> = rd.stage1.iter().map(|p| bits(&p.x)).collect();
        a.sort();
        b.sort();
        ensure!(
            a == b,
            "positions",
            "Stage 2 visits {} points that are not the {} points of the reference set",
            a.len(),
            b.len()
        );
        let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
        let o = run_out(&r, 0, 0);
        let st = State::start(&cfg, rd.first.res.as_ref().unwrap());
        let pr = predict(&cfg, &rd, st, 0, batch_of(&cfg).unwrap());
        let exp = expected(&pr);
        let ev = evals(&r.rep, cfg.prob.tag);
        let d = match decompose(&ev, &rd, false, pr.fails) {
            Ok(d) => d,
            Err(e) => return fail("searches", e),
        };
        if !pr.fails && !ambiguous(&rd) {
            let got = by_pos(&d);
            let mut want = pr.searches.clone();
            want.sort();
            ensure!(
                got == want,
                "searches",
                "local searches from positions {got:?}, the filters allow {want:?}; objectives {:?}",
                rd.objs
            );
            batches_in_order(&d, &pr)?;
        }
        ensure!(
            same_res(&o.res, &exp),
            "result",
            "predicted / returned: {}",
            diff_res(&exp, &o.res)
        );
        if let (Res::Set(_), Some(ck)) = (&o.res, &cfg.ck) {
            let l = ctx.run(
                &sim_plain(),
                &r.rep.image,
                &single(Job::Ck(ck.clone(), vec![CkOp::LoadLatest]), 1),
            )?;
            if let Some(JobOut::Ck(Ok(v))) = l.job(0, 0) {
                if let CkOut::Loaded(Ok(s)) = &v[0] {
                    let e = &pr.state;
                    ensure!(
                        s.threshold == e.thr || (s.threshold.is_nan() && e.thr.is_nan()),
                        "threshold",
                        "the threshold ends at {:?}, by the rules at {:?}",
                        s.threshold,
                        e.thr
                    );
                    if !pr.stopped {
                        ensure!(
                            s.unchanged == e.unch,
                            "unchanged",
                            "{} rejections since the last change, by the rules {}",
                            s.unchanged,
                            e.unch
                        );
                    }
                    let (mut g, mut w) = (sols_bits(&s.filter), sols_bits(&e.filt));
                    g.sort();
                    w.sort();
                    ensure!(
                        g == w,
                        "distance-filter",
                        "the distance filter holds {} solutions, found so far are {}",
                        g.len(),
                        w.len()
                    );
                    ctx.probe("final state compared");
                }
            }
        }
        let visited: usize = pr.batches.iter().map(|b| b.1 - b.0).sum();
        ctx.hit =
            matches!(o.res, Res::Set(_)) && !pr.searches.is_empty() && visited > pr.searches.len();
        if pr.fails {
            ctx.probe("a local search fails");
        }
        if pr.stopped {
            ctx.probe("target met");
        }
        if pr.batches.iter().any(|b| b.2.len() > 1) {
            ctx.probe("several searches in a batch");
        }
        if pr.batches.len() > 1
            && pr.searches.len() < visited
            && pr
                .searches
                .iter()
                .any(|&s| rd.objs[s] > rd.first.res.as_ref().unwrap().f)
        {
            ctx.probe("search above the first threshold");
        }
        let _ = Image::default();
        Ok(())
    }
}
