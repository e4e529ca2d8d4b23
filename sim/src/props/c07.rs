//! Crash and resume reproduces the uninterrupted run.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::fs::{FsFault, FsFaultKind, Image};
use simcore::rng::Rng;
use simcore::{SimCfg, Status};
use subject::problem::*;
use subject::*;

pub struct C07;

/// what the newest checkpoint holds
pub fn newest(
    ctx: &mut Ctx,
    img: &Image,
    ck: &CkCfg,
) -> Result<Result<Box<CkData>, String>, Violation> {
    let l = ctx.run(
        &sim_plain(),
        img,
        &single(Job::Ck(ck.clone(), vec![CkOp::LoadLatest]), 1),
    )?;
    match l.job(0, 0) {
        Some(JobOut::Ck(Ok(v))) => match &v[0] {
            CkOut::Loaded(r) => Ok(r.clone()),
            CkOut::Panic(m) => fail("load-panic", m.clone()),
            o => panic!("{o:?}"),
        },
        Some(JobOut::Ck(Err(e))) => Ok(Err(e.clone())),
        o => panic!("{o:?}"),
    }
}

/// a checkpoint against the model's state after the same number of iterations
pub fn same_state(d: &CkData, e: &State, stopped: bool) -> Verdict {
    let it = d.iteration;
    ensure!(
        d.threshold == e.thr || (d.threshold.is_nan() && e.thr.is_nan()),
        "state",
        "checkpoint after {it} iterations: threshold {:?}, should be {:?}",
        d.threshold,
        e.thr
    );
    let set = d.solutions.clone().unwrap_or_default();
    ensure!(
        sols_bits(&set) == sols_bits(&e.set),
        "state",
        "checkpoint after {it} iterations: solutions {}, should be {}",
        show(&set),
        show(&e.set)
    );
    let (mut g, mut w) = (sols_bits(&d.filter), sols_bits(&e.filt));
    g.sort();
    w.sort();
    ensure!(
        g == w,
        "state",
        "checkpoint after {it} iterations: {} solutions in the distance filter, should be {}",
        g.len(),
        w.len()
    );
    ensure!(
        stopped || d.unchanged == e.unch,
        "state",
        "checkpoint after {it} iterations: {} rejections in a row, should be {}",
        d.unchanged,
        e.unch
    );
    Ok(())
}

pub fn crash_fault(r: &mut Rng, sim: &mut SimCfg, cfg: &mut RunCfg) {
    match r.below(10) {
        0..=4 => {
            let kind = if r.chance(0.6) {
                FaultKind::Kill
            } else {
                FaultKind::Power(r.u64())
            };
            let call = if uses_gradient(cfg.params.solver) && r.chance(0.3) {
                GRAD
            } else {
                OBJ
            };
            let max = *r.pick(&[20usize, 60, 150, 400, 1000]);
            cfg.prob.faults.push(EvalFault {
                when: When::Call(call, r.below(max) as u64),
                kind,
            });
        }
        5..=8 => {
            let kind = if r.chance(0.5) {
                FsFaultKind::Kill(r.below(101) as u8)
            } else {
                FsFaultKind::Power(r.below(101) as u8, r.u64())
            };
            let max = *r.pick(&[10usize, 30, 80, 200]);
            sim.fs_faults.push(FsFault {
                at: r.below(max) as u64,
                kind,
            });
        }
        _ => {
            let mut o = cfg.observer.clone().unwrap_or(gen_obs(r));
            o.cb = 1;
            o.kill_at = Some(r.below(30) as u64);
            cfg.observer = Some(o);
        }
    }
}

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "a random checkpointed run is killed (process kill or power loss, in an evaluation, a file-system call or a callback) up to five times, each time restarted from what survived, then finishes and is started once more; every surviving checkpoint is compared with the model's state, every evaluation with the model's searches; non-trivial: a crash happened after a checkpoint with progress existed"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut base = gen_run(r);
        if r.chance(0.3) {
            base.parallel = false;
        }
        base.params.iterations = base.params.population - r.below(4);
        if r.chance(0.7) {
            base.params.wait_cycle = 1 + r.below(3);
            base.params.threshold_factor = *r.pick(&[0.2, 0.5, 1.0, 5.0]);
        }
        base.params.solver_iters = *r.pick(&[2u64, 5, 10, 20]);
        if r.chance(0.2) {
            base.target = Some(r.uniform(-3.0, 3.0));
        }
        base.ck = Some(CkCfg {
            dir: r.pick(&["/ck", "/a/b/ck", "rel"]).to_string(),
            name: r.pick(&["r", "run.1", "opt_2"]).to_string(),
            freq: *r.pick(&[1, 1, 2, 3, 5, 7, 10, 50]),
            keep_all: r.chance(0.4),
            auto_resume: true,
        });
        if r.chance(0.25) {
            base.observer = Some(gen_obs(r));
        }
        let mut c = Case::new(if base.parallel { "parallel" } else { "serial" });
        let (v, cpus) = vary(r, &base);
        let mut v = v;
        if base.parallel && r.chance(0.15) {
            // batch size left to the library: the same machine throughout
            v.batch = None;
            c.scenario = "automatic batch".into();
        }
        let n = 1 + r.below(5);
        for _ in 0..n {
            let mut sim = sim_wild(r);
            let mut k = v.clone();
            if v.batch.is_some() {
                gen_cost(r, &mut k.prob);
            }
            crash_fault(r, &mut sim, &mut k);
            let p = if v.batch.is_some() && r.chance(0.5) {
                1 + r.below(6) as u64
            } else {
                cpus
            };
            c.push(sim, single(Job::Optimize(k), p));
        }
        c.push(sim_wild(r), single(Job::Optimize(v.clone()), cpus));
        c.push(sim_wild(r), single(Job::Optimize(v), cpus));
        c
    }
    fn valid(&self, c: &Case) -> bool {
        let f = |i: usize| {
            c.run_cfg(i)
                .prob
                .faults
                .iter()
                .all(|f| matches!(f.when, When::Point(..)))
                && c.sims[i].fs_faults.is_empty()
        };
        c.incs.len() >= 3
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
            && f(c.incs.len() - 1)
            && f(c.incs.len() - 2)
            && (0..c.incs.len()).all(|i| {
                let (a, b) = (c.run_cfg(i), c.run_cfg(0));
                a.params == b.params
                    && a.batch == b.batch
                    && a.ck == b.ck
                    && a.custom == b.custom
                    && a.parallel == b.parallel
                    && (a.batch.is_some() || (c.incs[i].cpus == c.incs[0].cpus && a.pool == b.pool))
            })
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let last = c.incs.len() - 1;
        let cfg = c.run_cfg(last).clone();
        let ck = cfg.ck.clone().unwrap();
        let Some(rd) = reference(ctx, &cfg)? else {
            return Ok(());
        };
        // never interrupted
        let mut whole = cfg.clone();
        whole.ck = None;
        whole.observer = None;
        whole.prob.cost_base = 0;
        whole.prob.cost_spread = 0;
        let r = ctx.run(
            &sim_plain(),
            &Image::default(),
            &single(Job::Optimize(whole), c.incs[last].cpus),
        )?;
        let want = run_out(&r, 0, 0).res;
        let Res::Set(_) = want else { return Ok(()) };
        let exact = cfg.batch.is_some() || !cfg.parallel;
        let pr = predict(
            &cfg,
            &rd,
            State::start(&cfg, rd.first.res.as_ref().unwrap()),
            0,
            batch_of(&cfg).unwrap_or(1),
        );
        let at = |it: usize| -> Option<&State> {
            pr.batches
                .iter()
                .position(|b| b.1 == it)
                .map(|i| &pr.after[i])
        };
        let b = batch_of(&cfg).unwrap_or(8);
        let mut img = c.image.clone();
        let mut done: Option<usize> = None;
        for i in 0..=last {
            let r = ctx.raw(&c.sims[i], &img, &c.incs[i]);
            let crashed = r.rep.status == Status::Crashed;
            if !crashed {
                finished(&r.rep)?;
            }
            let ev = evals(&r.rep, cfg.prob.tag);
            let mut top = None;
            if !ambiguous(&rd) {
                let d = match decompose(&ev, &rd, done.is_some(), crashed) {
                    Ok(d) => d,
                    Err(e) => {
                        return fail(
                            "searches",
                            format!("process {i} (newest checkpoint: {done:?} iterations): {e}"),
                        );
                    }
                };
                let from = done.unwrap_or(0);
                let pos = by_pos(&d);
                if let Some(p) = pos.iter().find(|p| **p < from) {
                    return fail(
                        "repeated",
                        format!(
                            "process {i} searches again from position {p}, the newest checkpoint holds {from} iterations"
                        ),
                    );
                }
                if exact {
                    if let Some(p) = pos.iter().find(|p| !pr.searches.contains(p)) {
                        return fail(
                            "searches",
                            format!(
                                "process {i} searches from position {p}, an uninterrupted run does not"
                            ),
                        );
                    }
                    if !crashed {
                        let mut all: Vec<usize> =
                            pr.searches.iter().copied().filter(|p| *p >= from).collect();
                        all.sort();
                        ensure!(
                            pos == all,
                            "skipped",
                            "process {i} continues from {from} iterations with searches from {pos:?}, an uninterrupted run makes {all:?}"
                        );
                    }
                }
                top = pos.iter().copied().max();
            }
            if !crashed {
                let o = run_out(&r, 0, 0);
                ensure!(
                    same_res(&want, &o.res),
                    "result",
                    "process {i} (newest checkpoint: {done:?} iterations) / uninterrupted: {}",
                    diff_res(&want, &o.res)
                );
            }
            img = r.rep.image.clone();
            if i == last {
                break;
            }
            let now = match newest(ctx, &img, &ck)? {
                Ok(d) => {
                    if exact && d.iteration > 0 {
                        match at(d.iteration) {
                            Some(e) => same_state(&d, e, pr.stopped)?,
                            None => {
                                return fail(
                                    "state",
                                    format!(
                                        "a checkpoint after {} iterations, which is no end of a batch",
                                        d.iteration
                                    ),
                                );
                            }
                        }
                    }
                    Some(d.iteration)
                }
                Err(e) => {
                    ensure!(
                        done.is_none(),
                        "lost",
                        "after process {i} there is no loadable checkpoint any more: {e}"
                    );
                    None
                }
            };
            ensure!(
                now >= done,
                "lost",
                "after process {i} the newest checkpoint holds {now:?} iterations, before {done:?}"
            );
            if crashed {
                ctx.probe("crash");
                if now.unwrap_or(0) > 0 {
                    ctx.hit = true;
                    ctx.probe("crash after progress was saved");
                }
                if let Some(m) = top {
                    ensure!(
                        m < now.unwrap_or(0) + ck.freq.max(1) + b,
                        "redo",
                        "process {i} had searched from position {m}, the newest checkpoint holds {now:?} iterations (saved every {}, batches of {b})",
                        ck.freq
                    );
                    if m >= now.unwrap_or(0) {
                        ctx.probe("work redone");
                    }
                }
            }
            done = now;
        }
        Ok(())
    }
}
