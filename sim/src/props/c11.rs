//! Observer statistics are exact.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C11;

/// what an observer of Stage 2 has to show at a callback
#[derive(Debug)]
struct Want {
    iter: usize,
    calls: u64,
    improved: u64,
    evals: u64,
    set: usize,
    best: Option<Sol>,
    thr: f64,
    unch: usize,
    last: Option<Vec<f64>>,
}

struct Walk {
    calls: u64,
    improved: u64,
    evals: u64,
    last: Option<Vec<f64>>,
    state: State,
}

impl Walk {
    fn snap(&self, iter: usize) -> Want {
        Want {
            iter,
            calls: self.calls,
            improved: self.improved,
            evals: self.evals,
            set: self.state.set.len(),
            best: best(&self.state.set).cloned(),
            thr: self.state.thr,
            unch: self.state.unch,
            last: self.last.clone(),
        }
    }
    fn search(&mut self, c: &RunCfg, rd: &RefData, i: usize) {
        let before = self.state.set.clone();
        self.state.thr = rd.objs[i];
        let s = rd.locals[i].res.clone().unwrap();
        self.state.take(c, &s);
        self.calls += 1;
        self.evals += rd.locals[i].objs;
        if sols_bits(&before) != sols_bits(&self.state.set) {
            self.improved += 1;
            if !before.is_empty() {
                self.last = Some(s.x.clone());
            }
        }
    }
}

/// every iteration's end in the order in which it is reported
fn walk(
    c: &RunCfg,
    rd: &RefData,
    st: State,
    from: usize,
    batch: usize,
    resumed: bool,
) -> (Vec<Want>, Walk, bool) {
    let end = c.params.iterations.min(rd.order.len());
    let mut w = Walk {
        calls: 0,
        improved: 0,
        evals: 0,
        last: None,
        state: st,
    };
    let mut out = vec![];
    let mut i = from;
    let mut stop = target_met(c, &w.state.set);
    while i < end && !stop {
        let j = (i + batch).min(end);
        if resumed {
            w.evals += (j - i) as u64;
        }
        let acc: Vec<usize> = (i..j)
            .filter(|&k| w.state.admits(c, &rd.order[k], rd.objs[k]))
            .collect();
        for k in (i..j).filter(|k| !acc.contains(k)) {
            w.state.reject(c);
            out.push(w.snap(k));
        }
        for &k in &acc {
            if stop {
                // made along with the others, no longer looked at
                w.calls += 1;
                w.evals += rd.locals[k].objs;
                continue;
            }
            w.search(c, rd, k);
            out.push(w.snap(k));
            stop = target_met(c, &w.state.set);
        }
        i = j;
    }
    (out, w, stop)
}

fn same_point(a: &Option<Vec<f64>>, b: Option<&Vec<f64>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => bits(a) == bits(b),
        (None, None) => true,
        _ => false,
    }
}

const EPS: f64 = 2e-6;

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "one observed run (fresh or resumed, or Stage 1 alone; serial or in batches under a hostile schedule with slow evaluations, slow callbacks and wall-clock jumps); the observer as seen in every callback, at the end and a second later is compared with the recorded history and with the model of Stage 2; non-trivial: Stage 2 makes searches and the observer watches it, or Stage 1 evaluates trial points under the observer"
    }
    fn make(&self, r: &mut Rng, i: u64) -> Case {
        let mut base = gen_run(r);
        if r.chance(0.4) {
            base.parallel = false;
        }
        if r.chance(0.3) {
            base.params.wait_cycle = 1 + r.below(3);
        }
        if r.chance(0.4) {
            base.params.iterations = base.params.population - r.below(3);
        }
        if r.chance(0.35) {
            base.target = Some(r.uniform(-3.0, 3.0));
        }
        if r.chance(0.15) {
            let m = 3 + r.below(30) as u64;
            let kind = *r.pick(&[
                FaultKind::Inf,
                FaultKind::Nan,
                FaultKind::NegNan,
                FaultKind::Err,
            ]);
            let kind = if hz(base.params.solver) {
                FaultKind::Err
            } else {
                kind
            };
            base.prob.faults.push(EvalFault {
                when: When::Point(OBJ, m, r.below(m as usize) as u64),
                kind,
            });
        }
        let mut o = gen_obs(r);
        if r.chance(0.8) {
            o.cb = 1;
        }
        if r.chance(0.7) {
            o.mode = 0;
        }
        if r.chance(0.1) {
            o.freq = Some(0);
        }
        base.observer = Some(o);
        let scenario = match i % 8 {
            0 => "stage 1",
            1 | 2 => "resumed",
            _ => "fresh",
        };
        let mut c = Case::new(scenario);
        c.aux = vec![r.u64()];
        if scenario == "resumed" || r.chance(0.2) {
            base.ck = Some(CkCfg {
                dir: "/ck".into(),
                name: "r".into(),
                freq: 1 + r.below(5),
                keep_all: r.chance(0.3),
                auto_resume: true,
            });
        }
        let (v, cpus) = vary(r, &base);
        let j = if scenario == "stage 1" {
            Job::Stage1(v)
        } else {
            Job::Optimize(v)
        };
        c.push(sim_wild(r), single(j, cpus));
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 1
            && c.aux.len() == 1
            && c.incs[0].threads.len() == 1
            && c.incs[0].threads[0].len() == 1
            && {
                let k = cfg_of(&c.incs[0].threads[0][0]);
                k.observer.is_some()
                    && (c.scenario != "resumed" || k.ck.is_some())
                    && (c.scenario == "stage 1")
                        == matches!(c.incs[0].threads[0][0], Job::Stage1(_))
            }
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let mut cfg = cfg_of(&c.incs[0].threads[0][0]).clone();
        let o = cfg.observer.clone().unwrap();
        let tag = cfg.prob.tag;
        let see1 = o.s1 && o.mode != 2;
        let see2 = o.s2 && o.mode != 1;
        if c.scenario == "stage 1" {
            let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
            let Some(JobOut::Stage1 { res, panic, obs }) = r.job(0, 0) else {
                panic!("stage 1")
            };
            ensure!(panic.is_none(), "panic", "{panic:?}");
            let (Ok((kept, _)), true) = (res, see1) else {
                return Ok(());
            };
            let n = evals(&r.rep, tag).len() as u64;
            let s = obs.as_ref().and_then(|o| o.s1_final.clone());
            let Some(s) = s else {
                return fail("missing", "no state of Stage 1");
            };
            ensure!(
                s.evals == n,
                "evaluations-1",
                "{} evaluations reported for Stage 1, {n} made",
                s.evals
            );
            ensure!(
                s.refsize == kept.len() as u64,
                "reference-size",
                "{} points reported, {} kept",
                s.refsize,
                kept.len()
            );
            ctx.hit = n > cfg.params.population as u64;
            return Ok(());
        }
        let Some(rd) = reference(ctx, &cfg)? else {
            return Ok(());
        };
        if ambiguous(&rd) {
            return Ok(());
        }
        let b = batch_of(&cfg).unwrap();
        if cfg.target.is_some() && c.aux[0] % 4 > 0 {
            // a target that some search meets
            let mut free = cfg.clone();
            free.target = None;
            let p = predict(
                &free,
                &rd,
                State::start(&free, rd.first.res.as_ref().unwrap()),
                0,
                b,
            );
            if p.fails {
                return Ok(());
            }
            cfg.target = Some(super::c05::pick_target(
                &[c.aux[0] >> 8, c.aux[0] >> 40],
                &rd,
                &p.searches,
            ));
        }
        let mut st = State::start(&cfg, rd.first.res.as_ref().unwrap());
        let met1 = target_met(&cfg, &st.set);
        let mut image = c.image.clone();
        let mut from = 0;
        let resumed = c.scenario == "resumed";
        if resumed {
            let mut part = cfg.clone();
            part.observer = None;
            from = ((c.aux[0] % (cfg.params.iterations / b).max(1) as u64) as usize) * b;
            part.params.iterations = from;
            part.prob.cost_base = 0;
            part.prob.cost_spread = 0;
            let r = ctx.run(
                &sim_plain(),
                &image,
                &single(Job::Optimize(part.clone()), 1),
            )?;
            let Res::Set(_) = run_out(&r, 0, 0).res else {
                return Ok(());
            };
            let p = predict(&part, &rd, st, 0, b);
            if p.fails || p.stopped {
                return Ok(());
            }
            st = p.state;
            image = r.rep.image.clone();
        }
        if predict(&cfg, &rd, st.clone(), from, b).fails {
            return Ok(());
        }
        let first_state = st.clone();
        let (want, end, _) = walk(&cfg, &rd, st, from, b, resumed);
        let mut inc = c.incs[0].clone();
        inc.threads[0][0] = Job::Optimize(cfg.clone());
        if resumed {
            let mut v = cfg.clone();
            v.resume = Some(Resume {
                params: cfg.params.clone(),
                path: None,
            });
            inc.threads[0][0] = Job::Optimize(v);
        }
        let r = ctx.run(&c.sims[0], &image, &inc)?;
        let out = run_out(&r, 0, 0);
        let Res::Set(sols) = &out.res else {
            return Ok(());
        };
        let ev = evals(&r.rep, tag);
        let d = match decompose(&ev, &rd, resumed, false) {
            Ok(d) => d,
            Err(e) => return fail("searches", e),
        };
        let objs = |v: &[&simcore::Event]| v.iter().filter(|e| e.kind == OBJ).count() as u64;
        let n1 = if resumed {
            0
        } else {
            rd.n1 + rd.first.keys.len()
        };
        let Some(obs) = &out.obs else {
            return fail("missing", "the observer is gone");
        };
        let Some(later) = &out.obs_later else {
            return fail("missing", "the observer is gone");
        };
        let cbs: Vec<(&simcore::Event, ObsSnap)> = r
            .rep
            .events
            .iter()
            .filter(|e| e.tag == tag && e.kind == CB)
            .map(|e| (e, decode_snap(&e.x)))
            .collect();
        let t_run = marks(&r.rep, tag, "run")[0].t;
        let t_end = marks(&r.rep, tag, "end")[0].t;
        let cost = if o.cb == 1 { o.cost_us * 1000 } else { 0 };
        let sec = |ns: u64| ns as f64 / 1e9;
        // threads that stall do so anywhere, then only the upper bounds are known
        let sure = c.sims[0].stall == 0;
        let near = |t: f64, exact: f64| {
            t - exact < EPS + 1e-9 * exact && (!sure || exact - t < EPS + 1e-9 * exact)
        };

        // ---- Stage 1
        let cb1 = if resumed {
            0
        } else {
            3 + if see1 { 3 } else { 0 }
        };
        let started2 = resumed || !met1;
        if o.cb == 1 {
            ensure!(
                cbs.len() >= cb1,
                "callbacks-1",
                "{} callbacks, Stage 1 alone makes {cb1}",
                cbs.len()
            );
            if see1 {
                let names = [
                    "initialization_complete",
                    "diversification_complete",
                    "intensification_complete",
                    "scatter_search_complete",
                    "local_optimization_complete",
                    "stage1_complete",
                ];
                let mut low = f64::INFINITY;
                for (k, (e, s)) in cbs[..cb1].iter().enumerate() {
                    let Some(s) = &s.s1 else {
                        return fail("callbacks-1", format!("callback {k} shows no Stage 1"));
                    };
                    ensure!(
                        s.substage == names[k],
                        "callbacks-1",
                        "callback {k} is in {}, should be {}",
                        s.substage,
                        names[k]
                    );
                    let so_far =
                        ev.iter().filter(|x| x.seq < e.seq && x.kind == OBJ).count() as u64;
                    if k > 0 {
                        ensure!(
                            s.evals == so_far,
                            "evaluations-1",
                            "{}: {} evaluations reported, {so_far} made",
                            names[k],
                            s.evals
                        );
                    }
                    if k >= 2 {
                        ensure!(
                            s.refsize == rd.order.len() as u64,
                            "reference-size",
                            "{}: {} points reported, {} kept",
                            names[k],
                            s.refsize,
                            rd.order.len()
                        );
                    }
                    if k >= 3 {
                        low = rd.stage1.iter().map(|p| p.f).fold(low, f64::min);
                        if k >= 4 && !rd.first.res.as_ref().unwrap().f.is_nan() {
                            low = low.min(rd.first.res.as_ref().unwrap().f);
                        }
                        ensure!(
                            s.best == low,
                            "best-1",
                            "{}: best {:?} reported, seen {low:?}",
                            names[k],
                            s.best
                        );
                    }
                    let t = s.time;
                    let exact = sec(e.t - t_run);
                    // the last one is made after the end of the stage
                    if k < 5 {
                        ensure!(
                            t.is_some_and(|t| near(t, exact)),
                            "time-1",
                            "{}: {t:?} s reported, {exact} s passed",
                            names[k]
                        );
                    }
                }
                ctx.probe("stage 1 callbacks");
            }
        }
        if see1 && !resumed {
            let Some(s) = &obs.s1_final else {
                return fail("missing", "no final state of Stage 1");
            };
            ensure!(
                obs.s1.is_none(),
                "stage1-left",
                "Stage 1 is still reported as running"
            );
            let n = objs(&ev[..n1]);
            ensure!(
                s.evals == n,
                "evaluations-1",
                "{} evaluations reported for Stage 1, {n} made",
                s.evals
            );
            ensure!(
                s.refsize == rd.order.len() as u64,
                "reference-size",
                "{} points reported, {} kept",
                s.refsize,
                rd.order.len()
            );
            let f = rd.first.res.as_ref().unwrap();
            let mut low = rd.stage1.iter().map(|p| p.f).fold(f64::INFINITY, f64::min);
            let mut at: Vec<&Vec<f64>> = rd
                .stage1
                .iter()
                .filter(|p| p.f == low)
                .map(|p| &p.x)
                .collect();
            if f.f < low {
                low = f.f;
                at = vec![&f.x];
            }
            ensure!(
                s.best == low,
                "best-1",
                "best {:?} reported for Stage 1, seen {low:?}",
                s.best
            );
            ensure!(
                s.best_point
                    .as_ref()
                    .is_some_and(|p| at.iter().any(|q| bits(p) == bits(q))),
                "best-1",
                "best point {:?} reported for Stage 1, seen {at:?}",
                s.best_point
            );
            // between its last evaluation and the next thing that happened
            let mut lo = ev[..n1].iter().map(|e| e.t_end).max().unwrap_or(t_run);
            if o.cb == 1 {
                lo = lo.max(cbs[cb1 - 2].0.t + cost);
            }
            let mut hi = t_end;
            if o.cb == 1 {
                hi = hi.min(cbs[cb1 - 1].0.t);
            }
            if let Some(e) = ev.get(n1) {
                hi = hi.min(e.t);
            }
            let Some(t) = s.time else {
                return fail("time-1", "no time reported for Stage 1");
            };
            ensure!(
                (!sure || t >= sec(lo - t_run) - EPS) && t <= sec(hi - t_run) + EPS,
                "time-1",
                "{t} s reported for Stage 1, it took between {} and {} s",
                sec(lo - t_run),
                sec(hi - t_run)
            );
            ensure!(
                later.s1_final == obs.s1_final,
                "later",
                "a second later Stage 1 shows {:?} instead of {:?}",
                later.s1_final,
                obs.s1_final
            );
        }
        if see1 && resumed {
            // Stage 1 did not take place
            let Some(s) = &obs.s1_final else {
                return fail("missing", "no final state of Stage 1");
            };
            ensure!(
                s.evals == 0 && s.trials == 0,
                "evaluations-1",
                "{} evaluations reported for a Stage 1 that did not take place",
                s.evals
            );
            ensure!(
                s.time.is_none_or(|t| t == 0.0),
                "time-1",
                "{:?} s reported for a Stage 1 that did not take place",
                s.time
            );
            ensure!(
                obs.s1.is_none(),
                "stage1-left",
                "Stage 1 is reported as running in a resumed run"
            );
        }

        // ---- Stage 2
        ensure!(
            obs.s2.is_some() == (o.s2 && started2),
            "stage2-shown",
            "state of Stage 2: {:?}, started: {started2}",
            obs.s2.is_some()
        );
        if see2 && started2 {
            let s = obs.s2.clone().unwrap();
            let n = objs(&ev[n1..]);
            ensure!(
                s.evals == n,
                "evaluations-2",
                "{} evaluations reported for Stage 2, {n} made",
                s.evals
            );
            ensure!(
                s.calls == d.searches.len() as u64,
                "calls",
                "{} local searches reported, {} made",
                s.calls,
                d.searches.len()
            );
            ensure!(
                s.set == sols.len() as u64,
                "set-size",
                "{} solutions reported, {} returned",
                s.set,
                sols.len()
            );
            ensure!(
                s.improved == end.improved,
                "improved",
                "{} improving local searches reported, {} improved the set",
                s.improved,
                end.improved
            );
            let bs = out.best.as_ref().unwrap();
            ensure!(
                s.best == bs.f && same_point(&s.best_point, Some(&bs.x)),
                "best-2",
                "best {:?} at {:?} reported, {bs:?} returned",
                s.best,
                s.best_point
            );
            let Some(t) = s.time else {
                return fail("time-2", "no time reported for Stage 2");
            };
            // begin: after Stage 1 and its callbacks, before anything of Stage 2
            let mut a = if resumed {
                t_run
            } else {
                ev[..n1].iter().map(|e| e.t_end).max().unwrap_or(t_run)
            };
            let mut first = t_end;
            let mut lo_end = a;
            if o.cb == 1 {
                if cb1 > 0 {
                    a = a.max(cbs[cb1 - 1].0.t + cost);
                }
                if let Some(x) = cbs.get(cb1) {
                    first = first.min(x.0.t);
                    lo_end = lo_end.max(cbs.last().unwrap().0.t + cost);
                }
            }
            for e in &ev[n1..] {
                first = first.min(e.t);
                lo_end = lo_end.max(e.t_end);
            }
            let lo = lo_end.saturating_sub(first);
            ensure!(
                (!sure || t >= sec(lo) - EPS) && t <= sec(t_end - a) + EPS,
                "time-2",
                "{t} s reported for Stage 2, it took between {} and {} s",
                sec(lo),
                sec(t_end - a)
            );
            ensure!(
                later.s2 == obs.s2
                    || later
                        .s2
                        .as_ref()
                        .is_some_and(|l| l.threshold.is_nan() || l.best.is_nan()),
                "later",
                "a second later Stage 2 shows {:?} instead of {:?}",
                later.s2,
                obs.s2
            );
            ctx.hit = !d.searches.is_empty();
        }
        // ---- callbacks of Stage 2
        if o.cb == 1 {
            let f = o.freq.unwrap_or(1);
            let due: Vec<&Want> = if !started2 || f == 0 {
                vec![]
            } else {
                want.iter().filter(|w| w.iter % f == 0).collect()
            };
            let got = &cbs[cb1..];
            if see2 {
                let g: Vec<u64> = got
                    .iter()
                    .map(|x| x.1.s2.as_ref().map_or(u64::MAX, |s| s.iteration))
                    .collect();
                let w: Vec<u64> = due.iter().map(|w| w.iter as u64).collect();
                ensure!(
                    g == w,
                    "callbacks",
                    "callbacks in iterations {g:?}, should be in {w:?} (frequency {f})"
                );
                for ((_, s), w) in got.iter().zip(&due) {
                    let s = s.s2.as_ref().unwrap();
                    let i = w.iter;
                    ensure!(
                        s.calls == w.calls,
                        "callback-calls",
                        "iteration {i}: {} local searches reported, {} made",
                        s.calls,
                        w.calls
                    );
                    ensure!(
                        s.improved == w.improved,
                        "callback-improved",
                        "iteration {i}: {} improving local searches reported, should be {}",
                        s.improved,
                        w.improved
                    );
                    ensure!(
                        s.evals == w.evals,
                        "callback-evaluations",
                        "iteration {i}: {} evaluations reported, {} made",
                        s.evals,
                        w.evals
                    );
                    ensure!(
                        s.set == w.set as u64,
                        "callback-set",
                        "iteration {i}: {} solutions reported, should be {}",
                        s.set,
                        w.set
                    );
                    let (bf, bx) = w
                        .best
                        .as_ref()
                        .map_or((f64::NAN, None), |b| (b.f, Some(&b.x)));
                    ensure!(
                        s.best.to_bits() == bf.to_bits() && same_point(&s.best_point, bx),
                        "callback-best",
                        "iteration {i}: best {:?} at {:?} reported, should be {bf:?} at {bx:?}",
                        s.best,
                        s.best_point
                    );
                    ensure!(
                        s.threshold == w.thr || (s.threshold.is_nan() && w.thr.is_nan()),
                        "callback-threshold",
                        "iteration {i}: threshold {:?} reported, should be {:?}",
                        s.threshold,
                        w.thr
                    );
                    ensure!(
                        s.unchanged == w.unch as u64,
                        "callback-unchanged",
                        "iteration {i}: {} rejections in a row reported, should be {}",
                        s.unchanged,
                        w.unch
                    );
                    ensure!(
                        same_point(&s.last_added, w.last.as_ref()),
                        "callback-last",
                        "iteration {i}: last added {:?} reported, should be {:?}",
                        s.last_added,
                        w.last
                    );
                }
                if !due.is_empty() {
                    ctx.probe("stage 2 callbacks compared");
                }
            } else {
                ensure!(
                    got.len() == due.len(),
                    "callbacks",
                    "{} callbacks in Stage 2, should be {} (frequency {f})",
                    got.len(),
                    due.len()
                );
            }
            for (e, s) in &cbs {
                let exact = sec(e.t - t_run);
                ensure!(
                    s.elapsed.is_some() == o.timing,
                    "elapsed",
                    "elapsed time {:?} with timing {}",
                    s.elapsed,
                    o.timing
                );
                if let Some(t) = s.elapsed {
                    ensure!(
                        near(t, exact),
                        "elapsed",
                        "{t} s reported, {exact} s passed"
                    );
                }
            }
        }
        let _ = first_state;
        if resumed {
            ctx.probe("resumed");
        }
        if cfg.target.is_some() && target_met(&cfg, sols) {
            ctx.probe("target met");
        }
        Ok(())
    }
}
