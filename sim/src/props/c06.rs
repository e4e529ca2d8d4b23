//! The time limit is respected and never cuts a run short.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::SimCfg;
use simcore::rng::Rng;
use subject::*;

pub struct C06;

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "a random run whose evaluations take simulated time, with a Stage 2 limit drawn between zero and more than its duration, under hostile schedules and wall-clock jumps, sometimes resumed from a checkpoint; the recorded start times of all searches are compared with the limit and with the model of an unlimited run; non-trivial: Stage 2 would make at least two batches with searches"
    }
    fn make(&self, r: &mut Rng, i: u64) -> Case {
        let resumed = i % 4 == 3;
        let mut base = gen_run(r);
        if r.chance(0.4) {
            base.parallel = false;
        }
        base.params.iterations = base.params.population - r.below(3);
        base.params.wait_cycle = 1 + r.below(2);
        base.params.threshold_factor = *r.pick(&[0.5, 1.0, 5.0]);
        base.params.distance_factor = *r.pick(&[0.0, 0.0, 0.05, 0.3]);
        let mut c = Case::new(if resumed { "resumed" } else { "fresh" });
        let (mut v, cpus) = vary(r, &base);
        if v.prob.cost_base == 0 && v.prob.cost_spread < 100 {
            v.prob.cost_base = *r.pick(&[1u64, 20, 1000]);
            v.prob.cost_spread = *r.pick(&[0u64, 3, 1000]);
        }
        if resumed {
            v.ck = Some(CkCfg {
                dir: "/ck".into(),
                name: "r".into(),
                freq: 1,
                keep_all: false,
                auto_resume: true,
            });
        }
        let sim = |r: &mut Rng| SimCfg {
            stall: 0,
            wall_jumps: if r.chance(0.6) {
                (0..1 + r.below(5))
                    .map(|_| {
                        (
                            r.below(80) as u64,
                            *r.pick(&[-86_400_000i64, -3600, -1, 1, 60, 3600, 86_400_000]),
                        )
                    })
                    .collect()
            } else {
                vec![]
            },
            ..sim_wild(r)
        };
        c.aux = vec![r.u64(), r.u64()];
        c.push(sim(r), single(Job::Optimize(v.clone()), cpus));
        c.push(sim(r), single(Job::Optimize(v), cpus));
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 2
            && c.aux.len() == 2
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let cfg = c.run_cfg(0).clone();
        let Some(rd) = reference(ctx, &cfg)? else {
            return Ok(());
        };
        if ambiguous(&rd) {
            return Ok(());
        }
        let b = batch_of(&cfg).unwrap();
        let mut st = State::start(&cfg, rd.first.res.as_ref().unwrap());
        let mut from = 0;
        let mut image = c.image.clone();
        let resumed = cfg.ck.is_some();
        if resumed {
            // some iterations first, then the limited run continues
            let mut part = cfg.clone();
            let n = cfg.params.iterations as u64;
            from = ((c.aux[1] % (n / b as u64).max(1)) as usize) * b;
            part.params.iterations = from;
            let r = ctx.run(
                &sim_plain(),
                &image,
                &single(Job::Optimize(part.clone()), 1),
            )?;
            let Res::Set(_) = run_out(&r, 0, 0).res else {
                return Ok(());
            };
            image = r.rep.image.clone();
            let p = predict(&part, &rd, st, 0, b);
            if p.fails {
                return Ok(());
            }
            st = p.state;
        }
        let pr = predict(&cfg, &rd, st.clone(), from, b);
        if pr.fails || pr.batches.is_empty() {
            return Ok(());
        }
        // how long Stage 2 takes without a limit
        let go = |ctx: &mut Ctx, limit: Option<f64>, k: usize| {
            let mut v = cfg.clone();
            v.max_time = limit;
            let mut inc = c.incs[k].clone();
            if resumed {
                v.resume = Some(Resume {
                    params: cfg.params.clone(),
                    path: None,
                });
            }
            inc.threads[0][0] = Job::Optimize(v);
            ctx.run(&c.sims[k], &image, &inc)
        };
        let r0 = go(ctx, None, 1)?;
        let total = match (
            evals(&r0.rep, cfg.prob.tag).last(),
            marks(&r0.rep, cfg.prob.tag, "run").first(),
        ) {
            (Some(_), Some(m)) => {
                evals(&r0.rep, cfg.prob.tag)
                    .iter()
                    .map(|e| e.t_end)
                    .max()
                    .unwrap()
                    - m.t
            }
            _ => return Ok(()),
        };
        let d0 = match decompose(&evals(&r0.rep, cfg.prob.tag), &rd, resumed, false) {
            Ok(d) => d,
            Err(e) => return fail("searches", e),
        };
        let begin0 = if resumed {
            marks(&r0.rep, cfg.prob.tag, "run")[0].t
        } else {
            d0.first_end
        };
        let stage2 = total - (begin0 - marks(&r0.rep, cfg.prob.tag, "run")[0].t);
        // half a microsecond off the grid: no ties
        let us = match c.aux[0] % 8 {
            0 => 0,
            1 => stage2 / 1000,
            2 => stage2 / 1000 + 1_000_000_000,
            _ => (c.aux[0] >> 8) % (stage2 / 1000 + 1),
        };
        let limit = us as f64 / 1e6 + 0.5e-6;
        let limit_ns = us * 1000 + 500;
        let r = go(ctx, Some(limit), 0)?;
        let o = run_out(&r, 0, 0);
        let d = match decompose(&evals(&r.rep, cfg.prob.tag), &rd, resumed, false) {
            Ok(d) => d,
            Err(e) => return fail("searches", e),
        };
        let begin = if resumed {
            marks(&r.rep, cfg.prob.tag, "run")[0].t
        } else {
            d.first_end
        };
        let mut clock = begin;
        let mut stopped: Option<usize> = None;
        let mut done = vec![];
        let mut active = 0;
        let mut cut = false;
        for (x, y, acc) in &pr.batches {
            let s: Vec<&Search> = d
                .searches
                .iter()
                .filter(|s| s.pos >= *x && s.pos < *y)
                .collect();
            let g: Vec<_> = d.singles.iter().filter(|s| s.0 >= *x && s.0 < *y).collect();
            let expect_any = !acc.is_empty() || resumed;
            if !expect_any {
                continue;
            }
            active += 1;
            let elapsed = clock - begin;
            if s.is_empty() && g.is_empty() {
                if stopped.is_none() {
                    ensure!(
                        elapsed > limit_ns,
                        "cut-short",
                        "the batch from position {x} is not started although only {} us of {us}.5 us have passed",
                        elapsed / 1000
                    );
                    stopped = Some(*x);
                    cut = true;
                }
                continue;
            }
            if let Some(p) = stopped {
                return fail(
                    "order",
                    format!("the batch from position {x} is started, the one from {p} was not"),
                );
            }
            ensure!(
                elapsed <= limit_ns,
                "late",
                "the batch from position {x} is started {} us after the beginning of Stage 2, the limit is {us}.5 us",
                elapsed / 1000
            );
            let mut pos: Vec<usize> = s.iter().map(|s| s.pos).collect();
            pos.sort();
            ensure!(
                pos == *acc,
                "batch",
                "in the batch {x}..{y} searches start from {pos:?}, without a limit from {acc:?}"
            );
            clock = clock.max(
                s.iter()
                    .map(|s| s.t1)
                    .chain(g.iter().map(|g| g.3))
                    .max()
                    .unwrap(),
            );
            done.extend(pos);
        }
        let mut set = st.set.clone();
        for &p in &done {
            offer(&cfg, &mut set, rd.locals[p].res.as_ref().unwrap());
        }
        match &o.res {
            Res::Set(s) => ensure!(
                sols_bits(s) == sols_bits(&set),
                "result",
                "expected / returned: {}",
                diff(&set, s)
            ),
            other => ensure!(
                set.is_empty(),
                "outcome",
                "{} instead of {}",
                show_res(other),
                show(&set)
            ),
        }
        ctx.hit = active >= 2;
        ctx.probe(if cut {
            "stopped by the limit"
        } else {
            "finished within the limit"
        });
        if cut && !done.is_empty() {
            ctx.probe("stopped halfway");
        }
        Ok(())
    }
}
