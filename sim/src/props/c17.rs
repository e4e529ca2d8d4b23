//! Resuming with modified parameters continues the saved run.
use super::Prop;
use super::c07::{crash_fault, newest, same_state};
use super::c08::file_of;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::Status;
use simcore::fs::Image;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C17;

fn modify(r: &mut Rng, p: &Params) -> Params {
    let mut p = p.clone();
    for _ in 0..1 + r.below(3) {
        match r.below(10) {
            0..=2 => p.population += *r.pick(&[1usize, 2, 5, 10, 30]),
            3 => p.population = (p.population - r.below(p.population - 2)).max(4),
            4 => p.distance_factor = *r.pick(&[0.0, 0.05, 0.3, 0.75, 2.0]),
            5 => p.wait_cycle = r.below(6),
            6 => p.threshold_factor = *r.pick(&[0.01, 0.1, 0.5, 1.0, 5.0]),
            7 => p.solver = gen_solver(r),
            8 => {
                p.solver_iters = *r.pick(&[2u64, 5, 10, 20, 40]);
                p.tune = if r.chance(0.5) { r.u64() | 1 } else { 0 };
            }
            _ => p.seed = r.below(1000) as u64,
        }
    }
    p.iterations = match r.below(6) {
        0 => r.below(p.population + 1),
        1 => p.iterations.min(p.population),
        2 => p.population - r.below(4).min(p.population),
        _ => p.population,
    };
    p
}

/// the saved settings that are not parameters stay in force
fn in_force(c: &RunCfg, d: &CkData) -> RunCfg {
    let mut c = c.clone();
    c.target = d.target;
    c.exclude = d.exclude;
    c.tol = Some((d.abs_tol, d.rel_tol));
    c.batch = d.batch;
    c.parallel = d.parallel;
    c
}

/// without the faults that end the process
fn lasting(c: &RunCfg) -> RunCfg {
    let mut c = c.clone();
    c.prob.faults.retain(|f| matches!(f.when, When::Point(..)));
    c
}

impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "a checkpointed run (finished or killed on the way) is continued one to three times with changed iterations, population, factors, wait cycle, local solver or seed, from the latest checkpoint or from a named file, itself killed at times; the reference set has to keep its points and grow by admissible ones, and everything after the checkpoint has to follow the model of Stage 2 under the new parameters; a third of the cases extend only the iterations and compare with the run that asked for them at once; non-trivial: the continued run visits reference points beyond the saved ones"
    }
    fn make(&self, r: &mut Rng, i: u64) -> Case {
        let extend = i % 3 == 0;
        let mut base = gen_run(r);
        if r.chance(0.35) {
            base.parallel = false;
        }
        if r.chance(0.5) {
            base.params.wait_cycle = 1 + r.below(3);
            base.params.threshold_factor = *r.pick(&[0.2, 0.5, 1.0, 5.0]);
        }
        if r.chance(0.15) {
            base.target = Some(r.uniform(-3.0, 3.0));
        }
        base.ck = Some(CkCfg {
            dir: "/ck".into(),
            name: r.pick(&["r", "run.1", "opt_2"]).to_string(),
            freq: *r.pick(&[1, 1, 2, 3, 5, 50]),
            keep_all: r.chance(0.4),
            auto_resume: r.chance(0.5),
        });
        let b = batch_of(&base).unwrap();
        if extend {
            base.params.iterations = r.below(base.params.population / b + 1) * b;
        }
        let mut c = Case::new(if extend {
            "more iterations"
        } else {
            "modified parameters"
        });
        let (first, cpus) = vary(r, &base);
        let mut sim = sim_wild(r);
        let mut f = first.clone();
        if r.chance(0.4) {
            crash_fault(r, &mut sim, &mut f);
        }
        c.push(sim, single(Job::Optimize(f), cpus));
        let mut p = base.params.clone();
        for _ in 0..1 + r.below(3) {
            if extend {
                let rest = (p.population - p.iterations) / b;
                p.iterations = if r.chance(0.5) {
                    p.population
                } else {
                    p.iterations + r.below(rest + 1) * b
                };
            } else {
                p = modify(r, &p);
            }
            let mut k = base.clone();
            k.params = p.clone();
            let (mut k, cpus) = vary(r, &k);
            if r.chance(0.2) {
                k.observer = Some(gen_obs(r));
            }
            let mut sim = sim_wild(r);
            if r.chance(0.25) {
                crash_fault(r, &mut sim, &mut k);
            }
            c.push(sim, single(Job::Optimize(k), cpus));
            c.aux.push(r.chance(0.3) as u64);
        }
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() >= 2
            && c.aux.len() >= c.incs.len() - 1
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
            && (0..c.incs.len()).all(|i| {
                let (a, b) = (c.run_cfg(i), c.run_cfg(0));
                let q = |p: &Params| Params {
                    iterations: 0,
                    ..p.clone()
                };
                a.ck == b.ck
                    && a.batch == b.batch
                    && a.custom == b.custom
                    && a.parallel == b.parallel
                    && a.target == b.target
                    && a.exclude == b.exclude
                    && a.tol == b.tol
                    && a.prob.func == b.prob.func
                    && a.prob.lo == b.prob.lo
                    && a.prob.hi == b.prob.hi
                    && a.prob.cons == b.prob.cons
                    && a.params.iterations <= a.params.population
                    && (a.params.population >= 4
                        && (c.scenario != "more iterations"
                            || (q(&a.params) == q(&b.params)
                                && (i == 0
                                    || a.params.iterations >= c.run_cfg(i - 1).params.iterations)
                                && (a.params.iterations % batch_of(a).unwrap() == 0
                                    || a.params.iterations == a.params.population))))
            })
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let extend = c.scenario == "more iterations";
        let ck = c.run_cfg(0).ck.clone().unwrap();
        let mut img = c.image.clone();
        // Stage 1 or a local search fails: nothing to continue
        if reference(ctx, &lasting(c.run_cfg(0)))?.is_none() {
            return Ok(());
        }
        let mut saved: Option<CkData> = None;
        let mut whole: Option<(RunCfg, Res)> = None;
        for i in 0..c.incs.len() {
            let mut inc = c.incs[i].clone();
            let cfg = c.run_cfg(i).clone();
            if i > 0 {
                let mut j = cfg.clone();
                let path = match &saved {
                    Some(d) if c.aux[i - 1] == 1 => Some(file_of(&ck, d.iteration)),
                    _ => None,
                };
                j.resume = Some(Resume {
                    params: j.params.clone(),
                    path,
                });
                inc.threads[0][0] = Job::Optimize(j);
            }
            let r = ctx.raw(&c.sims[i], &img, &inc);
            let crashed = r.rep.status == Status::Crashed;
            if !crashed {
                finished(&r.rep)?;
            }
            let had = saved.clone();
            img = r.rep.image.clone();
            saved = match newest(ctx, &img, &ck)? {
                Ok(d) => Some(*d),
                Err(e) => {
                    ensure!(
                        had.is_none(),
                        "lost",
                        "after process {i} there is no loadable checkpoint any more: {e}"
                    );
                    None
                }
            };
            let (Some(d), true) = (&had, i > 0) else {
                if i > 0 && !crashed {
                    let o = run_out(&r, 0, 0);
                    ensure!(
                        o.resumed == Some(Ok(false)),
                        "resumed",
                        "nothing was saved, resuming says {:?}",
                        o.resumed
                    );
                }
                continue;
            };
            let now = saved.clone().unwrap();
            ensure!(
                now.iteration >= d.iteration,
                "lost",
                "process {i} found a checkpoint of {} iterations and leaves one of {}",
                d.iteration,
                now.iteration
            );
            // the reference set
            if now.iteration > d.iteration || !crashed {
                let grown = now.reference.len() >= d.reference.len()
                    && now
                        .reference
                        .iter()
                        .zip(&d.reference)
                        .all(|(a, b)| bits(a) == bits(b));
                ensure!(
                    grown,
                    "reference-set",
                    "saved points are no longer in place: {} saved, {} now",
                    d.reference.len(),
                    now.reference.len()
                );
                let p = cfg.params.population;
                if p > d.params.population {
                    let want = p.max(d.reference.len());
                    if let Res::Set(_) = if crashed {
                        Res::Set(vec![])
                    } else {
                        run_out(&r, 0, 0).res
                    } {
                        ensure!(
                            now.reference.len() == want,
                            "reference-set",
                            "{} reference points after growing the population from {} to {p} with {} saved points",
                            now.reference.len(),
                            d.params.population,
                            d.reference.len()
                        );
                    }
                    for x in &now.reference[d.reference.len().min(now.reference.len())..] {
                        ensure!(
                            cfg.prob.in_bounds(x) && cfg.prob.feasible(x),
                            "reference-set",
                            "the appended point {x:?} is not admissible"
                        );
                        if let Some(k) = now.reference.iter().filter(|y| bits(y) == bits(x)).nth(1)
                        {
                            return fail(
                                "reference-set",
                                format!("the appended point {k:?} is in the set twice"),
                            );
                        }
                    }
                    ctx.probe("population grown");
                } else {
                    ensure!(
                        now.reference.len() == d.reference.len(),
                        "reference-set",
                        "{} saved points, {} now, although the population did not grow",
                        d.reference.len(),
                        now.reference.len()
                    );
                }
            }
            if crashed {
                ctx.probe("continued run crashes");
                continue;
            }
            let o = run_out(&r, 0, 0);
            let f = in_force(&cfg, d);
            if let Some(Err(e)) = &o.resumed {
                // not enough admissible points to be found
                ensure!(
                    cfg.prob.cons > 0 && cfg.params.population > d.params.population,
                    "resumed",
                    "resuming fails: {e}"
                );
                continue;
            }
            ensure!(
                o.resumed == Some(Ok(true)),
                "resumed",
                "resuming says {:?}",
                o.resumed
            );
            if let (Res::Err(e), true) = (&o.res, cfg.params.population > d.params.population) {
                // the run saved nothing, so the grown set is not known
                ensure!(
                    e.contains("Local solver failed")
                        || !cfg.prob.faults.is_empty()
                        || (d.exclude && e.contains("No feasible solution")),
                    "result",
                    "process {i} ends with an error: {e}"
                );
                continue;
            }
            let order = now.reference.clone();
            let locals = traces(ctx, &lasting(&cfg).prob, &cfg.params, order.clone())?;
            let first = Trace {
                res: Err(String::new()),
                keys: vec![],
                objs: 0,
                grads: 0,
                counted: 0,
            };
            let rd = RefData {
                n1: 0,
                stage1: vec![],
                cand: vec![],
                objs: objs_of(&cfg.prob, &order),
                order,
                first,
                locals,
            };
            let st = State {
                thr: d.threshold,
                set: d.solutions.clone().unwrap_or_default(),
                filt: d.filter.clone(),
                unch: d.unchanged,
            };
            let before = st.set.clone();
            let pr = predict(&f, &rd, st, d.iteration, batch_of(&f).unwrap());
            let exp = expected(&pr);
            ensure!(
                same_res(&exp, &o.res),
                "result",
                "process {i}, continued from {} iterations with {:?}: predicted / returned: {}",
                d.iteration,
                cfg.params,
                diff_res(&exp, &o.res)
            );
            if let Res::Set(_) = &o.res {
                if pr.state.set.first().map(|s| s.bits()) == before.first().map(|s| s.bits()) {
                    ensure!(
                        pr.state.set.len() >= before.len(),
                        "kept",
                        "saved solutions are gone"
                    );
                }
                if !pr.stopped {
                    ensure!(
                        now.iteration == d.iteration.max(cfg.params.iterations.min(rd.order.len())),
                        "iterations",
                        "process {i} ends after {} iterations, asked for {}",
                        now.iteration,
                        cfg.params.iterations
                    );
                }
                let mut want = cfg.params.clone();
                let text = solver_text(&build_params(&want));
                want.solver = 255;
                want.solver_iters = 0;
                want.tune = 0;
                ensure!(
                    now.params == want && now.solver_text == text,
                    "parameters",
                    "the new parameters {want:?} {text}, saved are {:?} {}",
                    now.params,
                    now.solver_text
                );
                same_state(&now, &pr.state, pr.stopped)?;
            }
            if !ambiguous(&rd) && !pr.fails {
                let ev = evals(&r.rep, cfg.prob.tag);
                let dec = match decompose(&ev, &rd, true, false) {
                    Ok(d) => d,
                    Err(e) => {
                        return fail(
                            "searches",
                            format!(
                                "process {i}, continued from {} iterations: {e}",
                                d.iteration
                            ),
                        );
                    }
                };
                let mut want = pr.searches.clone();
                want.sort();
                ensure!(
                    by_pos(&dec) == want,
                    "searches",
                    "process {i}, continued from {} iterations: searches from {:?}, the filters allow {want:?}",
                    d.iteration,
                    by_pos(&dec)
                );
                if let Some(s) = dec.singles.iter().find(|s| s.0 < d.iteration) {
                    return fail(
                        "repeated",
                        format!(
                            "process {i}, continued from {} iterations, evaluates reference point {} again",
                            d.iteration, s.0
                        ),
                    );
                }
            }
            if now.iteration > d.iteration {
                ctx.hit = true;
            }
            if cfg.params.solver != c.run_cfg(i - 1).params.solver {
                ctx.probe("local solver changed");
            }
            if extend {
                if whole.as_ref().is_none_or(|w| w.0.params != cfg.params) {
                    let mut w = cfg.clone();
                    w.ck = None;
                    w.observer = None;
                    w.prob.faults.retain(|f| matches!(f.when, When::Point(..)));
                    w.prob.cost_base = 0;
                    w.prob.cost_spread = 0;
                    let x = ctx.run(
                        &sim_plain(),
                        &Image::default(),
                        &single(Job::Optimize(w.clone()), 1),
                    )?;
                    whole = Some((w, run_out(&x, 0, 0).res));
                }
                let w = &whole.as_ref().unwrap().1;
                ensure!(
                    same_res(w, &o.res),
                    "extended",
                    "{} iterations asked for from the start / reached by extending: {}",
                    cfg.params.iterations,
                    diff_res(w, &o.res)
                );
                ctx.probe("compared with all iterations at once");
            }
        }
        Ok(())
    }
}
