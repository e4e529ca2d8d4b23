//! Only admissible points are sampled, and exclusion of out-of-bounds is honoured.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C04;

fn admissible(p: &ProblemCfg, x: &[f64], what: &str) -> Verdict {
    ensure!(
        p.in_bounds(x),
        "bounds",
        "{what} {x:?} is outside of the bounds {:?} {:?}",
        p.lo,
        p.hi
    );
    ensure!(
        p.feasible(x),
        "constraints",
        "{what} {x:?} violates a constraint"
    );
    Ok(())
}

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "constrained problems and user points (inadmissible ones too) through Stage 1 and whole runs, problems whose solutions lie outside the bounds with exclusion on, targets that only excluded solutions meet, and resumed runs with growing populations, serial and under hostile schedules; non-trivial: Stage 1 completed under constraints, an out-of-bounds solution was excluded, or a population was expanded"
    }
    fn make(&self, r: &mut Rng, i: u64) -> Case {
        let mut base = gen_run(r);
        if r.chance(0.3) {
            base.parallel = false;
        }
        match i % 3 {
            0 => {
                let mut c = Case::new("sampling");
                base.prob.cons = 1 + r.below(4) as u8;
                base.params.solver = *r.pick(&[0, 0, 1, 2]);
                base.params.population = *r.pick(&[4, 8, 12, 20, 25, 40, 100]);
                base.params.iterations = base.params.iterations.min(4).min(base.params.population);
                let n = *r.pick(&[0, 0, 3, 20, 99, 100, 120]);
                base.custom = gen_custom(r, &base.prob, n);
                let dim = base.prob.lo.len();
                if n > 0 && r.chance(0.5) {
                    // points that do not belong
                    for _ in 0..1 + r.below(3) {
                        let k = r.below(base.custom.len());
                        let j = r.below(dim);
                        base.custom[k][j] = *r.pick(&[
                            f64::NAN,
                            f64::INFINITY,
                            f64::NEG_INFINITY,
                            base.prob.hi[j] + 1e-9,
                            base.prob.lo[j] - 1.0,
                        ]);
                    }
                }
                let (v, cpus) = vary(r, &base);
                c.push(sim_wild(r), single(Job::Optimize(v.clone()), cpus));
                let mut s = v;
                let p = s.prob.clone();
                s.custom.retain(|x| p.in_bounds(x));
                s.prob.tag = 5;
                c.push(sim_wild(r), single(Job::Stage1(s), cpus));
                c
            }
            1 => {
                let mut c = Case::new("exclusion");
                base.exclude = true;
                base.prob.func = *r.pick(&[
                    Func::FarSphere,
                    Func::FarSphere,
                    Func::Rosenbrock,
                    Func::SixHump,
                    Func::Styblinski,
                    Func::Sphere,
                    Func::Waves,
                ]);
                base.params.solver = *r.pick(&[0, 1, 1, 1, 2, 4, 5, 6]);
                if r.chance(0.5) {
                    base.params.wait_cycle = 1 + r.below(2);
                    base.params.threshold_factor = *r.pick(&[0.5, 1.0, 5.0]);
                }
                base.ck = Some(CkCfg {
                    dir: "/ck".into(),
                    name: "r".into(),
                    freq: 1 + r.below(4),
                    keep_all: true,
                    auto_resume: true,
                });
                let (v, cpus) = vary(r, &base);
                c.aux = vec![r.u64()];
                c.push(sim_wild(r), single(Job::Optimize(v.clone()), cpus));
                let mut t = v;
                t.ck = None;
                c.push(sim_wild(r), single(Job::Optimize(t), cpus));
                c
            }
            _ => {
                let mut c = Case::new("expansion");
                base.prob.cons = r.below(4) as u8;
                if base.prob.cons > 0 {
                    base.params.solver = 0;
                }
                base.exclude = r.chance(0.5);
                if base.exclude && r.chance(0.5) {
                    base.prob.func = Func::FarSphere;
                }
                base.ck = Some(CkCfg {
                    dir: "/ck".into(),
                    name: "r".into(),
                    freq: 1 + r.below(4),
                    keep_all: r.chance(0.3),
                    auto_resume: r.chance(0.5),
                });
                let mut p2 = base.params.clone();
                p2.population += r.below(25);
                p2.iterations = (p2.iterations + r.below(10)).min(p2.population);
                let (v, cpus) = vary(r, &base);
                c.push(sim_wild(r), single(Job::Optimize(v.clone()), cpus));
                let mut w = v;
                w.resume = Some(Resume {
                    params: p2,
                    path: None,
                });
                w.prob.tag = 7;
                c.push(sim_wild(r), single(Job::Optimize(w), cpus));
                c
            }
        }
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 2
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let cfg = c.run_cfg(0).clone();
        let p = &cfg.prob;
        match c.scenario.as_str() {
            "sampling" => {
                let r = ctx.run(&c.sims[1], &c.image, &c.incs[1])?;
                let Some(JobOut::Stage1 { res, panic, .. }) = r.job(0, 0) else {
                    panic!("stage 1")
                };
                ensure!(panic.is_none(), "panic", "{panic:?}");
                for e in evals(&r.rep, 5) {
                    admissible(p, &e.x, "Stage 1 evaluates")?;
                }
                let n1 = evals(&r.rep, 5).len();
                if let Ok((v, b)) = res {
                    for s in v {
                        admissible(p, &s.x, "the reference set contains")?;
                    }
                    admissible(p, b, "the candidate")?;
                    ctx.hit = true;
                    if cfg.custom.iter().any(|x| p.in_bounds(x) && !p.feasible(x)) {
                        ctx.probe("infeasible user point");
                    }
                } else {
                    ctx.probe("no feasible points");
                }
                // whole run: points given by the user are checked when they are handed over
                let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
                let o = run_out(&r, 0, 0);
                let ev = evals(&r.rep, p.tag);
                if cfg.custom.iter().any(|x| !p.in_bounds(x)) {
                    for e in &ev {
                        admissible(p, &e.x, "with inadmissible user points a run evaluates")?;
                    }
                    ctx.probe("user point outside of the bounds");
                } else if let (Ok(_), Res::Set(_)) = (res, &o.res) {
                    for e in &ev[..n1.min(ev.len())] {
                        admissible(p, &e.x, "Stage 1 of a run evaluates")?;
                    }
                }
            }
            "exclusion" => {
                let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
                let o = run_out(&r, 0, 0);
                if let Res::Set(v) = &o.res {
                    for s in v {
                        ensure!(
                            p.in_bounds(&s.x),
                            "returned",
                            "the solution {s:?} is outside of the bounds {:?} {:?}",
                            p.lo,
                            p.hi
                        );
                    }
                }
                // every checkpoint written
                let ck = cfg.ck.clone().unwrap();
                let ops: Vec<CkOp> = r
                    .rep
                    .image
                    .files
                    .keys()
                    .filter(|k| k.ends_with(".bin"))
                    .map(|k| CkOp::ReadFile(k.clone()))
                    .collect();
                let l = ctx.run(&sim_plain(), &r.rep.image, &single(Job::Ck(ck, ops), 1))?;
                if let Some(JobOut::Ck(Ok(v))) = l.job(0, 0) {
                    for x in v {
                        if let CkOut::Loaded(Ok(d)) = x {
                            ensure!(
                                d.exclude,
                                "setting",
                                "a checkpoint does not record that out-of-bounds solutions are excluded"
                            );
                            for s in d.solutions.iter().flatten() {
                                ensure!(
                                    p.in_bounds(&s.x),
                                    "checkpointed",
                                    "a checkpoint holds {s:?}, outside of the bounds {:?} {:?}",
                                    p.lo,
                                    p.hi
                                );
                            }
                        }
                    }
                }
                // a target below everything admissible changes nothing
                let Some(rd) = reference(ctx, &cfg)? else {
                    return Ok(());
                };
                let mut oob: Vec<f64> = rd
                    .locals
                    .iter()
                    .chain([&rd.first])
                    .filter_map(|l| l.res.as_ref().ok())
                    .filter(|s| !p.in_bounds(&s.x))
                    .map(|s| s.f)
                    .collect();
                oob.retain(|f| f.is_finite());
                let best = match &o.res {
                    Res::Set(v) => v.iter().map(|s| s.f).fold(f64::INFINITY, f64::min),
                    // everything found was excluded
                    Res::Err(e) if e.contains("No feasible solution") => f64::INFINITY,
                    Res::Err(_) => return Ok(()),
                    Res::Panic(m) => return fail("panic", m.clone()),
                };
                oob.retain(|f| *f < best);
                if oob.is_empty() {
                    return Ok(());
                }
                ctx.hit = true;
                oob.sort_by(f64::total_cmp);
                let t = oob[(c.aux[0] % oob.len() as u64) as usize];
                let mut inc = c.incs[1].clone();
                let mut w = c.run_cfg(1).clone();
                w.target = Some(t);
                inc.threads[0][0] = Job::Optimize(w);
                let r2 = ctx.run(&c.sims[1], &c.image, &inc)?;
                let o2 = run_out(&r2, 0, 0);
                ensure!(
                    same_res(&o.res, &o2.res)
                        && multiset(&r.rep, p.tag) == multiset(&r2.rep, p.tag),
                    "target",
                    "with the target {t:?}, which only excluded solutions meet: {}; evaluations {} / {}",
                    diff_res(&o.res, &o2.res),
                    multiset(&r.rep, p.tag).len(),
                    multiset(&r2.rep, p.tag).len()
                );
                ctx.probe("target met by excluded solutions only");
            }
            _ => {
                let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
                let Res::Set(_) = run_out(&r, 0, 0).res else {
                    return Ok(());
                };
                let ck = cfg.ck.clone().unwrap();
                let load = |ctx: &mut Ctx, img| -> Result<Option<Box<CkData>>, Violation> {
                    let l = ctx.run(
                        &sim_plain(),
                        img,
                        &single(Job::Ck(ck.clone(), vec![CkOp::LoadLatest]), 1),
                    )?;
                    Ok(match l.job(0, 0) {
                        Some(JobOut::Ck(Ok(v))) => match &v[0] {
                            CkOut::Loaded(Ok(d)) => Some(d.clone()),
                            _ => None,
                        },
                        _ => None,
                    })
                };
                let Some(before) = load(ctx, &r.rep.image)? else {
                    return Ok(());
                };
                let r2 = ctx.run(&c.sims[1], &r.rep.image, &c.incs[1])?;
                let o2 = run_out(&r2, 0, 0);
                if let Res::Set(v) = &o2.res {
                    if cfg.exclude {
                        for s in v {
                            ensure!(
                                p.in_bounds(&s.x),
                                "returned",
                                "after a restart the solution {s:?} is outside of the bounds {:?} {:?}",
                                p.lo,
                                p.hi
                            );
                        }
                    }
                }
                let Some(after) = load(ctx, &r2.rep.image)? else {
                    return Ok(());
                };
                for x in &after.reference {
                    admissible(p, x, "after a restart the reference set contains")?;
                }
                if cfg.exclude {
                    for s in after.solutions.iter().flatten() {
                        ensure!(
                            p.in_bounds(&s.x),
                            "checkpointed",
                            "after a restart a checkpoint holds {s:?}, outside of the bounds"
                        );
                    }
                }
                ctx.hit = after.reference.len() > before.reference.len();
            }
        }
        Ok(())
    }
}
