//! Watching, logging and checkpointing never change the result.
use super::Prop;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C12;

/// everything in a is in b (both sorted), as often
fn within(a: &[Key], b: &[Key]) -> Option<Key> {
    let mut j = 0;
    for k in a {
        while j < b.len() && b[j] < *k {
            j += 1;
        }
        if j == b.len() || b[j] != *k {
            return Some(k.clone());
        }
        j += 1;
    }
    None
}

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "one random run bare, then three to five times with random combinations of observer, callback, frequency, verbose output and checkpointing under hostile schedules, half of the checkpointed ones with failing file-system calls (errors, short reads, full disk); also in the build without parallel support; non-trivial: Stage 2 makes searches and some variant is observed, verbose or checkpointed"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut base = gen_run(r);
        base.verbose = false;
        if r.chance(0.35) {
            base.parallel = false;
        }
        if r.chance(0.3) {
            base.target = Some(r.uniform(-3.0, 3.0));
        }
        if r.chance(0.4) {
            base.params.iterations = base.params.population - r.below(3);
        }
        if r.chance(0.15) {
            let m = 3 + r.below(30) as u64;
            let kind = *r.pick(&[
                FaultKind::Inf,
                FaultKind::Nan,
                FaultKind::NegNan,
                FaultKind::Err,
            ]);
            let kind = if hz(base.params.solver) {
                FaultKind::Err
            } else {
                kind
            };
            base.prob.faults.push(EvalFault {
                when: When::Point(OBJ, m, r.below(m as usize) as u64),
                kind,
            });
        }
        let mut c = Case::new(if base.parallel { "parallel" } else { "serial" });
        c.push(sim_plain(), single(Job::Optimize(base.clone()), 1));
        for k in 0..3 + r.below(3) {
            let (mut v, cpus) = vary(r, &base);
            let mut sim = sim_wild(r);
            let what = match k {
                0 => 1,
                1 => 4,
                _ => 1 + r.below(7),
            };
            if what & 1 > 0 {
                v.observer = Some(gen_obs(r));
            }
            if what & 2 > 0 {
                v.verbose = true;
            }
            if what & 4 > 0 {
                v.ck = Some(CkCfg {
                    dir: r.pick(&["/ck", "/a/b/ck", "rel"]).to_string(),
                    name: r.pick(&["r", "run.1", "opt_2"]).to_string(),
                    freq: *r.pick(&[0, 1, 1, 2, 3, 5, 50]),
                    keep_all: r.chance(0.4),
                    auto_resume: r.chance(0.5),
                });
                if r.chance(0.5) {
                    for _ in 0..1 + r.below(3) {
                        let max = *r.pick(&[8u64, 20, 60, 150]);
                        sim.fs_faults.push(gen_fs_fault(r, max, false));
                    }
                }
            }
            c.push(sim, single(Job::Optimize(v), cpus));
        }
        if !base.parallel && r.chance(0.3) {
            c.aux = vec![1];
        }
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() >= 2
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
            && c.run_cfg(0).observer.is_none()
            && c.run_cfg(0).ck.is_none()
            && (0..c.incs.len()).all(|i| {
                let (a, b) = (c.run_cfg(i), c.run_cfg(0));
                a.params == b.params
                    && a.batch == b.batch
                    && a.custom == b.custom
                    && a.parallel == b.parallel
                    && a.target == b.target
                    && a.exclude == b.exclude
                    && a.tol == b.tol
                    && a.prob.faults == b.prob.faults
                    && a.prob.func == b.prob.func
                    && a.prob.lo == b.prob.lo
                    && a.prob.hi == b.prob.hi
                    && a.prob.cons == b.prob.cons
            })
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let serial = c.aux == [1];
        let r = ctx.run(&c.sims[0], &c.image, &c.incs[0])?;
        let want = run_out(&r, 0, 0).res;
        let tag = c.run_cfg(0).prob.tag;
        let all = multiset(&r.rep, tag);
        let Res::Set(_) = want else { return Ok(()) };
        ctx.hit = c.run_cfg(0).params.iterations > 0;
        for i in 1..c.incs.len() {
            let v = c.run_cfg(i);
            let how = format!(
                "observer {}, verbose {}, checkpoints {}, {} file-system faults",
                v.observer.as_ref().map_or("none".into(), |o| format!(
                    "mode {} callback {} frequency {:?} stages {}/{}",
                    o.mode, o.cb, o.freq, o.s1, o.s2
                )),
                v.verbose,
                v.ck.as_ref()
                    .map_or("none".into(), |k| format!("every {}", k.freq)),
                c.sims[i].fs_faults.len()
            );
            let r = if serial {
                ctx.run_serial(&c.sims[i], &c.image, &c.incs[i])?
            } else {
                ctx.run(&c.sims[i], &c.image, &c.incs[i])?
            };
            let o = run_out(&r, 0, 0);
            let m = multiset(&r.rep, tag);
            let failing = !c.sims[i].fs_faults.is_empty();
            if let (Res::Err(_), true) = (&o.res, failing) {
                ctx.probe("ends with an error after a failing save");
                if let Some(k) = within(&m, &all) {
                    return fail(
                        "evaluations",
                        format!(
                            "with {how} the run ends with an error, but evaluates {:?} first, which the bare run does not",
                            k.1.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
                        ),
                    );
                }
                continue;
            }
            ensure!(
                same_res(&want, &o.res),
                "result",
                "bare / with {how}: {}",
                diff_res(&want, &o.res)
            );
            if m != all {
                let k = within(&m, &all).or(within(&all, &m));
                return fail(
                    "evaluations",
                    format!(
                        "with {how} the run makes {} evaluations, bare {}; e.g. {:?}",
                        m.len(),
                        all.len(),
                        k.map(|k| (
                            k.0,
                            k.1.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>()
                        ))
                    ),
                );
            }
            if failing {
                ctx.probe("finishes in spite of failing file-system calls");
            }
            if v.observer.is_some() {
                ctx.probe("observed");
            }
            if v.ck.is_some() {
                ctx.probe("checkpointed");
            }
            if v.verbose {
                ctx.probe("verbose");
            }
        }
        Ok(())
    }
}
