//! Concurrent optimisers do not influence each other.
use super::Prop;
use super::c07::newest;
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::fs::Image;
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C16;

const NAMES: [&str; 6] = ["r", "r_2", "opt", "r.bin", "optimization", "r_x_1"];

fn files(img: &Image, k: &CkCfg) -> Vec<String> {
    let d = simcore::fs::normalize(&k.dir);
    img.files
        .keys()
        .filter(|f| {
            let Some(f) = f
                .strip_prefix(&format!("{d}/{}", k.name))
                .and_then(|f| f.strip_suffix(".bin"))
            else {
                return false;
            };
            f.is_empty()
                || f.strip_prefix('_')
                    .is_some_and(|n| n.len() >= 6 && n.bytes().all(|b| b.is_ascii_digit()))
        })
        .cloned()
        .collect()
}

/// apart from times
fn comparable(mut d: CkData) -> CkData {
    d.timestamp.clear();
    d.elapsed = 0.0;
    d.filter.sort_by_key(|s| s.bits());
    d
}

fn counts(o: &Option<ObsSnap>) -> String {
    let Some(mut o) = o.clone() else {
        return String::new();
    };
    o.elapsed = None;
    for s in [&mut o.s1, &mut o.s1_final].into_iter().flatten() {
        s.time = None;
    }
    if let Some(s) = &mut o.s2 {
        s.time = None;
    }
    format!("{o:?}")
}

impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "two to four caller threads run one to three optimisers each at the same time, an evaluation may itself run another one (sharing the thread pool, often the problem and a checkpoint directory under different names; observers, failing or panicking evaluations, resumed runs among them); each is compared with the same optimisers run without the other threads: result, evaluations, observer counts, checkpoint files; non-trivial: evaluations of two optimisers overlap in time"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let mut c = Case::new("several optimisers");
        let n = 2 + r.below(3);
        let shared = gen_run(r);
        let same = r.chance(0.4);
        let mut threads = vec![];
        let mut tag = 10;
        for t in 0..n {
            let mut jobs = vec![];
            let name = NAMES[t];
            for _ in 0..1 + r.below(2) {
                let mut b = if same { shared.clone() } else { gen_run(r) };
                if same && r.chance(0.5) {
                    b.params = gen_params(r);
                    b.params.solver = shared.params.solver;
                }
                b.parallel = r.chance(0.7);
                if !b.parallel {
                    b.batch = None;
                }
                if r.chance(0.2) {
                    b.target = Some(r.uniform(-3.0, 3.0));
                }
                if r.chance(0.3) {
                    b.observer = Some(gen_obs(r));
                }
                let (mut b, _) = vary(r, &b);
                if r.chance(0.5) {
                    b.pool = None;
                }
                if r.chance(0.2) {
                    let m = 2 + r.below(40) as u64;
                    let kind = if hz(b.params.solver) {
                        FaultKind::Err
                    } else {
                        *r.pick(&[
                            FaultKind::Err,
                            FaultKind::Panic,
                            FaultKind::Nan,
                            FaultKind::Inf,
                        ])
                    };
                    b.prob.faults.push(EvalFault {
                        when: When::Point(OBJ, m, r.below(m as usize) as u64),
                        kind,
                    });
                }
                if r.chance(0.5) {
                    b.ck = Some(CkCfg {
                        dir: "/ck".into(),
                        name: name.into(),
                        freq: 1 + r.below(5),
                        keep_all: r.chance(0.4),
                        auto_resume: r.chance(0.3),
                    });
                }
                b.prob.tag = tag;
                tag += 1;
                let more = b.ck.is_some() && r.chance(0.4);
                let mut again = b.clone();
                jobs.push(Job::Optimize(b));
                if more {
                    again.prob.tag = tag;
                    tag += 1;
                    again.params.iterations = again.params.population;
                    again.resume = Some(Resume {
                        params: again.params.clone(),
                        path: None,
                    });
                    again.ck.as_mut().unwrap().auto_resume = true;
                    jobs.push(Job::Optimize(again));
                }
            }
            threads.push(jobs);
        }
        if r.chance(0.25) {
            let mut inner = gen_run(r);
            inner.params.population = inner.params.population.min(12);
            inner.params.iterations = inner.params.iterations.min(inner.params.population);
            inner.custom.clear();
            inner.prob.tag = 900;
            let (mut inner, _) = vary(r, &inner);
            if r.chance(0.3) {
                inner.ck = Some(CkCfg {
                    dir: "/ck".into(),
                    name: "inner".into(),
                    freq: 1 + r.below(5),
                    keep_all: r.chance(0.4),
                    auto_resume: false,
                });
            }
            let t = r.below(threads.len());
            let j = r.below(threads[t].len());
            if let Job::Optimize(c) = &mut threads[t][j] {
                c.prob.inner = Some((r.below(60) as u64, Box::new(inner)));
            }
            c.scenario = "an optimisation inside an evaluation".into();
        }
        c.push(
            sim_wild(r),
            Inc {
                threads,
                cpus: *r.pick(&[1u64, 2, 2, 3, 4, 8]),
                py: None,
            },
        );
        c
    }
    fn valid(&self, c: &Case) -> bool {
        let mut tags: Vec<i64> = c
            .incs
            .iter()
            .flat_map(|i| &i.threads)
            .flatten()
            .map(|j| cfg_of(j).prob.tag)
            .collect();
        let n = tags.len();
        tags.sort();
        tags.dedup();
        c.incs.len() == 1
            && tags.len() == n
            && c.incs[0].threads.len() >= 1
            && c.incs[0].threads.iter().flatten().all(|j| {
                cfg_of(j)
                    .prob
                    .faults
                    .iter()
                    .all(|f| matches!(f.when, When::Point(..)))
            })
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let inc = &c.incs[0];
        let together = ctx.run(&c.sims[0], &c.image, inc)?;
        let inner = inc
            .threads
            .iter()
            .flatten()
            .find_map(|j| cfg_of(j).prob.inner.as_ref());
        if let (Some((_, cfg)), Some(JobOut::Run(b))) = (inner, together.job(inc.threads.len(), 0))
        {
            let one = single(Job::Optimize((**cfg).clone()), 1);
            let alone = ctx.run(&sim_plain(), &c.image, &one)?;
            let a = run_out(&alone, 0, 0);
            ensure!(
                same_res(&a.res, &b.res)
                    || !matches!((&a.res, &b.res), (Res::Set(_), _) | (_, Res::Set(_))),
                "result",
                "the optimisation inside an evaluation: alone / inside: {}",
                diff_res(&a.res, &b.res)
            );
            let tag = cfg.prob.tag;
            let (x, y) = (multiset(&alone.rep, tag), multiset(&together.rep, tag));
            ensure!(
                x == y || !matches!(a.res, Res::Set(_)),
                "evaluations",
                "the optimisation inside an evaluation: {} evaluations alone, {} inside",
                x.len(),
                y.len()
            );
            ctx.probe("an optimisation inside an evaluation");
        }
        for (t, jobs) in inc.threads.iter().enumerate() {
            let mut jobs = jobs.clone();
            for j in &mut jobs {
                if let Job::Optimize(c) = j {
                    c.prob.inner = None;
                }
            }
            let jobs = &jobs;
            let alone = ctx.run(
                &sim_plain(),
                &c.image,
                &Inc {
                    threads: vec![jobs.clone()],
                    cpus: 1,
                    py: None,
                },
            )?;
            let mut settled = true;
            for (j, job) in jobs.iter().enumerate() {
                let cfg = cfg_of(job);
                let (a, b) = (run_out(&alone, 0, j), run_out(&together, t, j));
                let who = format!("optimiser {j} of thread {t}");
                let ok = matches!(a.res, Res::Set(_));
                match (&a.res, &b.res) {
                    (Res::Set(_), _) | (_, Res::Set(_)) => ensure!(
                        same_res(&a.res, &b.res),
                        "result",
                        "{who}: alone / with others: {}",
                        diff_res(&a.res, &b.res)
                    ),
                    // which of several failing evaluations comes first depends on the schedule
                    (Res::Panic(_), Res::Err(_)) | (Res::Err(_), Res::Panic(_)) => {
                        ensure!(
                            cfg.parallel
                                && cfg.prob.faults.iter().any(|f| f.kind == FaultKind::Panic),
                            "result",
                            "{who}: alone / with others: {}",
                            diff_res(&a.res, &b.res)
                        );
                    }
                    _ => ctx.probe("fails alone and with others"),
                }
                // what a failing run leaves behind may depend on the schedule
                settled &= ok;
                if !settled {
                    break;
                }
                let (x, y) = (
                    multiset(&alone.rep, cfg.prob.tag),
                    multiset(&together.rep, cfg.prob.tag),
                );
                ensure!(
                    x == y,
                    "evaluations",
                    "{who}: {} evaluations alone, {} with others",
                    x.len(),
                    y.len()
                );
                ensure!(
                    a.resumed == b.resumed,
                    "resumed",
                    "{who}: alone {:?}, with others {:?}",
                    a.resumed,
                    b.resumed
                );
                let (x, y) = (counts(&a.obs), counts(&b.obs));
                ensure!(x == y, "observer", "{who}: alone {x}, with others {y}");
            }
            if !settled {
                continue;
            }
            let mut cks: Vec<CkCfg> = jobs.iter().filter_map(|j| cfg_of(j).ck.clone()).collect();
            cks.dedup_by_key(|k| k.name.clone());
            for k in cks {
                let (x, y) = (files(&alone.rep.image, &k), files(&together.rep.image, &k));
                ensure!(
                    x == y,
                    "files",
                    "checkpoint files of thread {t}: alone {x:?}, with others {y:?}"
                );
                for keep_all in [false, true] {
                    let mut k = k.clone();
                    k.keep_all = keep_all;
                    match (
                        newest(ctx, &alone.rep.image, &k)?,
                        newest(ctx, &together.rep.image, &k)?,
                    ) {
                        (Ok(a), Ok(b)) => {
                            let (a, b) = (comparable(*a), comparable(*b));
                            ensure!(
                                simcore::encode(&a) == simcore::encode(&b),
                                "checkpoint",
                                "checkpoint of thread {t}: alone {a:?}, with others {b:?}"
                            );
                            ctx.probe("checkpoints compared");
                        }
                        (Err(_), Err(_)) => {}
                        (a, b) => {
                            return fail(
                                "checkpoint",
                                format!(
                                    "checkpoint of thread {t}: alone {:?}, with others {:?}",
                                    a.map(|_| ()),
                                    b.map(|_| ())
                                ),
                            );
                        }
                    }
                }
            }
        }
        // evaluations of one optimiser between those of another
        let mut spans: std::collections::BTreeMap<i64, (u64, u64)> = Default::default();
        for e in together
            .rep
            .events
            .iter()
            .filter(|e| matches!(e.kind, OBJ | GRAD | HESS))
        {
            let s = spans.entry(e.tag).or_insert((e.seq, e.seq));
            s.1 = e.seq;
        }
        let s: Vec<_> = spans.values().collect();
        ctx.hit = (0..s.len()).any(|i| (0..i).any(|j| s[i].0 < s[j].1 && s[j].0 < s[i].1));
        Ok(())
    }
}
