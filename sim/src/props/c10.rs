//! Checkpoint archives: newest is chosen, cleanup keeps the newest.
use super::Prop;
use super::c08::{file_of, gen_ck};
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use simcore::Status;
use simcore::fs::Image;
use simcore::rng::Rng;
use std::collections::BTreeSet;
use subject::problem::*;
use subject::*;

pub struct C10;

const NAMES: [&str; 5] = ["r", "opt", "opt_2", "run.1", "a_000001"];

/// files that are none of this run's checkpoints
fn foreign(r: &mut Rng, name: &str) -> String {
    let n = r.below(2_000_000);
    match r.below(16) {
        0 => format!("{name}_{n:06}.bin.tmp"),
        1 => format!("{name}_.bin"),
        2 => format!("{name}_+{n:06}.bin"),
        3 => format!("{name}_{}.bin", 1 + r.below(99_999)),
        4 => format!("{name}_0{:06}.bin", n),
        5 => format!("{name}_abc.bin"),
        6 => format!("{name}2_{n:06}.bin"),
        7 => format!("{name}_2_{n:06}.bin"),
        8 => format!("{name}.bin"),
        9 => format!("x{name}_{n:06}.bin"),
        10 => format!("{name}_{n:06}.txt"),
        11 => format!("{name}_{n:06}.BIN"),
        12 => format!("{name}-{n:06}.bin"),
        13 => format!("{name}_{n:06}.bin.bak"),
        14 => format!("{name}_99999999999999999999999999.bin"),
        _ => format!("{name}_{n:06} .bin"),
    }
}

/// the number in the name of one of this run's archived checkpoints
fn number(k: &CkCfg, path: &str) -> Option<usize> {
    let d = format!("{}/{}_", simcore::fs::normalize(&k.dir), k.name);
    let n: usize = path.strip_prefix(&d)?.strip_suffix(".bin")?.parse().ok()?;
    (file_of(k, n) == path).then_some(n)
}

fn own(k: &CkCfg, img: &Image) -> BTreeSet<usize> {
    img.files.keys().filter_map(|f| number(k, f)).collect()
}

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "an archive of this run's checkpoints among other runs', leftover and look-alike files is listed in shuffled order, extended, trimmed and read by up to three processes, while file-system calls fail or processes or the power die; the directory and what loads are compared with the model after each; non-trivial: something was trimmed"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let k = CkCfg {
            dir: r.pick(&["/ck", "/a/b/ck", "rel"]).to_string(),
            name: r.pick(&NAMES).to_string(),
            freq: 1,
            keep_all: true,
            auto_resume: false,
        };
        let faulty = r.chance(0.6);
        let mut c = Case::new(if faulty { "with faults" } else { "healthy" });
        let style = r.below(4);
        let iter = |r: &mut Rng| match style {
            0 => r.below(30),
            1 => 999_990 + r.below(30),
            2 => *r.pick(&[
                0usize,
                1,
                9,
                10,
                99,
                100,
                999_999,
                1_000_000,
                9_999_999,
                10_000_000,
                usize::MAX,
                usize::MAX / 2,
            ]),
            _ => {
                let m = 1 + r.below(40);
                r.below(1 << m)
            }
        };
        // the archive as it is found
        let mut ops = vec![];
        for _ in 0..r.below(8) {
            let it = iter(r);
            ops.push(CkOp::Save {
                it,
                ck: gen_ck(r, it, 0),
            });
        }
        for _ in 0..r.below(6) {
            let other = *r.pick(&NAMES);
            let n = if r.chance(0.8) {
                k.name.as_str()
            } else {
                other
            };
            let f = foreign(r, n);
            let p = format!("{}/{f}", simcore::fs::normalize(&k.dir));
            if number(&k, &p).is_none() {
                let l = r.below(30);
                ops.push(CkOp::Put(p, (0..l).map(|_| r.u64() as u8).collect()));
            }
        }
        c.push(sim_plain(), single(Job::Ck(k.clone(), ops), 1));
        for _ in 0..1 + r.below(3) {
            let mut ops = vec![];
            for _ in 0..1 + r.below(4) {
                ops.push(match r.below(8) {
                    0 | 1 => {
                        let it = iter(r);
                        CkOp::Save {
                            it,
                            ck: gen_ck(r, it, 1),
                        }
                    }
                    2 => CkOp::LoadLatest,
                    3 => CkOp::Exists,
                    _ => CkOp::Cleanup(*r.pick(&[0usize, 1, 1, 2, 3, 5, 100])),
                });
            }
            if faulty && r.chance(0.3) {
                ops.push(if r.chance(0.5) {
                    CkOp::Kill
                } else {
                    CkOp::Power(r.u64())
                });
            }
            let mut s = sim_wild(r);
            s.shuffle_dirs = r.chance(0.8);
            if faulty {
                for _ in 0..r.below(3) {
                    s.fs_faults.push(gen_fs_fault(r, 40, true));
                }
            }
            let mut kk = k.clone();
            kk.keep_all = !r.chance(0.08);
            c.push(s, single(Job::Ck(kk, ops), 1));
        }
        c
    }
    fn valid(&self, c: &Case) -> bool {
        !c.incs.is_empty()
            && c.incs.iter().all(|i| i.threads.len() == 1 && i.threads[0].len() == 1 && matches!(&i.threads[0][0], Job::Ck(..)))
            && c.sims[0].fs_faults.is_empty()
            && c.incs[1..].iter().all(|i| matches!(&i.threads[0][0], Job::Ck(_, o) if !o.iter().any(|o| matches!(o, CkOp::Put(..)))))
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let Job::Ck(k, _) = &c.incs[0].threads[0][0] else {
            panic!()
        };
        let mut img = c.image.clone();
        for i in 0..c.incs.len() {
            let Job::Ck(kk, ops) = &c.incs[i].threads[0][0] else {
                panic!()
            };
            let r = ctx.raw(&c.sims[i], &img, &c.incs[i]);
            if r.rep.status != Status::Crashed {
                finished(&r.rep)?;
            }
            // this run's files that are there for certain, and that may be
            let mut must = own(k, &img);
            let mut may: BTreeSet<usize> = BTreeSet::new();
            let mut ever = must.clone();
            let faults = r
                .rep
                .stats
                .faults
                .keys()
                .any(|f| f.starts_with("fs_") && f != "fs_short_read");
            for (j, op) in ops.iter().enumerate() {
                let m: Vec<_> = r
                    .rep
                    .events
                    .iter()
                    .filter(|e| e.kind == MARK && e.tag == j as i64)
                    .collect();
                if !m.iter().any(|e| e.s == "op") {
                    break;
                }
                let ret = m.iter().find(|e| e.s == "ret").map(|e| decode_ret(e));
                if let Some(CkOut::Panic(p)) = &ret {
                    return fail("panic", format!("process {i}, operation {j} {op:?}: {p}"));
                }
                let at = format!("process {i}, operation {j}");
                match op {
                    CkOp::Save { it, .. } if kk.keep_all => {
                        ever.insert(*it);
                        if matches!(ret, Some(CkOut::Saved(Ok(_)))) {
                            must.insert(*it);
                            may.remove(it);
                        } else if !must.contains(it) {
                            may.insert(*it);
                        }
                    }
                    CkOp::Cleanup(n) if kk.keep_all && *n > 0 => {
                        let newer = |it: usize, s: &BTreeSet<usize>| {
                            s.range(it..).count() - s.contains(&it) as usize
                        };
                        let all: BTreeSet<usize> = must.union(&may).copied().collect();
                        let keep: BTreeSet<usize> = must
                            .iter()
                            .copied()
                            .filter(|it| newer(*it, &all) < *n)
                            .collect();
                        let gone: BTreeSet<usize> = all
                            .iter()
                            .copied()
                            .filter(|it| newer(*it, &must) >= *n)
                            .collect();
                        let done = matches!(ret, Some(CkOut::Done(Ok(()))));
                        if let Some(CkOut::Done(Err(e))) = &ret {
                            ensure!(
                                faults,
                                "cleanup",
                                "{at}: trimming a healthy archive to {n} fails: {e}"
                            );
                            ctx.probe("trimming failed");
                        }
                        if ret.is_none() {
                            ctx.probe("trimming cut off");
                        }
                        if !gone.is_empty() {
                            ctx.hit = true;
                        }
                        may = all
                            .iter()
                            .copied()
                            .filter(|it| !keep.contains(it) && !(done && gone.contains(it)))
                            .collect();
                        must = keep;
                    }
                    CkOp::LoadLatest if kk.keep_all => match ret {
                        Some(CkOut::Loaded(Ok(d))) => {
                            ensure!(
                                must.contains(&d.iteration) || may.contains(&d.iteration),
                                "newest",
                                "{at}: loads iteration {}, there are {must:?} {may:?}",
                                d.iteration
                            );
                            ensure!(
                                must.last().is_none_or(|m| *m <= d.iteration),
                                "newest",
                                "{at}: loads iteration {}, there are {must:?} {may:?}",
                                d.iteration
                            );
                        }
                        Some(CkOut::Loaded(Err(e))) => ensure!(
                            faults || must.is_empty(),
                            "newest",
                            "{at}: the newest does not load: {e}; there are {must:?}"
                        ),
                        _ => {}
                    },
                    CkOp::Exists if kk.keep_all => {
                        if let (Some(CkOut::Exists(b)), false) = (ret, faults) {
                            ensure!(
                                b || must.is_empty(),
                                "exists",
                                "{at}: there are {must:?}, none is said to exist"
                            );
                            ensure!(
                                !b || !must.is_empty() || !may.is_empty(),
                                "exists",
                                "{at}: there are none, one is said to exist"
                            );
                        }
                    }
                    _ => {}
                }
            }
            if r.rep.stats.faults.keys().any(|f| f.starts_with("power")) {
                // deletions need not have reached the disk
                may.extend(ever.iter().copied().filter(|it| !must.contains(it)));
            }
            let now = own(k, &r.rep.image);
            ensure!(
                must.iter().all(|m| now.contains(m)),
                "missing",
                "after process {i} ({:?}): {must:?} have to be there, {now:?} are",
                r.rep.status
            );
            ensure!(
                now.iter().all(|n| must.contains(n) || may.contains(n)),
                "left over",
                "after process {i} ({:?}): {now:?} are there, only {must:?} {may:?} can be",
                r.rep.status
            );
            if i > 0 {
                for (f, b) in &img.files {
                    // the manager may clear up its own temporary files; in the other mode it writes its own file
                    let mine = number(k, f).is_some()
                        || (f.ends_with(".tmp")
                            && f.strip_suffix(".tmp")
                                .is_some_and(|g| number(k, g).is_some() || g == file_of(kk, 0)))
                        || (!kk.keep_all && *f == file_of(kk, 0));
                    ensure!(
                        mine || r.rep.image.files.get(f) == Some(b),
                        "foreign",
                        "after process {i}: {f}, which is none of this run's checkpoints, was touched"
                    );
                }
            }
            img = r.rep.image.clone();
            // what another process finds
            let mut s = sim_plain();
            s.shuffle_dirs = true;
            s.sched_seed = c.sims[i].sched_seed;
            let v = ctx.run(
                &s,
                &img,
                &single(Job::Ck(k.clone(), vec![CkOp::LoadLatest, CkOp::Exists]), 1),
            )?;
            let Some(JobOut::Ck(Ok(v))) = v.job(0, 0) else {
                return fail(
                    "open",
                    format!("the archive cannot be opened after process {i}"),
                );
            };
            match (&v[0], now.last()) {
                (CkOut::Loaded(Ok(d)), Some(n)) => ensure!(
                    d.iteration == *n,
                    "newest",
                    "after process {i}: iteration {} loads, of {now:?}",
                    d.iteration
                ),
                (CkOut::Loaded(Err(_)), None) => {}
                (o, n) => {
                    return fail(
                        "newest",
                        format!("after process {i}: newest is {n:?}, loading gives {o:?}"),
                    );
                }
            }
            ensure!(
                v[1] == CkOut::Exists(!now.is_empty()),
                "exists",
                "after process {i}: {:?}, there are {now:?}",
                v[1]
            );
        }
        Ok(())
    }
}
