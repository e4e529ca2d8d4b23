//! A saved checkpoint survives crashes and I/O failures.
use super::Prop;
use super::c07::{newest, same_state};
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::fs::{FsFaultKind, Image, Op};
use simcore::rng::Rng;
use simcore::{Report, Status};
use std::collections::BTreeMap;
use subject::problem::*;
use subject::*;

pub struct C08;

fn gen_sols(r: &mut Rng, dim: usize, n: usize) -> Vec<Sol> {
    (0..n)
        .map(|_| Sol {
            x: (0..dim).map(|_| r.uniform(-9.0, 9.0)).collect(),
            f: gen_value(r),
        })
        .collect()
}
pub fn gen_value(r: &mut Rng) -> f64 {
    match r.below(16) {
        0 => f64::INFINITY,
        1 => f64::NEG_INFINITY,
        2 => -0.0,
        3 => f64::MIN_POSITIVE / 8.0,
        4 => f64::MAX,
        5 => 0.1 + 0.2,
        _ => r.uniform(-1e3, 1e3),
    }
}
/// contents of a checkpoint
pub fn gen_ck(r: &mut Rng, it: usize, stamp: u64) -> CkData {
    let dim = 1 + r.below(4);
    let size = *r.pick(&[0usize, 1, 3, 10, 40]);
    let mut params = gen_params(r);
    if r.chance(0.6) {
        params.tune = (r.u64() | 2) & !1;
    }
    CkData {
        params,
        iteration: it,
        threshold: gen_value(r),
        solutions: if r.chance(0.8) {
            let n = r.below(6);
            Some(gen_sols(r, dim, n))
        } else {
            None
        },
        reference: gen_sols(r, dim, size).into_iter().map(|s| s.x).collect(),
        unchanged: r.below(9),
        elapsed: r.uniform(0.0, 1e5),
        filter: gen_sols(r, dim, size / 2),
        cur_seed: r.u64(),
        target: if r.chance(0.4) {
            Some(gen_value(r))
        } else {
            None
        },
        exclude: r.chance(0.5),
        batch: if r.chance(0.5) {
            Some(r.below(20))
        } else {
            None
        },
        parallel: r.chance(0.5),
        abs_tol: r.uniform(0.0, 1.0),
        rel_tol: r.uniform(0.0, 1.0),
        timestamp: format!(
            "save {stamp} {}",
            if r.chance(0.2) {
                "ü".repeat(r.below(9))
            } else {
                String::new()
            }
        ),
        solver_text: String::new(),
    }
}

/// what was saved against what was loaded, in every field
pub fn same_ck(want: &CkData, got: &CkData) -> Result<(), String> {
    let p = build_params(&want.params);
    let mut w = want.clone();
    w.solver_text = solver_text(&p);
    w.params.solver = 255;
    w.params.solver_iters = 0;
    w.params.tune = 0;
    // through the encoding, so that bit patterns count
    let (a, b) = (simcore::encode(&w), simcore::encode(got));
    if a == b {
        Ok(())
    } else {
        Err(format!("saved {w:?}, loaded {got:?}"))
    }
}

/// what a checkpoint file may hold
#[derive(Clone, Default, Debug)]
pub struct Slot {
    /// last successful save
    pub ok: Option<CkData>,
    /// attempts since then that did not succeed
    pub tried: Vec<CkData>,
}

pub fn file_of(k: &CkCfg, it: usize) -> String {
    let d = simcore::fs::normalize(&k.dir);
    if k.keep_all {
        format!("{d}/{}_{it:06}.bin", k.name)
    } else {
        format!("{d}/{}.bin", k.name)
    }
}

/// plays the operations of a process into the model
fn play(
    rep: &Report,
    k: &CkCfg,
    ops: &[CkOp],
    slots: &mut BTreeMap<usize, Slot>,
    ctx: &mut Ctx,
) -> Verdict {
    for (i, op) in ops.iter().enumerate() {
        let m: Vec<_> = rep
            .events
            .iter()
            .filter(|e| e.kind == MARK && e.tag == i as i64)
            .collect();
        if !m.iter().any(|e| e.s == "op") {
            return Ok(());
        }
        let ret = m.iter().find(|e| e.s == "ret").map(|e| decode_ret(e));
        if let Some(CkOut::Panic(p)) = &ret {
            return fail("panic", format!("operation {i} {op:?} panics: {p}"));
        }
        match op {
            CkOp::Save { it, ck } => {
                let s = slots.entry(if k.keep_all { *it } else { 0 }).or_default();
                match ret {
                    Some(CkOut::Saved(Ok(_))) => {
                        *s = Slot {
                            ok: Some(ck.clone()),
                            tried: vec![],
                        }
                    }
                    _ => {
                        ctx.probe(if ret.is_some() {
                            "failed save"
                        } else {
                            "save cut off"
                        });
                        s.tried.push(ck.clone())
                    }
                }
            }
            CkOp::LoadLatest => {
                if let Some(CkOut::Loaded(l)) = ret {
                    let clean = rep.stats.faults.is_empty();
                    judge_newest(&l.map(|b| *b), slots, clean, &format!("operation {i}"))?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn judge_newest(
    l: &Result<CkData, String>,
    slots: &BTreeMap<usize, Slot>,
    must: bool,
    at: &str,
) -> Verdict {
    // archives sort by iteration
    let floor = slots.iter().rev().find(|s| s.1.ok.is_some()).map(|s| *s.0);
    match l {
        Ok(d) => {
            let mut seen = vec![];
            for (f, s) in slots.iter().rev() {
                for c in s.ok.iter().chain(&s.tried) {
                    match same_ck(c, d) {
                        Ok(()) => return Ok(()),
                        Err(_) => seen.push(c.timestamp.clone()),
                    }
                }
                if Some(*f) == floor {
                    break;
                }
            }
            fail(
                "content",
                format!(
                    "{at}: the newest checkpoint is {d:?}, which is not the last one saved nor one being saved ({seen:?})"
                ),
            )
        }
        Err(e) if must && floor.is_some() => fail(
            "lost",
            format!("{at}: no loadable checkpoint, although one was saved: {e}"),
        ),
        Err(_) => Ok(()),
    }
}

impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "up to four processes save checkpoints one after another (overwriting or archiving) while file-system calls fail, stop short, run out of space or the process or the power dies in them or between them; after each process the newest checkpoint and every archive are compared with the model; also whole runs whose saves fail; non-trivial: a fault or crash hit after a first checkpoint had been saved"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        if r.chance(0.25) {
            let mut c = Case::new("run with failing saves");
            let mut b = gen_run(r);
            b.parallel = r.chance(0.7);
            b.params.iterations = b.params.population;
            b.params.wait_cycle = 1 + r.below(3);
            b.params.solver = *r.pick(&[0u8, 0, 1, 2]);
            b.params.solver_iters = *r.pick(&[2u64, 5, 10]);
            b.prob.cons = 0;
            b.ck = Some(CkCfg {
                dir: "/ck".into(),
                name: "r".into(),
                freq: 1 + r.below(4),
                keep_all: r.chance(0.5),
                auto_resume: true,
            });
            let (v, cpus) = vary(r, &b);
            let mut s = sim_wild(r);
            for _ in 0..1 + r.below(3) {
                s.fs_faults.push(gen_fs_fault(r, 120, false));
            }
            c.push(s, single(Job::Optimize(v), cpus));
            return c;
        }
        let k = CkCfg {
            dir: r.pick(&["/ck", "/a/b/ck", "rel"]).to_string(),
            name: r.pick(&["r", "run.1", "opt_2"]).to_string(),
            freq: 1,
            keep_all: r.chance(0.4),
            auto_resume: false,
        };
        let mut c = Case::new(if k.keep_all { "archive" } else { "single file" });
        let mut it = if r.chance(0.2) { 999_990 } else { 0 };
        let mut stamp = 0;
        for _ in 0..1 + r.below(4) {
            let mut ops = vec![];
            for _ in 0..1 + r.below(4) {
                it += if r.chance(0.15) { 0 } else { 1 + r.below(9) };
                stamp += 1;
                ops.push(CkOp::Save {
                    it,
                    ck: gen_ck(r, it, stamp),
                });
                if r.chance(0.2) {
                    ops.push(CkOp::LoadLatest);
                }
            }
            match r.below(4) {
                0 => ops.push(CkOp::Power(r.u64())),
                1 => ops.push(CkOp::Kill),
                _ => {}
            }
            let mut s = sim_wild(r);
            for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3]) {
                let max = *r.pick(&[8u64, 20, 50]);
                s.fs_faults.push(gen_fs_fault(r, max, true));
            }
            c.push(s, single(Job::Ck(k.clone(), ops), 1));
        }
        c
    }
    fn valid(&self, c: &Case) -> bool {
        if c.scenario == "run with failing saves" {
            return c.incs.len() == 1
                && c.incs[0].threads.len() == 1
                && c.incs[0].threads[0].len() == 1;
        }
        let mut dir = None;
        !c.incs.is_empty()
            && c.incs.iter().all(|i| {
                i.threads.len() == 1
                    && i.threads[0].len() == 1
                    && match &i.threads[0][0] {
                        Job::Ck(k, _) => dir.get_or_insert(k.clone()) == k,
                        _ => false,
                    }
            })
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        if c.scenario == "run with failing saves" {
            return self.whole_run(c, ctx);
        }
        let Job::Ck(k, _) = &c.incs[0].threads[0][0] else {
            panic!()
        };
        let mut img = c.image.clone();
        let mut slots: BTreeMap<usize, Slot> = BTreeMap::new();
        for i in 0..c.incs.len() {
            let Job::Ck(_, ops) = &c.incs[i].threads[0][0] else {
                panic!()
            };
            let had = slots.values().any(|s| s.ok.is_some());
            let r = ctx.raw(&c.sims[i], &img, &c.incs[i]);
            if r.rep.status != Status::Crashed {
                finished(&r.rep)?;
            }
            play(&r.rep, k, ops, &mut slots, ctx)?;
            if !r.rep.stats.faults.is_empty() && (had || slots.values().any(|s| s.ok.is_some())) {
                ctx.hit = true;
            }
            img = r.rep.image.clone();
            // what another process finds
            let mut look = vec![CkOp::LoadLatest, CkOp::Exists];
            look.extend(slots.keys().map(|it| CkOp::ReadFile(file_of(k, *it))));
            let v = ctx.run(&sim_plain(), &img, &single(Job::Ck(k.clone(), look), 1))?;
            let Some(JobOut::Ck(Ok(v))) = v.job(0, 0) else {
                return fail(
                    "open",
                    format!("the checkpoint directory cannot be opened after process {i}"),
                );
            };
            let CkOut::Loaded(l) = &v[0] else {
                return fail("panic", format!("{:?}", v[0]));
            };
            let l = l.clone().map(|b| *b);
            judge_newest(
                &l,
                &slots,
                true,
                &format!("after process {i} ({:?})", r.rep.status),
            )?;
            let some = slots.values().any(|s| s.ok.is_some());
            ensure!(
                v[1] == CkOut::Exists(true) || !some,
                "exists",
                "after process {i}: a checkpoint was saved but none is said to exist"
            );
            let mut seen: BTreeMap<usize, Slot> = BTreeMap::new();
            for ((it, s), o) in slots.iter().zip(&v[2..]) {
                let f = &file_of(k, *it);
                match o {
                    CkOut::Loaded(Ok(d)) => {
                        let Some(m) = s.ok.iter().chain(&s.tried).find(|m| same_ck(m, d).is_ok())
                        else {
                            return fail(
                                "content",
                                format!(
                                    "after process {i}: {f} holds {d:?}, which was never saved there last"
                                ),
                            );
                        };
                        seen.insert(
                            *it,
                            Slot {
                                ok: Some(m.clone()),
                                tried: vec![],
                            },
                        );
                    }
                    CkOut::Loaded(Err(e)) => {
                        ensure!(
                            s.ok.is_none(),
                            "lost",
                            "after process {i}: {f} was saved and cannot be loaded: {e}"
                        );
                        ensure!(
                            !img.files.contains_key(f),
                            "torn",
                            "after process {i}: {f} exists and cannot be loaded: {e}"
                        );
                    }
                    o => return fail("panic", format!("{o:?}")),
                }
            }
            slots = seen;
        }
        Ok(())
    }
}

impl C08 {
    /// errors while saving end a run with an error and leave a complete checkpoint
    fn whole_run(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let cfg = c.run_cfg(0).clone();
        let ck = cfg.ck.clone().unwrap();
        let Some(rd) = reference(ctx, &cfg)? else {
            return Ok(());
        };
        let pr = predict(
            &cfg,
            &rd,
            State::start(&cfg, rd.first.res.as_ref().unwrap()),
            0,
            batch_of(&cfg).unwrap(),
        );
        let r = ctx.run(&c.sims[0], &Image::default(), &c.incs[0])?;
        let o = run_out(&r, 0, 0);
        if let Res::Panic(m) = &o.res {
            return fail("panic", m.clone());
        }
        // (a call interrupted by a signal may be repeated)
        let bad = r.rep.fs_calls.iter().position(|f| {
            f.res < 0
                && f.res != -(libc::EINTR as i64)
                && f.path.contains(".bin")
                && matches!(
                    f.op,
                    Op::Open | Op::Create | Op::Write | Op::Fsync | Op::Rename | Op::Truncate
                )
        });
        let l = newest(ctx, &r.rep.image, &ck)?;
        let d = match l {
            Ok(d) => d,
            Err(e) => {
                ensure!(
                    !matches!(o.res, Res::Set(_)),
                    "lost",
                    "a run succeeded and left no loadable checkpoint: {e}"
                );
                // something was saved before: then something has to be there
                let saved = r
                    .rep
                    .fs_calls
                    .iter()
                    .take(bad.unwrap_or(usize::MAX))
                    .any(|f| matches!(f.op, Op::Rename) && f.res >= 0);
                ensure!(
                    !saved,
                    "lost",
                    "a checkpoint had been saved before a later save failed, and is gone: {e}"
                );
                return Ok(());
            }
        };
        if let Some(b) = bad {
            ctx.hit = true;
            let searched = marks(&r.rep, cfg.prob.tag, "run").len() == 1;
            // reading the directory on start is allowed to fail without consequence
            let f = &r.rep.fs_calls[b];
            if searched && !matches!(f.op, Op::Open) {
                ctx.probe("a save failed in a run");
                ensure!(
                    !matches!(o.res, Res::Set(_)),
                    "silent",
                    "{:?} of {} failed with {} and the run reports success",
                    f.op,
                    f.path,
                    f.res
                );
            }
        }
        if d.iteration > 0 {
            let Some(b) = pr.batches.iter().position(|b| b.1 == d.iteration) else {
                return fail(
                    "state",
                    format!(
                        "a checkpoint after {} iterations, which is no end of a batch",
                        d.iteration
                    ),
                );
            };
            same_state(&d, &pr.after[b], pr.stopped)?;
        }
        if let Res::Set(_) = o.res {
            let end = pr.batches.last().map_or(0, |b| b.1);
            ensure!(
                d.iteration == end,
                "lost",
                "the run succeeded after {end} iterations, the newest checkpoint holds {}",
                d.iteration
            );
        }
        Ok(())
    }
}

/// kinds of faults that fail a call without ending the process
pub fn failing(k: &FsFaultKind) -> bool {
    matches!(k, FsFaultKind::Err(_) | FsFaultKind::NoSpace(..))
}
