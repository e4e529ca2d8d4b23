//! Damaged checkpoint files are rejected cleanly.
use super::Prop;
use super::c08::{file_of, gen_ck, same_ck};
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::model::*;
use simcore::Status;
use simcore::fs::{FsFault, FsFaultKind, Image};
use simcore::rng::Rng;
use subject::problem::*;
use subject::*;

pub struct C09;

/// a damaged copy of a file; true when it is a proper prefix
fn damage(seed: u64, good: &[u8]) -> (Vec<u8>, bool, &'static str) {
    let mut r = Rng::new(seed);
    let mut b = good.to_vec();
    let n = b.len();
    match r.below(10) {
        0 | 1 | 2 => {
            let l = match r.below(4) {
                0 => r.below(n.min(40)),
                1 => n - 1 - r.below(n.min(40)),
                _ => r.below(n),
            };
            b.truncate(l);
            (b, true, "truncated")
        }
        3 => {
            for _ in 0..1 + r.below(4) {
                let i = r.below(n);
                b[i] ^= 1 << r.below(8);
            }
            (b, false, "bits flipped")
        }
        // a number, perhaps a length, blown up (numbers are eight bytes wide)
        4 | 5 => {
            let i = r.below(n.saturating_sub(8).max(1));
            let v: u64 = match r.below(5) {
                0 => u64::MAX,
                1 => i64::MAX as u64,
                2 => 1 << r.below(64),
                3 => r.u64() >> r.below(64),
                _ => n as u64 + r.below(64) as u64,
            };
            for (k, x) in v.to_le_bytes().iter().enumerate() {
                if i + k < n {
                    b[i + k] = *x;
                }
            }
            (b, false, "number overwritten")
        }
        6 => {
            // every field that looks like a small count
            let v: Vec<usize> = (0..n.saturating_sub(8))
                .filter(|&i| b[i] != 0 && b[i + 1..i + 8].iter().all(|x| *x == 0))
                .collect();
            if !v.is_empty() {
                let i = v[r.below(v.len())];
                let k = 1 + r.below(7);
                b[i + k] = 1 + r.below(255) as u8;
            }
            (b, false, "count blown up")
        }
        7 => {
            let i = r.below(n);
            let l = 1 + r.below((n - i).min(300));
            let fill = *r.pick(&[0u8, 0xff, 0x20]);
            let noise = r.chance(0.5);
            for x in &mut b[i..i + l] {
                *x = if noise { r.u64() as u8 } else { fill };
            }
            (b, false, "range overwritten")
        }
        8 => {
            let i = r.below(n);
            if r.chance(0.5) {
                let l = 1 + r.below((n - i).min(64));
                b.drain(i..i + l);
                (b, i + l == n, "range lost")
            } else {
                let l = 1 + r.below(64);
                for _ in 0..l {
                    b.insert(i, r.u64() as u8);
                }
                (b, false, "range inserted")
            }
        }
        _ => {
            let l = r.below(2 * n);
            ((0..l).map(|_| r.u64() as u8).collect(), false, "garbage")
        }
    }
}

impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "a checkpoint with random contents (including infinities, empty and absent sets) is saved and read back under failing and short reads; then damaged copies of the file (cut, bits flipped, numbers and lengths overwritten, ranges lost or inserted, garbage) are loaded, directly, as the newest or by a run that resumes; non-trivial: every case"
    }
    fn make(&self, r: &mut Rng, _i: u64) -> Case {
        let k = CkCfg {
            dir: "/ck".into(),
            name: "r".into(),
            freq: 1,
            keep_all: r.chance(0.3),
            auto_resume: true,
        };
        if r.chance(0.15) {
            // a run resumes from a damaged file
            let mut c = Case::new("resume");
            let mut b = gen_run(r);
            b.params.solver = *r.pick(&[0u8, 1]);
            b.params.iterations = b.params.population;
            b.ck = Some(k);
            b.prob.cons = 0;
            let mut a = b.clone();
            a.prob.faults = vec![EvalFault {
                when: When::Call(OBJ, 40 + r.below(200) as u64),
                kind: FaultKind::Kill,
            }];
            c.push(sim_plain(), single(Job::Optimize(a), 1));
            c.push(sim_plain(), single(Job::Optimize(b), 1));
            // only kinds that are certain to be rejected may be run further
            c.aux = vec![r.u64()];
            return c;
        }
        let reads = r.chance(0.4);
        let mut c = Case::new(if reads {
            "failing reads"
        } else {
            "damaged files"
        });
        let stamp = r.u64() % 100;
        let ck = gen_ck(r, 7, stamp);
        c.push(
            sim_plain(),
            single(Job::Ck(k.clone(), vec![CkOp::Save { it: 7, ck }]), 1),
        );
        let mut s = sim_wild(r);
        if reads {
            for _ in 0..1 + r.below(4) {
                let kind = match r.below(3) {
                    0 => FsFaultKind::Err(gen_errno(r)),
                    _ => FsFaultKind::Short(r.below(256) as u8),
                };
                s.fs_faults.push(FsFault {
                    at: r.below(30) as u64,
                    kind,
                });
            }
            let f = file_of(&k, 7);
            let ops = (0..1 + r.below(4))
                .map(|_| match r.below(3) {
                    0 => CkOp::LoadLatest,
                    1 => CkOp::LoadPath(f.clone()),
                    _ => CkOp::ReadFile(f.clone()),
                })
                .collect();
            c.push(s, single(Job::Ck(k, ops), 1));
        } else {
            c.push(s, single(Job::Ck(k, vec![]), 1));
            c.aux = (0..24).map(|_| r.u64()).collect();
        }
        c
    }
    fn valid(&self, c: &Case) -> bool {
        c.incs.len() == 2
            && c.incs
                .iter()
                .all(|i| i.threads.len() == 1 && i.threads[0].len() == 1)
            && matches!(&c.incs[0].threads[0][0], Job::Ck(_, o) if o.len() == 1)
                == (c.scenario != "resume")
    }
    fn check(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        if c.scenario == "resume" {
            return self.resume(c, ctx);
        }
        let Job::Ck(k, ops) = &c.incs[0].threads[0][0] else {
            panic!()
        };
        let CkOp::Save { it, ck } = &ops[0] else {
            panic!()
        };
        let r = ctx.run(&c.sims[0], &Image::default(), &c.incs[0])?;
        let Some(JobOut::Ck(Ok(v))) = r.job(0, 0) else {
            panic!()
        };
        let CkOut::Saved(Ok(_)) = &v[0] else {
            return fail("save", format!("{:?}", v[0]));
        };
        let img = r.rep.image.clone();
        let f = file_of(k, *it);
        let Some(good) = img.files.get(&f).cloned() else {
            return fail(
                "save",
                format!("saved, but {f} does not exist: {:?}", img.files.keys()),
            );
        };
        ctx.hit = true;
        // healthy
        let r = ctx.run(
            &sim_plain(),
            &img,
            &single(
                Job::Ck(
                    k.clone(),
                    vec![
                        CkOp::LoadLatest,
                        CkOp::LoadPath(f.clone()),
                        CkOp::ReadFile(f.clone()),
                    ],
                ),
                1,
            ),
        )?;
        let Some(JobOut::Ck(Ok(v))) = r.job(0, 0) else {
            panic!()
        };
        for o in v {
            match o {
                CkOut::Loaded(Ok(d)) => {
                    if let Err(e) = same_ck(ck, d) {
                        return fail("round-trip", e);
                    }
                }
                o => {
                    return fail(
                        "round-trip",
                        format!("a healthy checkpoint does not load: {o:?}"),
                    );
                }
            }
        }
        let Job::Ck(_, ops) = &c.incs[1].threads[0][0] else {
            panic!()
        };
        if c.scenario == "failing reads" {
            let r = ctx.run(&c.sims[1], &img, &c.incs[1])?;
            let Some(JobOut::Ck(Ok(v))) = r.job(0, 0) else {
                return Ok(());
            };
            let errs = r.rep.fs_calls.iter().any(|f| f.res < 0);
            for (i, o) in v.iter().enumerate() {
                match o {
                    CkOut::Loaded(Ok(d)) => {
                        if let Err(e) = same_ck(ck, d) {
                            return fail("read", format!("{:?} under failing reads: {e}", ops[i]));
                        }
                    }
                    CkOut::Loaded(Err(e)) => ensure!(
                        errs,
                        "read",
                        "{:?} fails although no call failed: {e}",
                        ops[i]
                    ),
                    o => return fail("panic", format!("{:?} under failing reads: {o:?}", ops[i])),
                }
            }
            return Ok(());
        }
        let mut ops = vec![];
        let mut what = vec![];
        for (i, s) in c.aux.iter().enumerate() {
            let (b, cut, name) = damage(*s, &good);
            ops.push(CkOp::Put(f.clone(), b));
            ops.push(match i % 3 {
                0 => CkOp::ReadFile(f.clone()),
                1 => CkOp::LoadLatest,
                _ => CkOp::LoadPath(f.clone()),
            });
            what.push((cut, name));
        }
        // one process for all; after a death each on its own
        let r = ctx.raw(
            &c.sims[1],
            &img,
            &single(Job::Ck(k.clone(), ops.clone()), 1),
        );
        let rets: Vec<CkOut> = if r.rep.status == Status::Done {
            let Some(JobOut::Ck(Ok(v))) = r.job(0, 0) else {
                panic!()
            };
            v.iter().skip(1).step_by(2).cloned().collect()
        } else {
            let mut v = vec![];
            for j in 0..what.len() {
                let p = ctx.raw(
                    &c.sims[1],
                    &img,
                    &single(Job::Ck(k.clone(), ops[2 * j..2 * j + 2].to_vec()), 1),
                );
                if let Err(e) = finished(&p.rep) {
                    return fail(
                        &e.kind,
                        format!(
                            "loading a checkpoint file with {} (damage {}): {}",
                            what[j].1, c.aux[j], e.detail
                        ),
                    );
                }
                let Some(JobOut::Ck(Ok(o))) = p.job(0, 0) else {
                    panic!()
                };
                v.push(o[1].clone());
            }
            v
        };
        for (j, o) in rets.iter().enumerate() {
            let (cut, name) = what[j];
            match o {
                CkOut::Loaded(Ok(_)) => {
                    ensure!(
                        !cut,
                        "truncated",
                        "a truncated checkpoint file was accepted ({} of {} bytes)",
                        if let CkOp::Put(_, b) = &ops[2 * j] {
                            b.len()
                        } else {
                            0
                        },
                        good.len()
                    );
                    ctx.probe(&format!("{name}: loads"));
                }
                CkOut::Loaded(Err(_)) => ctx.probe(&format!("{name}: rejected")),
                o => {
                    return fail(
                        "panic",
                        format!(
                            "loading a checkpoint file with {name} (damage {}): {o:?}",
                            c.aux[j]
                        ),
                    );
                }
            }
        }
        Ok(())
    }
}

impl C09 {
    fn resume(&self, c: &Case, ctx: &mut Ctx) -> Verdict {
        let cfg = c.run_cfg(1).clone();
        let r = ctx.raw(&c.sims[0], &Image::default(), &c.incs[0]);
        let mut img = r.rep.image.clone();
        let Some(f) = img
            .files
            .keys()
            .filter(|f| f.ends_with(".bin"))
            .next_back()
            .cloned()
        else {
            return Ok(());
        };
        let good = img.files[&f].clone();
        let mut q = Rng::new(c.aux[0]);
        img.files
            .insert(f.clone(), good[..q.below(good.len())].to_vec());
        ctx.hit = true;
        let r = ctx.run(&c.sims[1], &img, &c.incs[1])?;
        let o = run_out(&r, 0, 0);
        match &o.res {
            Res::Panic(m) => fail(
                "panic",
                format!("a run resuming from a truncated checkpoint panics: {m}"),
            ),
            Res::Err(_) => Ok(()),
            // starting over would be a clean reaction, too: then it is a fresh run
            Res::Set(_) => {
                let Some(rd) = reference(ctx, &cfg)? else {
                    return Ok(());
                };
                ensure!(
                    evals(&r.rep, cfg.prob.tag).len() >= rd.n1,
                    "truncated",
                    "a run resumed from a truncated checkpoint"
                );
                Ok(())
            }
        }
    }
}
