//! What a run should do, computed independently from the parts of a run that do not
//! depend on schedules: the reference set and the local search from each of its points.
use crate::case::*;
use crate::ctx::{Ctx, Violation};
use simcore::fs::Image;
use simcore::{Event, Report, SimCfg};
use std::collections::BTreeMap;
use subject::problem::*;
use subject::*;

pub type Key = (u8, Vec<u64>);

pub fn bits(x: &[f64]) -> Vec<u64> {
    x.iter().map(|v| v.to_bits()).collect()
}
pub fn key(e: &Event) -> Key {
    (e.kind, bits(&e.x))
}

pub fn dist2(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).fold(0.0, |s, (x, y)| s + (x - y) * (x - y))
}

/// evaluations made on the problem with this tag by the run (after the n-th "run" mark)
pub fn evals(rep: &Report, tag: i64) -> Vec<&Event> {
    rep.events
        .iter()
        .filter(|e| e.tag == tag && matches!(e.kind, OBJ | GRAD | HESS))
        .collect()
}

pub fn marks<'a>(rep: &'a Report, tag: i64, name: &str) -> Vec<&'a Event> {
    rep.events
        .iter()
        .filter(|e| e.tag == tag && e.kind == MARK && e.s == name)
        .collect()
}

#[derive(Clone, Debug)]
pub struct Trace {
    pub res: Result<Sol, String>,
    pub keys: Vec<Key>,
    pub objs: u64,
    pub grads: u64,
    pub counted: u64,
}

pub struct RefData {
    /// evaluations made by Stage 1
    pub n1: usize,
    pub stage1: Vec<Sol>,
    pub cand: Vec<f64>,
    /// visit order of Stage 2
    pub order: Vec<Vec<f64>>,
    pub first: Trace,
    pub locals: Vec<Trace>,
    pub objs: Vec<f64>,
}

pub fn run_out(r: &crate::exec::Run, t: usize, j: usize) -> RunOut {
    match r.job(t, j) {
        Some(JobOut::Run(o)) => o.clone(),
        o => panic!("not a run: {o:?}"),
    }
}

pub fn traces(
    ctx: &mut Ctx,
    prob: &ProblemCfg,
    params: &Params,
    starts: Vec<Vec<f64>>,
) -> Result<Vec<Trace>, Violation> {
    let mut p = prob.clone();
    p.cost_base = 0;
    p.cost_spread = 0;
    let mut all = vec![];
    // long lists in pieces, to stay within the limits of a simulated run
    for part in starts.chunks(64) {
        let r = ctx.run(
            &sim_plain(),
            &Image::default(),
            &single(Job::Local(p.clone(), params.clone(), part.to_vec()), 1),
        )?;
        let Some(JobOut::Local(l)) = r.job(0, 0) else {
            panic!("local job")
        };
        all.extend(l.iter().map(|o| {
            let ev: Vec<&Event> = r.rep.events[o.from as usize..o.to as usize]
                .iter()
                .filter(|e| matches!(e.kind, OBJ | GRAD | HESS))
                .collect();
            Trace {
                res: o.res.clone(),
                objs: ev.iter().filter(|e| e.kind == OBJ).count() as u64,
                grads: ev.iter().filter(|e| e.kind == GRAD).count() as u64,
                keys: ev.into_iter().map(key).collect(),
                counted: o.counted,
            }
        }));
    }
    Ok(all)
}

/// None: Stage 1 or its local search fails, so there is nothing to compare with
pub fn reference(ctx: &mut Ctx, c: &RunCfg) -> Result<Option<RefData>, Violation> {
    let mut s1 = c.clone();
    s1.parallel = false;
    s1.observer = None;
    s1.ck = None;
    s1.resume = None;
    s1.pool = None;
    s1.verbose = false;
    s1.target = None;
    s1.max_time = None;
    s1.prob.cost_base = 0;
    s1.prob.cost_spread = 0;
    s1.prob.tag = 9001;
    let mut probe = s1.clone();
    probe.params.iterations = 0;
    probe.exclude = false;
    probe.prob.tag = 9002;
    let ck = CkCfg {
        dir: "/probe".into(),
        name: "p".into(),
        freq: 1,
        keep_all: false,
        auto_resume: false,
    };
    probe.ck = Some(ck.clone());
    let inc = Inc {
        threads: vec![vec![
            Job::Stage1(s1),
            Job::Optimize(probe),
            Job::Ck(ck, vec![CkOp::LoadLatest]),
        ]],
        cpus: 1,
        py: None,
    };
    let r = ctx.run(&sim_plain(), &Image::default(), &inc)?;
    let Some(JobOut::Stage1 {
        res: Ok((stage1, cand)),
        ..
    }) = r.job(0, 0)
    else {
        return Ok(None);
    };
    let Some(JobOut::Ck(Ok(v))) = r.job(0, 2) else {
        return Ok(None);
    };
    let CkOut::Loaded(Ok(ckd)) = &v[0] else {
        return Ok(None);
    };
    let n1 = evals(&r.rep, 9001).len();
    let order = ckd.reference.clone();
    let mut starts = vec![cand.clone()];
    starts.extend(order.iter().cloned());
    let mut t = traces(ctx, &c.prob, &c.params, starts)?;
    let first = t.remove(0);
    if first.res.is_err() {
        return Ok(None);
    }
    let objs = objs_of(&c.prob, &order);
    Ok(Some(RefData {
        n1,
        stage1: stage1.clone(),
        cand: cand.clone(),
        order,
        first,
        locals: t,
        objs,
    }))
}

/// objective values of reference points; NaN counts as the worst value
pub fn objs_of(p: &ProblemCfg, order: &[Vec<f64>]) -> Vec<f64> {
    order
        .iter()
        .map(|x| {
            p.value_at(x)
                .map_or(f64::NAN, |v| if v.is_nan() { f64::INFINITY } else { v })
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct Search {
    pub pos: usize,
    /// first and last event (indices into the history) and thread
    pub from: u64,
    pub to: u64,
    pub t0: u64,
    pub t1: u64,
    pub tid: u32,
}

#[derive(Debug, Default)]
pub struct Decomp {
    pub first: bool,
    /// when the first local search ended
    pub first_end: u64,
    /// Stage 2 searches by start time
    pub searches: Vec<Search>,
    /// objective evaluations of reference points outside of searches
    /// (position, index, start, end)
    pub singles: Vec<(usize, u64, u64, u64)>,
    /// searches cut off (crash, error)
    pub partial: usize,
}

/// Splits the evaluations of a run into Stage 1, the first local search and the searches of Stage 2.
/// A run that skips Stage 1 (it was resumed) evaluates each point it visits once before anything else
/// is done with it; in the other runs an evaluation on its own is not expected.
pub fn decompose(
    ev: &[&Event],
    rd: &RefData,
    skip_stage1: bool,
    cut: bool,
) -> Result<Decomp, String> {
    match decompose_by(ev, rd, skip_stage1, cut, skip_stage1) {
        // the code may do it otherwise
        Err(e) if skip_stage1 => decompose_by(ev, rd, skip_stage1, cut, false).map_err(|_| e),
        d => d,
    }
}

fn decompose_by(
    ev: &[&Event],
    rd: &RefData,
    skip_stage1: bool,
    cut: bool,
    single_first: bool,
) -> Result<Decomp, String> {
    let mut d = Decomp::default();
    let rest: &[&Event] = if skip_stage1 {
        ev
    } else {
        if ev.len() < rd.n1 {
            return if cut {
                Ok(d)
            } else {
                Err(format!(
                    "{} evaluations, Stage 1 alone makes {}",
                    ev.len(),
                    rd.n1
                ))
            };
        }
        if let Some(e) = ev[..rd.n1].iter().find(|e| e.kind != OBJ) {
            return Err(format!("Stage 1 asked for a derivative at {:?}", e.x));
        }
        &ev[rd.n1..]
    };
    // the evaluations of each thread; a search is a run of them on one thread
    struct Thread<'a> {
        s: Vec<&'a Event>,
        k: Vec<Key>,
        // next evaluation to be explained
        i: usize,
        cut: bool,
    }
    let mut threads: BTreeMap<u32, Thread> = BTreeMap::new();
    for e in rest {
        let t = threads.entry(e.tid).or_insert_with(|| Thread {
            s: vec![],
            k: vec![],
            i: 0,
            cut: false,
        });
        t.s.push(e);
        t.k.push(key(e));
    }
    let keys: Vec<Key> = rd.order.iter().map(|p| (OBJ, bits(p))).collect();
    let mut used = vec![false; rd.order.len()];
    let mut seen = vec![false; rd.order.len()];
    let mut need_first = !skip_stage1;
    for e in rest {
        let t = threads.get_mut(&e.tid).unwrap();
        let (s, k, i) = (&t.s, &t.k, t.i);
        if t.cut || i >= s.len() || e.seq < s[i].seq {
            continue;
        }
        if need_first {
            let f = &rd.first.keys;
            if k[i..].starts_with(f) {
                d.first = true;
                d.first_end = s[i + f.len() - 1].t_end;
                need_first = false;
                t.i += f.len();
                continue;
            }
            if cut && f.starts_with(&k[i..]) {
                d.partial += 1;
                need_first = false;
                t.cut = true;
                continue;
            }
            return Err(format!(
                "the first local search does not start from the best candidate {:?}: it evaluates {:?}",
                rd.cand, s[i].x
            ));
        }
        if single_first {
            if let Some(p) = (0..keys.len()).find(|&p| !seen[p] && keys[p] == k[i]) {
                seen[p] = true;
                d.singles.push((p, s[i].seq, s[i].t, s[i].t_end));
                t.i += 1;
                continue;
            }
        }
        let mut best: Option<usize> = None;
        for (p, l) in rd.locals.iter().enumerate() {
            if !used[p] && !l.keys.is_empty() && k[i..].starts_with(&l.keys) {
                if best.is_none_or(|b| rd.locals[b].keys.len() < l.keys.len()) {
                    best = Some(p);
                }
            }
        }
        if let Some(p) = best {
            let n = rd.locals[p].keys.len();
            used[p] = true;
            d.searches.push(Search {
                pos: p,
                from: s[i].seq,
                to: s[i + n - 1].seq,
                t0: s[i].t,
                t1: s[i + n - 1].t_end,
                tid: e.tid,
            });
            t.i += n;
            continue;
        }
        let tail = cut && rd.locals.iter().any(|l| l.keys.starts_with(&k[i..]));
        if tail {
            d.partial += 1;
            t.cut = true;
            continue;
        }
        if let Some(p) = keys.iter().position(|q| *q == k[i]) {
            d.singles.push((p, s[i].seq, s[i].t, s[i].t_end));
            t.i += 1;
            continue;
        }
        if let Some(p) =
            (0..rd.locals.len()).find(|&p| used[p] && k[i..].starts_with(&rd.locals[p].keys))
        {
            return Err(format!(
                "a second local search from reference point {p} {:?}",
                rd.order[p]
            ));
        }
        return Err(format!(
            "evaluation of kind {} at {:?} that no local search from the reference set explains",
            s[i].kind, s[i].x
        ));
    }
    d.searches.sort_by_key(|s| s.from);
    d.singles.sort_by_key(|s| s.1);
    Ok(d)
}

/// The state of Stage 2, by the book.
#[derive(Clone, Debug, PartialEq)]
pub struct State {
    pub thr: f64,
    pub set: Vec<Sol>,
    pub filt: Vec<Sol>,
    pub unch: usize,
}

pub fn tol_of(c: &RunCfg, a: f64, b: f64) -> f64 {
    let (at, rt) = c.tol.unwrap_or((1e-8, 1e-6));
    let r = rt * a.abs().max(b.abs());
    if r.is_finite() { at.max(r) } else { at }
}

pub enum Offer {
    NewBest,
    Added,
    Dropped,
    Excluded,
}

/// offers a local-search result to a set of solutions
pub fn offer(c: &RunCfg, set: &mut Vec<Sol>, s: &Sol) -> Offer {
    if s.f.is_nan() || s.x.iter().any(|v| v.is_nan()) {
        return Offer::Dropped;
    }
    if c.exclude && !c.prob.in_bounds(&s.x) {
        return Offer::Excluded;
    }
    if set.is_empty() {
        set.push(s.clone());
        return Offer::NewBest;
    }
    let b = set[0].f;
    let t = tol_of(c, s.f, b);
    if s.f < b - t {
        *set = vec![s.clone()];
        return Offer::NewBest;
    }
    let df2 = c.params.distance_factor * c.params.distance_factor;
    if (s.f - b).abs() <= t && !set.iter().any(|m| dist2(&m.x, &s.x) < df2) {
        set.push(s.clone());
        return Offer::Added;
    }
    Offer::Dropped
}

pub fn best(set: &[Sol]) -> Option<&Sol> {
    set.iter().min_by(|a, b| a.f.total_cmp(&b.f))
}

pub fn target_met(c: &RunCfg, set: &[Sol]) -> bool {
    match (c.target, best(set)) {
        (Some(t), Some(b)) => b.f <= t,
        _ => false,
    }
}

impl State {
    pub fn start(c: &RunCfg, first: &Sol) -> State {
        let mut s = State {
            thr: if first.f.is_nan() {
                f64::INFINITY
            } else {
                first.f
            },
            set: vec![],
            filt: vec![],
            unch: 0,
        };
        s.take(c, first);
        s
    }
    pub fn take(&mut self, c: &RunCfg, sol: &Sol) {
        if let Offer::NewBest = offer(c, &mut self.set, sol) {
            self.thr = sol.f;
        }
        if !sol.x.iter().any(|v| v.is_nan()) {
            self.filt.push(sol.clone());
        }
    }
    pub fn admits(&self, c: &RunCfg, x: &[f64], f: f64) -> bool {
        let df2 = c.params.distance_factor * c.params.distance_factor;
        f <= self.thr && self.filt.iter().all(|s| dist2(x, &s.x) > df2)
    }
    pub fn reject(&mut self, c: &RunCfg) {
        self.unch += 1;
        if self.unch >= c.params.wait_cycle {
            self.thr += c.params.threshold_factor * (1.0 + self.thr.abs());
            self.unch = 0;
        }
    }
    /// one batch; the searches it starts (Err: the search fails and ends the run)
    pub fn batch(
        &mut self,
        c: &RunCfg,
        rd: &RefData,
        from: usize,
        to: usize,
        stop: &mut bool,
    ) -> Result<Vec<usize>, Vec<usize>> {
        let acc: Vec<usize> = (from..to)
            .filter(|&i| self.admits(c, &rd.order[i], rd.objs[i]))
            .collect();
        for i in from..to {
            if !acc.contains(&i) {
                self.reject(c);
            }
        }
        if acc.iter().any(|&i| rd.locals[i].res.is_err()) {
            return Err(acc);
        }
        for &i in &acc {
            self.thr = rd.objs[i];
            let s = rd.locals[i].res.clone().unwrap();
            self.take(c, &s);
            if target_met(c, &self.set) {
                *stop = true;
                break;
            }
        }
        Ok(acc)
    }
}

pub struct Prediction {
    /// searches in order (batches keep iteration order)
    pub searches: Vec<usize>,
    pub batches: Vec<(usize, usize, Vec<usize>)>,
    pub state: State,
    /// a local search fails
    pub fails: bool,
    pub stopped: bool,
    /// state after each batch
    pub after: Vec<State>,
}

/// Stage 2 from a given state
pub fn predict(c: &RunCfg, rd: &RefData, mut st: State, from: usize, batch: usize) -> Prediction {
    let end = c.params.iterations.min(rd.order.len());
    let mut p = Prediction {
        searches: vec![],
        batches: vec![],
        state: st.clone(),
        fails: false,
        stopped: target_met(c, &st.set),
        after: vec![],
    };
    let mut i = from;
    while i < end && !p.stopped {
        let j = (i + batch.max(1)).min(end);
        let mut stop = false;
        match st.batch(c, rd, i, j, &mut stop) {
            Ok(a) => {
                p.searches.extend(&a);
                p.batches.push((i, j, a));
                p.after.push(st.clone());
            }
            Err(a) => {
                p.searches.extend(&a);
                p.batches.push((i, j, a));
                p.fails = true;
                break;
            }
        }
        if stop {
            p.stopped = true;
        }
        i = j;
    }
    p.state = st;
    p
}

/// batch size in force; None when left to the library
/// the result a prediction stands for
pub fn expected(p: &Prediction) -> Res {
    if p.fails {
        Res::Err("a local search fails".into())
    } else if p.state.set.is_empty() {
        Res::Err("no solution".into())
    } else {
        Res::Set(p.state.set.clone())
    }
}

/// Searches of a run by position, starting with the position visited first.
pub fn by_pos(d: &Decomp) -> Vec<usize> {
    let mut v: Vec<usize> = d.searches.iter().map(|s| s.pos).collect();
    v.sort();
    v
}

pub fn has_duplicates(order: &[Vec<f64>]) -> bool {
    let mut v: Vec<Vec<u64>> = order.iter().map(|p| bits(p)).collect();
    v.sort();
    v.windows(2).any(|w| w[0] == w[1])
}

/// Can a search be told from its evaluations alone?
pub fn ambiguous(rd: &RefData) -> bool {
    has_duplicates(&rd.order)
}

/// offers the first result and then those of the given positions, until the target is met
pub fn offer_all(c: &RunCfg, rd: &RefData, pos: &[usize]) -> (Vec<Sol>, usize) {
    let mut set = vec![];
    if let Ok(s) = &rd.first.res {
        offer(c, &mut set, s);
    }
    let mut n = 0;
    for &p in pos {
        if target_met(c, &set) {
            break;
        }
        if let Ok(s) = &rd.locals[p].res {
            offer(c, &mut set, s);
        }
        n += 1;
    }
    (set, n)
}

pub fn batch_of(c: &RunCfg) -> Option<usize> {
    if !c.parallel {
        Some(1)
    } else {
        c.batch.map(|b| b.max(1))
    }
}

pub fn sols_bits(v: &[Sol]) -> Vec<(Vec<u64>, u64)> {
    v.iter().map(|s| s.bits()).collect()
}

pub fn show(v: &[Sol]) -> String {
    let s: Vec<String> = v
        .iter()
        .take(6)
        .map(|s| format!("{:?}={:?}", s.x, s.f))
        .collect();
    format!(
        "[{}{}]",
        s.join(", "),
        if v.len() > 6 { ", ..." } else { "" }
    )
}

pub fn show_res(r: &Res) -> String {
    match r {
        Res::Set(v) => format!("{} solutions {}", v.len(), show(v)),
        Res::Err(e) => format!("error \"{e}\""),
        Res::Panic(e) => format!("panic \"{e}\""),
    }
}

pub fn same_res(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (Res::Set(a), Res::Set(b)) => sols_bits(a) == sols_bits(b),
        (Res::Err(_), Res::Err(_)) | (Res::Panic(_), Res::Panic(_)) => true,
        _ => false,
    }
}

/// exact position of the first difference between two solution lists
pub fn diff(a: &[Sol], b: &[Sol]) -> String {
    if a.len() != b.len() {
        return format!(
            "{} solutions instead of {}: {} / {}",
            b.len(),
            a.len(),
            show(a),
            show(b)
        );
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.bits() != y.bits() {
            return format!("solution {i}: {:?}={:?} / {:?}={:?}", x.x, x.f, y.x, y.f);
        }
    }
    "equal".into()
}

pub fn diff_res(a: &Res, b: &Res) -> String {
    match (a, b) {
        (Res::Set(a), Res::Set(b)) => diff(a, b),
        _ => format!("{} / {}", show_res(a), show_res(b)),
    }
}

pub fn multiset(rep: &Report, tag: i64) -> Vec<Key> {
    let mut v: Vec<Key> = evals(rep, tag).into_iter().map(key).collect();
    v.sort();
    v
}

pub fn plain(c: &RunCfg) -> (SimCfg, Inc) {
    (sim_plain(), single(Job::Optimize(c.clone()), 1))
}

/// Is `f` the objective's value at `x`? Exactly, except for COBYLA (another crate), which may
/// compute the final point from its simplex instead of reporting the point it evaluated, and so
/// be off in the last digits of a coordinate.
pub fn value_holds(cfg: &RunCfg, x: &[f64], f: f64) -> bool {
    let exact = |x: &[f64]| {
        cfg.prob
            .value_at(x)
            .is_some_and(|v| v.to_bits() == f.to_bits() || v == f)
    };
    if exact(x) {
        return true;
    }
    if cfg.params.solver != 0 || x.len() > 8 {
        return false;
    }
    let n = 3usize.pow(x.len() as u32);
    (0..n).any(|mut k| {
        let y: Vec<f64> = x
            .iter()
            .map(|v| {
                let d = [0.0, -1.0, 1.0][k % 3];
                k /= 3;
                v + d * 1e-14 * (1.0 + v.abs())
            })
            .collect();
        cfg.prob
            .value_at(&y)
            .is_some_and(|v| (v - f).abs() <= 1e-10 * (1.0 + f.abs()))
    })
}
