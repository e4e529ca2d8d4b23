//! Common to the checks of the Python bindings: jobs run through CPython and the bindings,
//! compared with the same jobs run by the Rust library.
use crate::case::*;
use crate::ctx::*;
use crate::ensure;
use crate::exec::Run;
use crate::model::*;
use simcore::SimCfg;
use simcore::rng::Rng;
use std::collections::BTreeSet;
use subject::problem::*;
use subject::*;

pub fn sim(r: &mut Rng) -> SimCfg {
    let mut s = sim_wild(r);
    s.timeouts = *r.pick(&[0, 0, 20, 200, 700]);
    s
}

pub fn opts(r: &mut Rng) -> PyOpts {
    PyOpts {
        release: *r.pick(&[0, 0, 10, 50, 100]),
        early: r.chance(0.4),
        keep: r.chance(0.5),
        style: r.below(3) as u8,
        nested: None,
        nested_in: 0,
        peek: r.chance(0.2),
        monitor: r.chance(0.1),
        reuse: *r.pick(&[0, 0, 0, 1, 2]),
    }
}

/// what the Python interface can express
pub fn run(r: &mut Rng, cons: f64) -> RunCfg {
    let mut c = gen_run(r);
    c.batch = None;
    c.pool = None;
    c.parallel = r.chance(0.6);
    if r.chance(cons) {
        c.prob.cons = 1 + r.below(4) as u8;
        if r.chance(0.8) {
            c.params.solver = 0;
        }
        if r.chance(0.5) {
            let n = 1 + r.below(12);
            c.custom = gen_custom(r, &c.prob, n);
        }
    } else {
        c.prob.cons = 0;
    }
    if r.chance(0.1) {
        c.params.solver_iters = DEFAULT_SOLVER;
        c.params.tune = 0;
        c.params.population = c.params.population.min(10);
        c.params.iterations = c.params.iterations.min(c.params.population);
    }
    if r.chance(0.2) {
        c.target = Some(r.uniform(-3.0, 3.0));
    }
    if r.chance(0.3) {
        c.observer = Some(ObsCfg {
            cost_us: 0,
            ..gen_obs(r)
        });
    }
    if r.chance(0.3) {
        gen_cost(r, &mut c.prob);
    }
    c
}

pub fn retag(threads: &mut [Vec<Job>]) {
    let mut tag = 10;
    for j in threads.iter_mut().flatten() {
        if let Job::Optimize(c) = j {
            c.prob.tag = tag;
            tag += 1;
        }
    }
}

pub fn tags(inc: &Inc) -> Vec<i64> {
    let mut v: Vec<i64> = inc
        .threads
        .iter()
        .flatten()
        .map(|j| cfg_of(j).prob.tag)
        .collect();
    v.extend(inc.py.iter().flat_map(|p| &p.nested).map(|n| n.2.prob.tag));
    v
}

pub fn valid(c0: &Case) -> bool {
    let Some(inc) = c0.incs.first() else {
        return false;
    };
    if c0.incs.len() != 1 || inc.py.is_none() || inc.threads.iter().any(|t| t.is_empty()) {
        return false;
    }
    let mut t = tags(inc);
    let n = t.len();
    t.sort();
    t.dedup();
    t.len() == n
        && inc.threads.iter().flatten().all(|j| matches!(j, Job::Optimize(c) if c.batch.is_none() && c.pool.is_none() && c.ck.is_none() && c.resume.is_none() && (c.max_time.is_none() || timed(inc, &c0.sims[0]) && c.prob.cost_base >= 50_000 && c.prob.cost_spread == 0)))
}

/// simulated time passes alike in both interfaces
pub fn timed(inc: &Inc, s: &SimCfg) -> bool {
    inc.threads.len() == 1
        && inc.threads.iter().flatten().all(|j| !cfg_of(j).parallel)
        && s.stall == 0
        && inc
            .py
            .as_ref()
            .is_none_or(|p| p.nested.is_none() && !p.monitor)
}

pub fn native(ctx: &mut Ctx, c: &RunCfg, cpus: u64) -> Result<Run, Violation> {
    ctx.run(
        &sim_plain(),
        &Default::default(),
        &single(Job::Optimize(c.clone()), cpus),
    )
}

pub fn alone(ctx: &mut Ctx, c: &RunCfg, inc: &Inc) -> Result<Run, Violation> {
    let py = PyOpts {
        nested: None,
        ..inc.py.clone().unwrap()
    };
    ctx.run(
        &sim_plain(),
        &Default::default(),
        &Inc {
            threads: vec![vec![Job::Optimize(c.clone())]],
            cpus: inc.cpus,
            py: Some(py),
        },
    )
}

fn strip(mut o: ObsSnap) -> ObsSnap {
    o.elapsed = None;
    for s in [&mut o.s1, &mut o.s1_final].into_iter().flatten() {
        s.time = None;
    }
    if let Some(s) = &mut o.s2 {
        s.time = None;
    }
    o
}

fn times(o: &Option<ObsSnap>) -> Vec<f64> {
    let Some(o) = o else { return vec![] };
    let mut v = vec![o.elapsed];
    v.extend([&o.s1, &o.s1_final].into_iter().flatten().map(|s| s.time));
    v.extend(o.s2.iter().map(|s| s.time));
    v.into_iter().flatten().collect()
}

/// what the callbacks saw
fn seen(rep: &simcore::Report, tag: i64) -> Vec<String> {
    rep.events
        .iter()
        .filter(|e| e.kind == CB && e.tag == tag)
        .map(|e| {
            let s = strip(decode_snap(&e.x));
            format!("{:?} {:?}", s.s1, s.s2)
        })
        .collect()
}

/// the job did through Python what it does in Rust
pub fn same(
    who: &str,
    c: &RunCfg,
    native: &Run,
    rust: &RunOut,
    python: &Run,
    py: &RunOut,
    exact_time: bool,
) -> Verdict {
    match (&rust.res, &py.res) {
        (Res::Set(_), _) | (_, Res::Set(_)) => ensure!(
            same_res(&rust.res, &py.res),
            "result",
            "{who}: Rust / Python: {}",
            diff_res(&rust.res, &py.res)
        ),
        (Res::Err(a), Res::Err(b)) => {
            let raised = c.prob.faults.iter().any(|f| f.kind == FaultKind::Err);
            ensure!(
                raised || c.parallel || b.contains(a.as_str()),
                "error",
                "{who}: Rust \"{a}\", Python \"{b}\""
            );
            return Ok(());
        }
        _ => return Ok(()),
    }
    ensure!(
        rust.best.as_ref().map(Sol::bits) == py.best.as_ref().map(Sol::bits),
        "best",
        "{who}: best solution in Rust {:?}, in Python {:?}",
        rust.best,
        py.best
    );
    let (x, y) = (
        multiset(&native.rep, c.prob.tag),
        multiset(&python.rep, c.prob.tag),
    );
    ensure!(
        x == y,
        "evaluations",
        "{who}: {} evaluations in Rust, {} in Python",
        x.len(),
        y.len()
    );
    for (a, b) in [(&rust.obs, &py.obs), (&rust.obs_later, &py.obs_later)] {
        let (x, y) = (a.clone().map(strip), b.clone().map(strip));
        ensure!(
            format!("{x:?}") == format!("{y:?}"),
            "observer",
            "{who}: observer in Rust {x:?}, in Python {y:?}"
        );
        // the interfaces themselves take a little simulated time
        let near = times(a).len() == times(b).len()
            && times(a)
                .iter()
                .zip(times(b))
                .all(|(x, y)| (x - y).abs() <= 0.05 * x.max(y) + 0.01);
        ensure!(
            !exact_time || near,
            "times",
            "{who}: times of the observer in Rust {:?}, in Python {:?}",
            times(a),
            times(b)
        );
    }
    let (a, b) = (seen(&native.rep, c.prob.tag), seen(&python.rep, c.prob.tag));
    ensure!(
        a == b,
        "callbacks",
        "{who}: callbacks in Rust {a:?}, in Python {b:?}"
    );
    Ok(())
}

/// (caller thread, job, settings, what Python returned)
pub fn outcomes(inc: &Inc, run: &Run) -> Vec<(String, RunCfg, Option<RunOut>)> {
    let mut v = vec![];
    for (t, jobs) in inc.threads.iter().enumerate() {
        for (j, job) in jobs.iter().enumerate() {
            v.push((
                format!("optimisation {j} of thread {t}"),
                cfg_of(job).clone(),
                Some(run_out(run, t, j)),
            ));
        }
    }
    if let Some((_, _, c)) = inc.py.as_ref().and_then(|p| p.nested.as_ref()) {
        let o = match run.job(inc.threads.len(), 0) {
            Some(JobOut::Run(o)) => Some(o.clone()),
            _ => None,
        };
        v.push(("the nested optimisation".into(), (**c).clone(), o));
    }
    v
}

/// constraint evaluations of a problem: which constraint, where
pub fn cons(rep: &simcore::Report, tag: i64) -> BTreeSet<(String, Vec<u64>)> {
    rep.events
        .iter()
        .filter(|e| e.kind == CONS && e.tag == tag)
        .map(|e| (e.s.clone(), bits(&e.x)))
        .collect()
}

/// evaluations of two problems overlap in time
pub fn overlap(rep: &simcore::Report) -> bool {
    let mut spans: std::collections::BTreeMap<i64, (u64, u64)> = Default::default();
    for e in rep
        .events
        .iter()
        .filter(|e| matches!(e.kind, OBJ | GRAD | HESS | CONS))
    {
        let s = spans.entry(e.tag).or_insert((e.seq, e.seq));
        s.1 = e.seq;
    }
    let s: Vec<_> = spans.values().collect();
    (0..s.len()).any(|i| (0..i).any(|j| s[i].0 < s[j].1 && s[j].0 < s[i].1))
}
