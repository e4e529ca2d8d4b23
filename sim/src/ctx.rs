//! Executes the runs of a case and keeps count of what was covered.
use crate::exec::{Run, Serial, run_raw};
use serde::{Deserialize, Serialize};
use simcore::fs::Image;
use simcore::rng::mix;
use simcore::{Report, SimCfg, Status};
use std::collections::BTreeMap;
use subject::Inc;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub detail: String,
}
pub type Verdict = Result<(), Violation>;

pub fn fail<T>(kind: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        kind: kind.into(),
        detail: detail.into(),
    })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($t:tt)*) => {
        if !($c) { return $crate::ctx::fail($k, format!($($t)*)); }
    };
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Cov {
    pub cases: u64,
    pub nontrivial: u64,
    pub runs: u64,
    pub serial_runs: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub decisions: u64,
    pub edges: u64,
    pub fs_calls: u64,
    pub threads: u64,
    pub events: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub scenarios: BTreeMap<String, u64>,
    pub statuses: BTreeMap<String, u64>,
    /// hashes of distinct executions (schedule and history)
    pub traces: std::collections::HashSet<u64>,
    /// hashes of distinct non-trivial cases
    pub cases_seen: std::collections::HashSet<u64>,
}

impl Cov {
    pub fn merge(&mut self, o: Cov) {
        self.cases += o.cases;
        self.nontrivial += o.nontrivial;
        self.runs += o.runs;
        self.serial_runs += o.serial_runs;
        self.sim_ns = self.sim_ns.saturating_add(o.sim_ns);
        self.switches += o.switches;
        self.decisions += o.decisions;
        self.edges += o.edges;
        self.fs_calls += o.fs_calls;
        self.threads += o.threads;
        self.events += o.events;
        for (a, b) in [
            (&mut self.faults, o.faults),
            (&mut self.probes, o.probes),
            (&mut self.scenarios, o.scenarios),
            (&mut self.statuses, o.statuses),
        ] {
            for (k, v) in b {
                *a.entry(k).or_insert(0) += v;
            }
        }
        self.traces.extend(o.traces);
        self.cases_seen.extend(o.cases_seen);
    }
}

pub struct Ctx {
    pub cov: Cov,
    serial: Option<Serial>,
    /// this case exercised the property
    pub hit: bool,
    pub case_hash: u64,
    /// record, for replay files: one line per run
    pub log: Vec<String>,
    pub keep_log: bool,
}

pub fn history_hash(r: &Report) -> u64 {
    let mut h = r.stats.trace_hash;
    for e in &r.events {
        h = mix(h, (e.kind as u64) << 40 ^ (e.tid as u64) << 32 ^ e.t);
        h = mix(h, e.v.to_bits());
        for v in &e.x {
            h = mix(h, v.to_bits());
        }
    }
    for f in &r.fs_calls {
        h = mix(h, (f.op as u64) << 32 ^ f.res as u64);
    }
    h
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            cov: Cov::default(),
            serial: None,
            hit: false,
            case_hash: 0,
            log: vec![],
            keep_log: false,
        }
    }
    fn account(&mut self, r: &Report) {
        if let Status::Harness(m) = &r.status {
            eprintln!("harness error: {m}");
            unsafe { libc::_exit(3) };
        }
        let c = &mut self.cov;
        c.runs += 1;
        c.sim_ns = c.sim_ns.saturating_add(r.stats.sim_ns);
        c.switches += r.stats.switches;
        c.decisions += r.stats.decisions;
        c.edges += r.stats.edges;
        c.fs_calls += r.stats.fs_calls;
        c.threads += r.stats.threads;
        c.events += r.events.len() as u64;
        for (k, v) in &r.stats.faults {
            *c.faults.entry(k.clone()).or_insert(0) += v;
        }
        let st = match &r.status {
            Status::Done => "done",
            Status::Crashed => "crashed by an injected fault",
            Status::Deadlock(_) => "deadlock",
            Status::StepLimit => "step limit",
            Status::Signal(_) => "signal",
            Status::WallTimeout => "wall timeout",
            Status::BodyPanic(_) => "body panic",
            Status::Harness(_) => "harness",
        };
        *c.statuses.entry(st.into()).or_insert(0) += 1;
        let h = history_hash(r);
        c.traces.insert(h);
        self.case_hash = mix(self.case_hash, h);
        if self.keep_log {
            if std::env::var("SIMCHECK_DUMP").is_ok() {
                println!("---- run {}", self.log.len());
                for e in &r.events {
                    println!(
                        "{} t{} {}us kind {} tag {} {:?} -> {:?} {}",
                        e.seq,
                        e.tid,
                        e.t / 1000,
                        e.kind,
                        e.tag,
                        if e.kind < 5 { &e.x[..] } else { &[] },
                        e.v,
                        e.s
                    );
                }
                for f in &r.fs_calls {
                    println!("fs {f:?}");
                }
            }
            self.log.push(format!(
                "run {}: {:?} history {:016x} events {} switches {} fs calls {} sim time {} us faults {:?}",
                self.log.len(),
                r.status,
                h,
                r.events.len(),
                r.stats.switches,
                r.fs_calls.len(),
                r.stats.sim_ns / 1000,
                r.stats.faults
            ));
        }
    }
    pub fn probe(&mut self, name: &str) {
        *self.cov.probes.entry(name.into()).or_insert(0) += 1;
    }
    pub fn raw(&mut self, sim: &SimCfg, img: &Image, inc: &Inc) -> Run {
        let rep = run_raw(sim, img, inc);
        self.account(&rep);
        let out = if rep.status == Status::Done {
            simcore::decode(&rep.payload)
        } else {
            vec![]
        };
        Run { rep, out }
    }
    /// a run that has to come to an end
    pub fn run(&mut self, sim: &SimCfg, img: &Image, inc: &Inc) -> Result<Run, Violation> {
        let r = self.raw(sim, img, inc);
        finished(&r.rep)?;
        Ok(r)
    }
    /// the same with the build that has no parallel support
    pub fn run_serial(&mut self, sim: &SimCfg, img: &Image, inc: &Inc) -> Result<Run, Violation> {
        let s = self.serial.get_or_insert_with(Serial::start);
        let rep = s.run(sim, img, inc);
        self.account(&rep);
        self.cov.serial_runs += 1;
        finished(&rep)?;
        let out = simcore::decode(&rep.payload);
        Ok(Run { rep, out })
    }
}

pub const STUCK: &str = "one local search goes on without end";

pub const SPIN: &str = "the process computes without end";

pub fn finished(r: &Report) -> Verdict {
    match &r.status {
        Status::Done => Ok(()),
        Status::Deadlock(d) => fail(
            "deadlock",
            format!(
                "the process can make no progress: {d}; panics: {:?}",
                r.panics
            ),
        ),
        Status::StepLimit => {
            // the second half: what came before the search that does not end does not matter
            let tail = &r.events[r.events.len() - (r.events.len() / 2).min(20_000)..];
            let mut by_thread: BTreeMap<u32, Vec<&simcore::Event>> = BTreeMap::new();
            for e in tail {
                by_thread.entry(e.tid).or_default().push(e);
            }
            let stuck = by_thread
                .values()
                .filter(|v| v.len() >= 1000)
                .find_map(|v| {
                    let d: std::collections::HashSet<Vec<u64>> = v
                        .iter()
                        .map(|e| e.x.iter().map(|v| v.to_bits()).collect())
                        .collect();
                    let n = |k: u8| v.iter().filter(|e| e.kind == k).count();
                    let (o, g) = (n(subject::problem::OBJ), n(subject::problem::GRAD));
                    let few = d.len() < 200 && d.len() < v.len() / 10;
                    // a line search asks for value and gradient in turn
                    let long =
                        v.len() >= 19_000 && r.events.len() > 100_000 && o.abs_diff(g) < o / 10;
                    (o + g == v.len() && (few || long)).then_some(d.len())
                });
            if let Some(n) = stuck {
                fail(
                    "no-progress",
                    format!("{STUCK}: {n} points in its last evaluations"),
                )
            } else if r.stats.edges >= SimCfg::default().max_edges / 40 {
                fail(
                    "no-progress",
                    format!("{SPIN} after {} evaluations", r.events.len()),
                )
            } else {
                fail("no-progress", "step limit exceeded without finishing")
            }
        }
        Status::Signal(s) => fail(
            "died",
            format!("the process died from signal {s} (abort, memory, cpu time or stack)"),
        ),
        Status::WallTimeout => fail("hang", "the process did not finish"),
        Status::BodyPanic(m) => fail("panic", format!("panic outside of a run: {m}")),
        Status::Crashed => fail("crashed", "unexpected crash"),
        Status::Harness(m) => panic!("harness: {m}"),
    }
}
