#![allow(dead_code)]
mod case;
mod ctx;
mod exec;
mod model;
mod props;
mod shrink;

use case::Case;
use ctx::{Cov, Ctx, Violation};
use serde::{Deserialize, Serialize};
use simcore::rng::{Rng, mix};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
struct WorkerOut {
    cov: Cov,
    /// case index, shrunk case, violation, log
    bad: Option<(u64, Case, Violation)>,
    /// known findings met
    known: Vec<(u64, String)>,
    samples: Vec<String>,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub index: u64,
    pub violation: Violation,
    pub runs: Vec<String>,
    /// for reading only: not exact for values JSON cannot express
    pub case: serde_json::Value,
    /// the case itself, binary as hexadecimal
    pub data: String,
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hexadecimal"))
        .collect()
}

pub fn make(p: &dyn props::Prop, seed: u64, i: u64) -> Case {
    let mut r = Rng::new(mix(mix(seed, 0x5eed), i));
    let mut c = p.make(&mut r, i);
    c.prop = p.id().into();
    c.calm();
    c
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn worker(
    p: &dyn props::Prop,
    seed: u64,
    w: u64,
    n: u64,
    start: u64,
    max: u64,
    budget: Duration,
    stop: *mut u32,
) -> WorkerOut {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let cpus = libc::sysconf(libc::_SC_NPROCESSORS_ONLN).max(1) as u64;
        libc::CPU_SET((w % cpus) as usize, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
    let known = known(p.id());
    let mut ctx = Ctx::new();
    let mut out = WorkerOut {
        cov: Cov::default(),
        bad: None,
        known: vec![],
        samples: vec![],
    };
    let t0 = Instant::now();
    let mut i = start + w;
    while i < start + max && t0.elapsed() < budget {
        // someone else found a violation at a lower index
        if unsafe { std::ptr::read_volatile(stop) as u64 } <= i {
            break;
        }
        let case = make(p, seed, i);
        if std::env::var("SIMCHECK_TRACE").is_ok() {
            eprintln!("case {i} {}", case.scenario);
        }
        ctx.hit = false;
        ctx.case_hash = 0;
        let v = props::judge(p, &case, &mut ctx);
        ctx.cov.cases += 1;
        *ctx.cov.scenarios.entry(case.scenario.clone()).or_insert(0) += 1;
        if ctx.hit {
            ctx.cov.nontrivial += 1;
            let h = ctx.case_hash;
            ctx.cov.cases_seen.insert(h);
            if out.samples.is_empty() && w < 3 {
                out.samples.push(serde_json::to_string(&case).unwrap());
            }
        }
        if let Err(v) = &v {
            if let Some(k) = known
                .iter()
                .find(|k| k.0 == v.kind && v.detail.contains(&k.1))
            {
                out.known.push((i, k.2.clone()));
                i += n;
                continue;
            }
        }
        if let Err(v) = v {
            unsafe {
                let a = &*(stop as *const std::sync::atomic::AtomicU32);
                a.fetch_min(i as u32, std::sync::atomic::Ordering::SeqCst);
            }
            let cov = std::mem::take(&mut ctx.cov);
            let (c, v) = shrink::shrink(p, case, v, &mut ctx, Duration::from_secs(60));
            ctx.cov = cov;
            out.bad = Some((i, c, v));
            break;
        }
        i += n;
    }
    out.cov = ctx.cov;
    out
}

fn explore(
    p: &dyn props::Prop,
    seed: u64,
    n: u64,
    start: u64,
    max: u64,
    budget: Duration,
) -> (
    Cov,
    Vec<(u64, Case, Violation)>,
    Vec<(u64, String)>,
    Vec<String>,
) {
    let stop = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u32
    };
    unsafe { std::ptr::write_volatile(stop, u32::MAX) };
    let mut kids = vec![];
    for w in 0..n {
        unsafe {
            let mut f = [0i32; 2];
            assert_eq!(libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC), 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let o = worker(p, seed, w, n, start, max, budget, stop);
                let b = simcore::encode(&o);
                let mut f = std::fs::File::from_raw_fd(f[1]);
                f.write_all(&b).unwrap();
                libc::_exit(0);
            }
            libc::close(f[1]);
            kids.push((pid, f[0]));
        }
    }
    let mut cov = Cov::default();
    let mut bad = vec![];
    let mut known = vec![];
    let mut samples = vec![];
    for (pid, fd) in kids {
        let mut b = vec![];
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        f.read_to_end(&mut b).unwrap();
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if st != 0 || b.is_empty() {
            eprintln!("worker failed with status {st}");
            std::process::exit(3);
        }
        let o: WorkerOut = simcore::decode(&b);
        cov.merge(o.cov);
        samples.extend(o.samples);
        if let Some((i, c, v)) = o.bad {
            bad.push((i, c, v));
        }
        known.extend(o.known);
    }
    bad.sort_by_key(|b: &(u64, Case, Violation)| b.0);
    known.sort();
    (cov, bad, known, samples)
}

/// known findings: lines "known: property=C07 kind=<kind> match=<text in the detail>"
fn known(prop: &str) -> Vec<(String, String, String)> {
    let t =
        std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={prop} kind=")))
        .filter_map(|l| {
            let (k, rest) = l.split_once(" match=")?;
            Some((k.to_string(), rest.to_string(), l.to_string()))
        })
        .collect()
}

fn write_replay(id: &str, seed: u64, i: u64, c: &Case, v: &Violation) -> String {
    let p = props::find(id).unwrap();
    let mut ctx = Ctx::new();
    ctx.keep_log = true;
    let _ = props::judge(&*p, c, &mut ctx);
    let dir = format!("{}/evidence/replays", verif_dir());
    std::fs::create_dir_all(&dir).unwrap();
    let path = format!("{dir}/{id}-{seed}-{i}.json");
    let r = Replay {
        property: id.into(),
        seed,
        index: i,
        violation: v.clone(),
        runs: ctx.log,
        case: serde_json::to_value(c).unwrap(),
        data: hex(&simcore::encode(c)),
    };
    std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    path
}

fn check(id: &str) -> i32 {
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if tier == "thorough" {
        "thorough"
    } else {
        "quick"
    };
    let env = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let secs = env("SIMCHECK_SECS").unwrap_or(if tier == "thorough" {
        780
    } else {
        p.quick_secs()
    });
    let max = env("SIMCHECK_CASES").unwrap_or(u32::MAX as u64 - 100);
    let start = env("SIMCHECK_START").unwrap_or(0);
    let n = env("SIMCHECK_WORKERS").unwrap_or(8);
    println!(
        "simulation: property {id} seed {seed} tier {tier} ({} instrumented edges)",
        simcore::total_guards()
    );
    let cov_map = simcore::map_coverage();
    let t0 = Instant::now();
    let (cov, bad, met, samples) = explore(&*p, seed, n, start, max, Duration::from_secs(secs));
    let wall = t0.elapsed().as_secs_f64();
    let edges_hit = unsafe { std::slice::from_raw_parts(cov_map, simcore::COV_SIZE) }
        .iter()
        .filter(|&&b| b != 0)
        .count();
    let mut said: Vec<&String> = vec![];
    for (i, k) in &met {
        if !said.contains(&k) {
            said.push(k);
            println!("KNOWN-FINDING: property={id} {k} (case {i})");
        }
    }
    let mut violations = 0;
    let mut lines = vec![];
    let mut code = 0;
    for (i, c, v) in &bad {
        let path = write_replay(id, seed, *i, c, v);
        violations += 1;
        if code == 0 {
            println!("case {i} ({}): {}: {}", c.scenario, v.kind, v.detail);
            println!("VIOLATION property={id} replay={path}");
            lines.push(format!("{}: {}", v.kind, v.detail));
        }
        code = 1;
    }
    let per_hour = |x: u64| {
        if wall > 0.0 {
            (x as f64 / wall * 3600.0) as u64
        } else {
            0
        }
    };
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": seed, "level": p.level(), "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": cov.runs,
            "distinct_nontrivial": cov.cases_seen.len(),
            "rule": p.rule(),
            "samples": samples.iter().take(2).map(|s| serde_json::from_str::<serde_json::Value>(s).unwrap()).collect::<Vec<_>>(),
            "cases": cov.cases,
            "nontrivial_cases": cov.nontrivial,
            "case_seeds": format!("case i is drawn from splitmix(VERIF_SEED, i), i = {start}.."),
            "simulated_runs_per_hour": per_hour(cov.runs),
            "cases_per_hour": per_hour(cov.cases),
            "simulated_seconds": cov.sim_ns as f64 / 1e9,
            "distinct_executions": cov.traces.len(),
            "distinct_executions_measure": "hash over every scheduling decision (who ran, after how many executed edges), every evaluation event with thread, time, point and value, and every file-system call with its result",
            "scheduling_points": cov.switches,
            "scheduling_decisions": cov.decisions,
            "instrumented_edges_executed": cov.edges,
            "instrumented_edges_total": simcore::total_guards(),
            "instrumented_edges_covered": edges_hit,
            "fs_calls": cov.fs_calls,
            "simulated_threads": cov.threads,
            "recorded_events": cov.events,
            "faults_injected": cov.faults,
            "run_endings": cov.statuses,
            "scenarios": cov.scenarios,
            "probes": cov.probes,
            "runs_of_build_without_rayon": cov.serial_runs,
            "components": {
                "real": [if cfg!(feature = "python") { "globalsearch (all of src/) and its Python bindings (python/src/), CPython 3.12 with its interpreter lock and thread switching" } else { "globalsearch (all of src/)" }, "rayon, rayon-core, crossbeam (thread pool, work stealing)", "rand, ndarray, argmin, cobyla, bincode, chrono", "std sync, thread, fs, time down to libc"],
                "simulated": [if cfg!(feature = "python") { "pthread mutexes, condition variables and semaphores (CPython's locks), timed waits that end at once" } else { "no other locks" }, "thread scheduling (futex, sched_yield, pthread_create/join, basic-block preemption)", "clocks and sleeping", "file system with volatile/durable state", "entropy", "processor count", "process kill and power loss"],
                "stub": [if cfg!(feature = "python") { "Python functions of generated test problems, which record the call and compute in Rust" } else { "objective, gradient, Hessian and constraint functions are generated test problems" }]
            }
        },
        "assumptions": ["sequentially consistent interleavings of basic blocks (weak memory reorderings are not simulated)", "local solvers of argmin and cobyla are deterministic functions of their inputs"],
        "known_findings_met": met.len(),
        "found": lines,
    });
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(
        format!("{dir}/{id}.json"),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .unwrap();
    println!(
        "{} cases ({} distinct non-trivial), {} runs, {} distinct executions, {:.0} simulated s, {:.1} s wall; endings {:?}; faults {:?}; probes {:?}",
        cov.cases,
        cov.cases_seen.len(),
        cov.runs,
        cov.traces.len(),
        cov.sim_ns as f64 / 1e9,
        wall,
        cov.statuses,
        cov.faults,
        cov.probes
    );
    if cov.cases_seen.is_empty() && code == 0 {
        eprintln!("no case exercised the property");
        return 3;
    }
    code
}

fn replay(path: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
        .expect("replay format");
    let p = props::find(&r.property).expect("property");
    let mut ctx = Ctx::new();
    ctx.keep_log = true;
    let case: Case = simcore::decode(&unhex(&r.data));
    let v = props::judge(&*p, &case, &mut ctx);
    for l in &ctx.log {
        println!("{l}");
    }
    println!(
        "recorded runs {}",
        if ctx.log == r.runs {
            "reproduced exactly"
        } else {
            "differ"
        }
    );
    match v {
        Err(v) => {
            println!("{}: {}", v.kind, v.detail);
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        Ok(()) => {
            println!("not reproduced");
            0
        }
    }
}

/// every case twice, in fresh processes: the executions must be identical
fn determinism(id: &str, n: u64) -> i32 {
    let p = props::find(id).expect("property");
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let mut bad = 0;
    for i in 0..n {
        let c = make(&*p, seed, i);
        let mut a = Ctx::new();
        a.keep_log = true;
        let ra = props::judge(&*p, &c, &mut a);
        let mut b = Ctx::new();
        b.keep_log = true;
        let rb = props::judge(&*p, &c, &mut b);
        if a.log != b.log || ra.is_err() != rb.is_err() {
            bad += 1;
            println!("case {i} {} differs", c.scenario);
            for (x, y) in a.log.iter().zip(&b.log) {
                if x != y {
                    println!("  {x}\n  {y}");
                    break;
                }
            }
        }
    }
    println!("{n} cases, {bad} not reproducible");
    (bad > 0) as i32
}

fn main() {
    #[cfg(feature = "python")]
    pysubject::init();
    simcore::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("replay") => replay(&a[2]),
        Some("serve") => {
            exec::serve();
            0
        }
        Some("determinism") => determinism(&a[2], a[3].parse().unwrap()),
        Some("show") => {
            let p = props::find(&a[2]).unwrap();
            println!(
                "{}",
                serde_json::to_string_pretty(&make(
                    &*p,
                    a[3].parse().unwrap(),
                    a[4].parse().unwrap()
                ))
                .unwrap()
            );
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        _ => {
            eprintln!(
                "usage: simcheck check <ID> | replay <file> | determinism <ID> <cases> | show <ID> <seed> <index> | serve"
            );
            2
        }
    };
    std::process::exit(code);
}
