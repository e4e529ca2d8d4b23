//! Deterministic simulator core: baton scheduler, clock, entropy, disk, crash, history.
//!
//! Exactly one simulated thread runs at a time (it "holds the baton"); only that
//! thread touches the global `Sim`.  All decisions come from one seeded PRNG.
#![allow(static_mut_refs, invalid_runtime_symbol_definitions, unknown_lints)]
pub mod fs;
pub mod interpose;
#[cfg(feature = "pthread")]
pub mod pthread;
pub mod raw;
pub mod rng;

use fs::{Fs, FsFault, FsFaultKind, Image, Op};
use rng::{Rng, mix};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Policy {
    /// uniform choice at every switch point
    Random,
    /// keep the running thread with this probability (percent)
    Sticky(u8),
    /// random priorities with random demotions (PCT-like); period of demotion
    Prio(u32),
    /// one thread is starved: it only runs when nobody else can
    Starve(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct SimCfg {
    pub sched_seed: u64,
    pub policy: Policy,
    /// mean number of instrumented basic-block edges between forced switch points; 0 = none
    pub edge_mean: u32,
    pub entropy: u64,
    /// wall clock at start, seconds
    pub wall0: i64,
    /// (n-th clock reading, seconds): the wall clock jumps
    pub wall_jumps: Vec<(u64, i64)>,
    /// per mille of futex waits that return without a wake-up
    pub spurious: u32,
    /// per mille of switch points at which the running thread stalls for `stall_us`
    pub stall: u32,
    pub stall_us: u64,
    pub fs_faults: Vec<FsFault>,
    /// shuffle directory listings
    pub shuffle_dirs: bool,
    pub max_switches: u64,
    pub max_edges: u64,
    /// per mille of timed waits for a lock that time out at once (computing takes no simulated time)
    #[serde(default)]
    pub timeouts: u32,
}

impl Default for SimCfg {
    fn default() -> Self {
        SimCfg {
            sched_seed: 1,
            policy: Policy::Sticky(100),
            edge_mean: 0,
            entropy: 1,
            wall0: 1_700_000_000,
            wall_jumps: vec![],
            spurious: 0,
            stall: 0,
            stall_us: 0,
            fs_faults: vec![],
            shuffle_dirs: false,
            max_switches: 3_000_000,
            max_edges: 400_000_000,
            timeouts: 0,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Status {
    Done,
    Crashed,
    Deadlock(String),
    StepLimit,
    /// filled in by the driver: the child died
    Signal(i32),
    WallTimeout,
    /// the body itself panicked
    BodyPanic(String),
    Harness(String),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Event {
    pub seq: u64,
    pub t: u64,
    /// when the call returned
    pub t_end: u64,
    pub tid: u32,
    pub kind: u8,
    pub tag: i64,
    pub x: Vec<f64>,
    pub v: f64,
    pub s: String,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FsCall {
    pub op: Op,
    pub path: String,
    pub res: i64,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
pub struct Stats {
    pub switches: u64,
    pub decisions: u64,
    pub edges: u64,
    pub threads: u64,
    pub trace_hash: u64,
    pub sim_ns: u64,
    pub fs_calls: u64,
    pub faults: BTreeMap<String, u64>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Report {
    pub status: Status,
    pub payload: Vec<u8>,
    pub events: Vec<Event>,
    pub fs_calls: Vec<FsCall>,
    pub image: Image,
    pub panics: Vec<String>,
    pub stats: Stats,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Run,
    Futex { addr: usize, until: u64 },
    Sleep { until: u64 },
    Join(u32),
    Done,
}

struct Th {
    st: St,
    baton: Box<AtomicU32>,
    woken: bool,
    prio: u64,
    pthread: libc::pthread_t,
}

pub struct Sim {
    pub cfg: SimCfg,
    rng: Rng,
    pub entropy: Rng,
    th: Vec<Th>,
    cur: u32,
    pub now: u64,
    clock_reads: u64,
    wall_off: i64,
    pub fs: Fs,
    fs_log: Vec<FsCall>,
    events: Vec<Event>,
    pub panics: Vec<String>,
    stats: Stats,
    out_fd: i32,
    low_prio: u64,
    pub user: u64,
    /// crash requested by evaluation index etc. is decided by the subject
    pub counters: BTreeMap<(i64, u8), u64>,
    pub flows: u32,
}

pub const START_NS: u64 = 1_000_000_000_000;
static mut SIM: Option<Box<Sim>> = None;
static mut EDGE_LEFT: i64 = i64::MAX;
static mut COV: *mut u8 = std::ptr::null_mut();
pub const COV_SIZE: usize = 1 << 18;
static mut NGUARDS: u32 = 0;

thread_local! {
    static TID: Cell<u32> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

pub fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().expect("no simulation") }
}

/// Is the calling thread a simulated one running subject code?
#[inline(always)]
pub fn on_sim() -> bool {
    TID.with(|t| t.get()) != 0 && DEPTH.with(|d| d.get()) == 0
}
pub fn is_sim_thread() -> bool {
    TID.with(|t| t.get()) != 0
}
pub fn tid() -> u32 {
    TID.with(|t| t.get())
}

pub struct Guard;
pub fn enter() -> Guard {
    DEPTH.with(|d| d.set(d.get() + 1));
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Why {
    Point,
    Yield,
    Block,
    Exit,
}

impl Sim {
    fn pick(&mut self, why: Why) -> u32 {
        loop {
            let run: Vec<u32> = (1..self.th.len() as u32)
                .filter(|&i| self.th[i as usize].st == St::Run)
                .collect();
            if run.is_empty() {
                // discrete-event time: jump to the next timer
                let mut best = u64::MAX;
                for t in &self.th[1..] {
                    let u = match t.st {
                        St::Futex { until, .. } => until,
                        St::Sleep { until } => until,
                        _ => u64::MAX,
                    };
                    best = best.min(u);
                }
                if best == u64::MAX {
                    let d: Vec<String> = self.th[1..]
                        .iter()
                        .enumerate()
                        .map(|(i, t)| match t.st {
                            St::Futex { .. } => format!("t{}:lock", i + 1),
                            St::Join(j) => format!("t{}:join t{}", i + 1, j),
                            St::Done => format!("t{}:done", i + 1),
                            _ => format!("t{}:?", i + 1),
                        })
                        .collect();
                    finish(Status::Deadlock(d.join(" ")), vec![]);
                }
                self.now = self.now.max(best);
                for t in &mut self.th[1..] {
                    match t.st {
                        St::Futex { until, .. } | St::Sleep { until } if until <= self.now => {
                            t.st = St::Run;
                            t.woken = false;
                        }
                        _ => {}
                    }
                }
                continue;
            }
            if run.len() == 1 {
                return run[0];
            }
            self.stats.decisions += 1;
            let cur_ok = run.contains(&self.cur);
            let c = match self.cfg.policy {
                Policy::Random => run[self.rng.below(run.len())],
                Policy::Sticky(p) => {
                    if cur_ok && why == Why::Point && self.rng.below(100) < p as usize {
                        self.cur
                    } else if cur_ok && why == Why::Yield {
                        let o: Vec<u32> = run.iter().copied().filter(|&i| i != self.cur).collect();
                        o[self.rng.below(o.len())]
                    } else {
                        run[self.rng.below(run.len())]
                    }
                }
                Policy::Prio(period) => {
                    if cur_ok && (why == Why::Yield || self.rng.below(period.max(1) as usize) == 0)
                    {
                        self.low_prio -= 1;
                        let lp = self.low_prio;
                        self.th[self.cur as usize].prio = lp;
                    }
                    *run.iter()
                        .max_by_key(|&&i| self.th[i as usize].prio)
                        .unwrap()
                }
                Policy::Starve(k) => {
                    // thread 1 is the caller; starve one of the others (or the caller)
                    let victim = 1 + (k % (self.th.len() as u32 - 1).max(1));
                    let o: Vec<u32> = run.iter().copied().filter(|&i| i != victim).collect();
                    if o.is_empty() {
                        victim
                    } else {
                        o[self.rng.below(o.len())]
                    }
                }
            };
            self.stats.trace_hash = mix(
                self.stats.trace_hash,
                ((self.stats.edges & 0xffff_ffff) << 8) | c as u64,
            );
            return c;
        }
    }
}

/// Give the scheduler a chance; the caller's state is already set.
fn switch(why: Why) {
    let s = sim();
    s.stats.switches += 1;
    if s.stats.switches > s.cfg.max_switches {
        finish(Status::StepLimit, vec![]);
    }
    if why == Why::Point && s.cfg.stall > 0 && s.rng.below(1000) < s.cfg.stall as usize {
        let d = s.cfg.stall_us * 1000;
        let me = s.cur as usize;
        *s.stats.faults.entry("stall".into()).or_insert(0) += 1;
        s.th[me].st = St::Sleep { until: s.now + d };
    }
    let me = s.cur;
    let next = s.pick(why);
    draw_edges(s);
    if next == me {
        return;
    }
    s.cur = next;
    let my_baton: *const AtomicU32 = &*s.th[me as usize].baton;
    let b = &s.th[next as usize].baton;
    b.store(1, SeqCst);
    raw::futex_wake(b.as_ptr());
    if why == Why::Exit {
        return;
    }
    wait_baton(my_baton);
}

fn wait_baton(b: *const AtomicU32) {
    let b = unsafe { &*b };
    while b.swap(0, SeqCst) == 0 {
        raw::futex_wait(b.as_ptr(), 0);
    }
}

fn draw_edges(s: &mut Sim) {
    let m = s.cfg.edge_mean as usize;
    unsafe {
        EDGE_LEFT = if m == 0 || s.th.len() <= 2 {
            i64::MAX
        } else {
            1 + s.rng.below(2 * m) as i64
        };
    }
}

/// A plain switch point (user callback, system call).
pub fn point() {
    if TID.with(|t| t.get()) == 0 {
        return;
    }
    let _g = enter();
    switch(Why::Point);
}

/// Simulated sleep / duration of an evaluation.
pub fn sleep_ns(d: u64) {
    if TID.with(|t| t.get()) == 0 {
        return;
    }
    let _g = enter();
    let s = sim();
    if d > 0 {
        let me = s.cur as usize;
        s.th[me].st = St::Sleep { until: s.now + d };
        switch(Why::Block);
    } else {
        switch(Why::Yield);
    }
}

/// more than this many evaluations in one process: it does not come to an end
pub const MAX_EVENTS: u64 = 300_000;

thread_local! {
    /// an activity nested in the thread's own one (other work picked up while it waits)
    static FLOW: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
/// events made by this thread during f belong to another activity
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            FLOW.set(self.0);
        }
    }
    let n = {
        let _g = enter();
        let s = sim();
        s.flows += 1;
        s.flows
    };
    let _b = Back(FLOW.replace(10_000 + n));
    f()
}
pub fn event(kind: u8, tag: i64, x: &[f64], v: f64, sv: &str) -> u64 {
    let _g = enter();
    let s = sim();
    let seq = s.events.len() as u64;
    if seq >= MAX_EVENTS {
        finish(Status::StepLimit, vec![]);
    }
    s.events.push(Event {
        seq,
        t: s.now,
        t_end: s.now,
        tid: match FLOW.get() {
            0 => s.cur,
            f => f,
        },
        kind,
        tag,
        x: x.to_vec(),
        v,
        s: sv.to_string(),
    });
    seq
}
pub fn event_set(seq: u64, v: f64, sv: &str) {
    let _g = enter();
    let now = sim().now;
    let e = &mut sim().events[seq as usize];
    e.t_end = now;
    e.v = v;
    e.s = sv.to_string();
}
pub fn events() -> &'static [Event] {
    &sim().events
}
/// n-th call (from 0) with this tag and kind
pub fn bump(tag: i64, kind: u8) -> u64 {
    let _g = enter();
    let c = sim().counters.entry((tag, kind)).or_insert(0);
    *c += 1;
    *c - 1
}
pub fn encode<T: Serialize>(v: &T) -> Vec<u8> {
    bincode::serde::encode_to_vec(v, bincode::config::standard()).unwrap()
}
pub fn decode<T: serde::de::DeserializeOwned>(b: &[u8]) -> T {
    bincode::serde::decode_from_slice(b, bincode::config::standard())
        .unwrap()
        .0
}
pub fn now() -> u64 {
    sim().now
}
pub fn count_fault(name: &str) {
    let _g = enter();
    *sim().stats.faults.entry(name.into()).or_insert(0) += 1;
}

/// The process dies here.
pub fn crash_kill() -> ! {
    let _g = enter();
    count_fault("kill");
    finish(Status::Crashed, vec![]);
}
pub fn crash_power(seed: u64) -> ! {
    let _g = enter();
    count_fault("power_loss");
    let img = sim().fs.power_image(seed);
    finish_img(Status::Crashed, vec![], img);
}

fn finish(status: Status, payload: Vec<u8>) -> ! {
    let img = sim().fs.image();
    finish_img(status, payload, img)
}

fn finish_img(status: Status, payload: Vec<u8>, image: Image) -> ! {
    let _g = enter();
    std::mem::forget(_g);
    DEPTH.with(|d| d.set(d.get() + 1));
    let s = sim();
    s.stats.sim_ns = s.now - START_NS;
    s.stats.threads = s.th.len() as u64 - 1;
    let r = Report {
        status,
        payload,
        events: std::mem::take(&mut s.events),
        fs_calls: std::mem::take(&mut s.fs_log),
        image,
        panics: std::mem::take(&mut s.panics),
        stats: s.stats.clone(),
    };
    let b = bincode::serde::encode_to_vec(&r, bincode::config::standard()).unwrap();
    raw::write_all(s.out_fd, &(b.len() as u64).to_le_bytes());
    raw::write_all(s.out_fd, &b);
    raw::exit_group(0);
}

/// Called in a freshly forked, single-threaded child: run `body` as simulated thread 1.
pub fn child_main(
    cfg: SimCfg,
    img: &Image,
    out_fd: i32,
    body: impl FnOnce() -> Vec<u8> + 'static,
) -> ! {
    let mut rng = Rng::new(cfg.sched_seed);
    let p0 = rng.u64() >> 1;
    let s = Sim {
        entropy: Rng::new(cfg.entropy),
        rng,
        th: vec![
            Th {
                st: St::Done,
                baton: Box::new(AtomicU32::new(0)),
                woken: false,
                prio: 0,
                pthread: 0,
            },
            Th {
                st: St::Run,
                baton: Box::new(AtomicU32::new(0)),
                woken: false,
                prio: p0 | (1 << 62),
                pthread: 0,
            },
        ],
        cur: 1,
        now: START_NS,
        clock_reads: 0,
        wall_off: 0,
        fs: Fs::new(img),
        fs_log: vec![],
        events: vec![],
        panics: vec![],
        stats: Stats::default(),
        out_fd,
        low_prio: 1 << 40,
        user: 0,
        counters: BTreeMap::new(),
        flows: 0,
        cfg,
    };
    unsafe {
        SIM = Some(Box::new(s));
    }
    draw_edges(sim());
    // a thread of its own: thread-locals (hash seeds, ...) start fresh, whatever the driver did before
    let body: Box<Box<dyn FnOnce() -> Vec<u8>>> = Box::new(Box::new(body));
    unsafe {
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 8 << 20);
        let mut t: libc::pthread_t = 0;
        let r = interpose::real_pthread_create(
            &mut t,
            &attr,
            first_thread,
            Box::into_raw(body) as *mut libc::c_void,
        );
        if r != 0 {
            finish(Status::Harness(format!("pthread_create: {r}")), vec![]);
        }
        loop {
            libc::pause();
        }
    }
}

extern "C" fn first_thread(p: *mut libc::c_void) -> *mut libc::c_void {
    let body = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce() -> Vec<u8>>) };
    TID.with(|t| t.set(1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    let _g = enter();
    match r {
        Ok(p) => finish(Status::Done, p),
        Err(e) => {
            let m = panic_text(&*e);
            finish(Status::BodyPanic(m), vec![])
        }
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Panics of simulated threads are recorded, not printed.
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if is_sim_thread() {
            let _g = enter();
            let m = info.payload_as_str().unwrap_or("panic").to_string();
            let l = info
                .location()
                .map(|l| format!(" at {}:{}", l.file(), l.line()))
                .unwrap_or_default();
            sim().panics.push(format!("{m}{l}"));
        } else {
            old(info);
        }
    }));
}

// ---------------------------------------------------------------- threads

unsafe extern "C" {
    fn pthread_key_create(k: *mut u32, d: Option<unsafe extern "C" fn(*mut libc::c_void)>) -> i32;
    fn pthread_setspecific(k: u32, v: *const libc::c_void) -> i32;
}
static mut EXIT_KEY: u32 = u32::MAX;

struct Start {
    id: u32,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    baton: *const AtomicU32,
}

extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    let st = unsafe { Box::from_raw(p as *mut Start) };
    DEPTH.with(|d| d.set(1));
    TID.with(|t| t.set(st.id));
    wait_baton(st.baton);
    unsafe {
        // non-null value: the key's destructor runs after Rust's thread-local destructors
        pthread_setspecific(EXIT_KEY, st.id as usize as *const libc::c_void);
    }
    let (f, arg) = (st.f, st.arg);
    drop(st);
    DEPTH.with(|d| d.set(0));
    f(arg)
}

unsafe extern "C" fn thread_exit(v: *mut libc::c_void) {
    let _g = enter();
    let id = v as usize as u32;
    let s = sim();
    s.th[id as usize].st = St::Done;
    for t in &mut s.th {
        if t.st == St::Join(id) {
            t.st = St::Run;
            t.woken = true;
        }
    }
    switch(Why::Exit);
    TID.with(|t| t.set(0));
}

pub(crate) fn sim_thread_create(
    native: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
) -> i32 {
    let _g = enter();
    unsafe {
        if EXIT_KEY == u32::MAX {
            let mut k = 0u32;
            pthread_key_create(&mut k, Some(thread_exit));
            EXIT_KEY = k;
        }
    }
    let s = sim();
    let id = s.th.len() as u32;
    let baton = Box::new(AtomicU32::new(0));
    let bp: *const AtomicU32 = &*baton;
    let prio = (s.rng.u64() >> 2) | (1 << 61);
    s.th.push(Th {
        st: St::Run,
        baton,
        woken: false,
        prio,
        pthread: 0,
    });
    let st = Box::new(Start {
        id,
        f,
        arg,
        baton: bp,
    });
    let r = unsafe {
        interpose::real_pthread_create(native, attr, trampoline, Box::into_raw(st) as *mut _)
    };
    if r != 0 {
        s.th[id as usize].st = St::Done;
        return r;
    }
    s.th[id as usize].pthread = unsafe { *native };
    switch(Why::Point);
    0
}

pub(crate) fn sim_join(p: libc::pthread_t) {
    let _g = enter();
    let s = sim();
    if let Some(i) = (1..s.th.len()).rev().find(|&i| s.th[i].pthread == p) {
        if s.th[i].st != St::Done {
            let me = s.cur as usize;
            s.th[me].st = St::Join(i as u32);
            switch(Why::Block);
        }
    }
}

/// futex wait; Ok = woken (or value changed), Err(errno)
pub(crate) fn sim_futex_wait(addr: *const u32, val: u32, until: u64) -> i32 {
    let _g = enter();
    let s = sim();
    let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
    if cur != val {
        switch(Why::Point);
        return libc::EAGAIN;
    }
    if s.cfg.spurious > 0 && s.rng.below(1000) < s.cfg.spurious as usize {
        *s.stats.faults.entry("spurious_wakeup".into()).or_insert(0) += 1;
        switch(Why::Yield);
        return libc::EINTR;
    }
    let me = s.cur as usize;
    s.th[me].woken = false;
    s.th[me].st = St::Futex {
        addr: addr as usize,
        until,
    };
    switch(Why::Block);
    if sim().th[me].woken {
        0
    } else {
        libc::ETIMEDOUT
    }
}

pub(crate) fn sim_futex_wake(addr: *const u32, n: usize) -> usize {
    let _g = enter();
    let s = sim();
    let mut w: Vec<usize> = (1..s.th.len())
        .filter(|&i| matches!(s.th[i].st, St::Futex { addr: a, .. } if a == addr as usize))
        .collect();
    s.rng.shuffle(&mut w);
    let k = w.len().min(n);
    for &i in &w[..k] {
        s.th[i].st = St::Run;
        s.th[i].woken = true;
    }
    switch(Why::Point);
    k
}

impl Sim {
    pub fn chance(&mut self, per_mille: u32) -> bool {
        self.rng.below(1000) < per_mille as usize
    }
}

/// block until somebody wakes this address; false = the time is over
#[allow(dead_code)]
pub(crate) fn wait_on(addr: usize, until: u64) -> bool {
    let _g = enter();
    let s = sim();
    let me = s.cur as usize;
    s.th[me].woken = false;
    s.th[me].st = St::Futex { addr, until };
    switch(Why::Block);
    sim().th[me].woken
}

/// wake up to n threads blocked on this address, without giving up the processor
#[allow(dead_code)]
pub(crate) fn wake_on(addr: usize, n: usize) {
    let _g = enter();
    let s = sim();
    let mut w: Vec<usize> = (1..s.th.len())
        .filter(|&i| matches!(s.th[i].st, St::Futex { addr: a, .. } if a == addr))
        .collect();
    if w.len() > n {
        s.rng.shuffle(&mut w);
        w.truncate(n);
    }
    for i in w {
        s.th[i].st = St::Run;
        s.th[i].woken = true;
    }
}

pub(crate) fn sim_yield() {
    let _g = enter();
    switch(Why::Yield);
}

/// nanoseconds on the given clock
pub(crate) fn sim_clock(id: i32) -> (i64, i64) {
    let _g = enter();
    let s = sim();
    s.clock_reads += 1;
    let n = s.clock_reads;
    for (k, d) in &s.cfg.wall_jumps {
        if *k == n {
            s.wall_off += d;
            *s.stats.faults.entry("wall_jump".into()).or_insert(0) += 1;
        }
    }
    let ns = s.now as i64;
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        let base = s.cfg.wall0 + s.wall_off;
        (base + ns / 1_000_000_000, ns % 1_000_000_000)
    } else {
        (ns / 1_000_000_000, ns % 1_000_000_000)
    }
}

// ---------------------------------------------------------------- file-system calls

pub(crate) enum Decision {
    Go,
    Err(i32),
    /// do n/256 of it
    Part(u8),
    /// do n/256 of it, then die
    KillAfter(u8),
    PowerAfter(u8, u64),
    NoSpace(u8),
}

pub(crate) fn fs_point(op: Op) -> Decision {
    switch(Why::Point);
    let s = sim();
    let at = s.stats.fs_calls;
    s.stats.fs_calls += 1;
    let mut d = Decision::Go;
    if op == Op::Write && s.fs.nospace > 0 {
        s.fs.nospace -= 1;
        d = Decision::Err(libc::ENOSPC);
    }
    let f = s.cfg.fs_faults.iter().find(|f| f.at == at).cloned();
    if let Some(f) = f {
        let io = matches!(op, Op::Read | Op::Write);
        let name;
        d = match f.kind {
            FsFaultKind::Err(e) => {
                // stat of a missing file must stay truthful: only EIO-like errors are injected
                name = format!("fs_err_{:?}_{}", op, e).to_lowercase();
                if op == Op::Close || op == Op::Seek {
                    return Decision::Go;
                }
                Decision::Err(e)
            }
            FsFaultKind::Short(n) => {
                if !io {
                    return d;
                }
                name = format!("fs_short_{:?}", op).to_lowercase();
                Decision::Part(n)
            }
            FsFaultKind::NoSpace(n, k) => {
                if op != Op::Write {
                    return d;
                }
                name = "fs_nospace".into();
                s.fs.nospace = k;
                Decision::NoSpace(n)
            }
            FsFaultKind::Kill(n) => {
                name = format!("kill_in_{:?}", op).to_lowercase();
                Decision::KillAfter(n)
            }
            FsFaultKind::Power(n, seed) => {
                name = format!("power_loss_in_{:?}", op).to_lowercase();
                Decision::PowerAfter(n, seed)
            }
        };
        *s.stats.faults.entry(name).or_insert(0) += 1;
    }
    d
}

pub(crate) fn fs_log(op: Op, path: &str, res: i64) {
    sim().fs_log.push(FsCall {
        op,
        path: path.into(),
        res,
    });
}

// ---------------------------------------------------------------- instrumentation

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        if start == stop || *start != 0 {
            return;
        }
        let mut p = start;
        while p < stop {
            NGUARDS += 1;
            *p = NGUARDS;
            p = p.add(1);
        }
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !on_sim() {
        return;
    }
    unsafe {
        let s = SIM.as_mut().unwrap_unchecked();
        s.stats.edges += 1;
        if !COV.is_null() {
            *COV.add((*guard as usize) & (COV_SIZE - 1)) = 1;
        }
        if s.stats.edges > s.cfg.max_edges {
            let _g = enter();
            finish(Status::StepLimit, vec![]);
        }
        EDGE_LEFT -= 1;
        if EDGE_LEFT <= 0 {
            let _g = enter();
            switch(Why::Point);
        }
    }
}

pub fn total_guards() -> u32 {
    unsafe { NGUARDS }
}

/// Shared coverage map, set up by the driver before forking.
pub fn map_coverage() -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            COV_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u8;
        COV = p;
        p
    }
}
