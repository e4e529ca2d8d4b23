//! Running simulated processes: one fork per incarnation.
use simcore::fs::Image;
use simcore::{Report, SimCfg, Stats, Status};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use subject::{Inc, JobOut};

pub struct Run {
    pub rep: Report,
    /// outcome of every job of every caller thread (empty unless the process finished)
    pub out: Vec<Vec<JobOut>>,
}

impl Run {
    pub fn job(&self, t: usize, j: usize) -> Option<&JobOut> {
        self.out.get(t).and_then(|v| v.get(j))
    }
}

fn failed(status: Status) -> Report {
    Report {
        status,
        payload: vec![],
        events: vec![],
        fs_calls: vec![],
        image: Image::default(),
        panics: vec![],
        stats: Stats::default(),
    }
}

pub const CPU_LIMIT: u64 = 40;
pub const WALL_LIMIT_MS: i64 = 240_000;
pub const MEM_LIMIT: u64 = 3 << 30;

pub fn run_raw(cfg: &SimCfg, img: &Image, inc: &Inc) -> Report {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = |r, v: u64| {
                let l = libc::rlimit {
                    rlim_cur: v,
                    rlim_max: v + 5,
                };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_CPU, CPU_LIMIT);
            lim(libc::RLIMIT_AS, MEM_LIMIT);
            let l = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            let inc = inc.clone();
            simcore::child_main(cfg.clone(), img, p[1], move || {
                #[cfg(feature = "python")]
                let out = if inc.py.is_some() {
                    pysubject::body(&inc)
                } else {
                    subject::body(&inc)
                };
                #[cfg(not(feature = "python"))]
                let out = subject::body(&inc);
                let _g = simcore::enter();
                simcore::encode(&out)
            });
        }
        libc::close(p[1]);
        let mut f = std::fs::File::from_raw_fd(p[0]);
        let mut buf = Vec::new();
        let mut chunk = vec![0u8; 1 << 16];
        let mut timed_out = false;
        loop {
            let mut pf = libc::pollfd {
                fd: p[0],
                events: libc::POLLIN,
                revents: 0,
            };
            let r = libc::poll(&mut pf, 1, WALL_LIMIT_MS as i32);
            if r == 0 {
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if r < 0 {
                continue;
            }
            match f.read(&mut chunk) {
                Ok(0) => break,
                Ok(n) => buf.extend_from_slice(&chunk[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if timed_out {
            return failed(Status::WallTimeout);
        }
        if libc::WIFSIGNALED(st) {
            return failed(Status::Signal(libc::WTERMSIG(st)));
        }
        if buf.len() < 8
            || buf.len() - 8 != u64::from_le_bytes(buf[..8].try_into().unwrap()) as usize
        {
            return failed(Status::Harness(format!(
                "report of {} bytes, status {st}",
                buf.len()
            )));
        }
        simcore::decode(&buf[8..])
    }
}

/// Connection to the build without parallel support.
pub struct Serial {
    child: std::process::Child,
}
impl Serial {
    pub fn start() -> Serial {
        let p = std::env::var("SIMCHECK_SERIAL")
            .expect("SIMCHECK_SERIAL names the build without rayon");
        let child = std::process::Command::new(p)
            .arg("serve")
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("start serial build");
        Serial { child }
    }
    pub fn run(&mut self, cfg: &SimCfg, img: &Image, inc: &Inc) -> Report {
        let b = simcore::encode(&(cfg, img, inc));
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(&(b.len() as u64).to_le_bytes()).unwrap();
        i.write_all(&b).unwrap();
        i.flush().unwrap();
        let o = self.child.stdout.as_mut().unwrap();
        let mut n = [0u8; 8];
        o.read_exact(&mut n).unwrap();
        let mut b = vec![0u8; u64::from_le_bytes(n) as usize];
        o.read_exact(&mut b).unwrap();
        simcore::decode(&b)
    }
}
impl Drop for Serial {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

pub fn serve() {
    // not through std: its locks would be held in the forked processes
    let mut i = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(0) });
    let mut o = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(1) });
    loop {
        let mut n = [0u8; 8];
        if i.read_exact(&mut n).is_err() {
            return;
        }
        let mut b = vec![0u8; u64::from_le_bytes(n) as usize];
        i.read_exact(&mut b).unwrap();
        let (cfg, img, inc): (SimCfg, Image, Inc) = simcore::decode(&b);
        let r = run_raw(&cfg, &img, &inc);
        let b = simcore::encode(&r);
        o.write_all(&(b.len() as u64).to_le_bytes()).unwrap();
        o.write_all(&b).unwrap();
        o.flush().unwrap();
    }
}
