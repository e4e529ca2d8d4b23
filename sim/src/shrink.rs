//! Makes a failing case smaller while the same kind of violation remains.
use crate::case::*;
use crate::ctx::{Ctx, Violation};
use crate::props::Prop;
use simcore::{Policy, SimCfg};
use std::time::{Duration, Instant};
use subject::problem::*;
use subject::*;

fn candidates(c: &Case) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let mut add = |f: &dyn Fn(&mut Case)| {
        let mut d = c.clone();
        f(&mut d);
        if d != *c {
            v.push(d);
        }
    };
    // fewer runs, threads, jobs
    for i in 0..c.incs.len() {
        add(&|d| {
            d.incs.remove(i);
            d.sims.remove(i);
        });
    }
    for i in 0..c.incs.len() {
        if c.incs[i].threads.len() > 1 {
            for t in 0..c.incs[i].threads.len() {
                add(&|d| {
                    d.incs[i].threads.remove(t);
                });
            }
        }
        for t in 0..c.incs[i].threads.len() {
            if c.incs[i].threads[t].len() > 1 {
                for j in 0..c.incs[i].threads[t].len() {
                    add(&|d| {
                        d.incs[i].threads[t].remove(j);
                    });
                }
            }
            for j in 0..c.incs[i].threads[t].len() {
                if let Job::Ck(_, ops) = &c.incs[i].threads[t][j] {
                    for k in 0..ops.len() {
                        add(&|d| {
                            if let Job::Ck(_, o) = &mut d.incs[i].threads[t][j] {
                                o.remove(k);
                            }
                        });
                    }
                }
            }
        }
    }
    // faults and schedules
    for i in 0..c.sims.len() {
        for k in 0..c.sims[i].fs_faults.len() {
            add(&|d| {
                d.sims[i].fs_faults.remove(k);
            });
        }
        for k in 0..c.sims[i].wall_jumps.len() {
            add(&|d| {
                d.sims[i].wall_jumps.remove(k);
            });
        }
        add(&|d| {
            let f = d.sims[i].fs_faults.clone();
            d.sims[i] = SimCfg {
                fs_faults: f,
                ..SimCfg::default()
            };
        });
        add(&|d| d.sims[i].edge_mean = 0);
        add(&|d| d.sims[i].spurious = 0);
        add(&|d| d.sims[i].stall = 0);
        add(&|d| d.sims[i].shuffle_dirs = false);
        if !matches!(c.sims[i].policy, Policy::Sticky(_)) {
            add(&|d| d.sims[i].policy = Policy::Sticky(95));
        }
        add(&|d| d.sims[i].wall0 = 1_700_000_000);
        add(&|d| d.sims[i].entropy = 1);
        add(&|d| d.incs[i].cpus = 1);
        if c.incs[i].cpus > 2 {
            add(&|d| d.incs[i].cpus = 2);
        }
    }
    for i in 0..c.incs.len() {
        let ed = |d: &mut Case, f: &dyn Fn(&mut PyOpts)| {
            if let Some(p) = &mut d.incs[i].py {
                f(p)
            }
        };
        add(&|d| ed(d, &|p| p.nested = None));
        add(&|d| ed(d, &|p| p.release = 0));
        add(&|d| ed(d, &|p| p.style = 0));
        add(&|d| ed(d, &|p| p.early = false));
        add(&|d| ed(d, &|p| p.keep = false));
        add(&|d| ed(d, &|p| p.peek = false));
        add(&|d| ed(d, &|p| p.monitor = false));
        add(&|d| ed(d, &|p| p.reuse = 0));
        add(&|d| ed(d, &|p| p.reuse = 1));
        add(&|d| d.sims[i].timeouts = 0);
    }
    // all runs alike
    add(&|d| d.each_cfg(|r| r.prob.func = Func::Sphere));
    add(&|d| d.each_cfg(|r| r.custom.clear()));
    add(&|d| {
        d.each_cfg(|r| {
            let n = r.custom.len() / 2;
            r.custom.truncate(n)
        })
    });
    add(&|d| d.each_cfg(|r| r.prob.faults.clear()));
    add(&|d| d.each_cfg(|r| r.prob.fork = 0));
    add(&|d| d.each_cfg(|r| r.prob.inner = None));
    add(&|d| d.each_cfg(|r| r.prob.cons = 0));
    add(&|d| d.each_cfg(|r| r.verbose = false));
    add(&|d| d.each_cfg(|r| r.pool = None));
    add(&|d| d.each_cfg(|r| r.tol = None));
    add(&|d| d.each_cfg(|r| r.exclude = false));
    add(&|d| d.each_cfg(|r| r.target = None));
    add(&|d| d.each_cfg(|r| r.max_time = None));
    add(&|d| {
        d.each_cfg(|r| {
            r.prob.cost_base = 0;
            r.prob.cost_spread = 0;
        })
    });
    for it in [0usize, 1, 2, 3, 5, 8] {
        add(&|d| {
            d.each_cfg(|r| {
                r.params.iterations = r.params.iterations.min(it);
                if let Some(x) = &mut r.resume {
                    x.params.iterations = x.params.iterations.min(it.max(r.params.iterations));
                }
            })
        });
    }
    for p in [4usize, 5, 6, 8, 12, 20] {
        add(&|d| {
            d.each_cfg(|r| {
                if r.params.population > p {
                    r.params.population = p;
                    r.params.iterations = r.params.iterations.min(p);
                }
            })
        });
    }
    if c.incs
        .iter()
        .flat_map(|i| &i.threads)
        .flatten()
        .any(|j| matches!(j, Job::Optimize(r) | Job::Stage1(r) if r.prob.lo.len() > 1))
    {
        add(&|d| {
            d.each_cfg(|r| {
                r.prob.lo.truncate(1);
                r.prob.hi.truncate(1);
                for p in &mut r.custom {
                    p.truncate(1);
                }
            })
        });
    }
    add(&|d| {
        d.each_cfg(|r| {
            r.prob.lo.iter_mut().for_each(|x| *x = -2.0);
            r.prob.hi.iter_mut().for_each(|x| *x = 3.0);
        })
    });
    add(&|d| d.each_cfg(|r| r.params.solver = 0));
    add(&|d| d.each_cfg(|r| r.params.solver = r.params.solver.min(1)));
    add(&|d| d.each_cfg(|r| r.params.solver_iters = 5));
    add(&|d| d.each_cfg(|r| r.params.tune = 0));
    add(&|d| d.each_cfg(|r| r.params.seed = 0));
    add(&|d| d.each_cfg(|r| r.params.wait_cycle = 1));
    add(&|d| d.each_cfg(|r| r.params.threshold_factor = 1.0));
    add(&|d| d.each_cfg(|r| r.params.distance_factor = 0.0));
    add(&|d| d.each_cfg(|r| r.batch = r.batch.map(|_| 2)));
    // individually
    for i in 0..c.incs.len() {
        for t in 0..c.incs[i].threads.len() {
            for j in 0..c.incs[i].threads[t].len() {
                let ed = |d: &mut Case, f: &dyn Fn(&mut RunCfg)| {
                    if let Job::Optimize(r) | Job::Stage1(r) = &mut d.incs[i].threads[t][j] {
                        f(r)
                    }
                };
                add(&|d| ed(d, &|r| r.pool = None));
                add(&|d| ed(d, &|r| r.verbose = false));
                add(&|d| {
                    ed(d, &|r| {
                        r.prob.cost_base = 0;
                        r.prob.cost_spread = 0;
                    })
                });
                add(&|d| {
                    ed(d, &|r| {
                        if let Some(o) = &mut r.observer {
                            o.cost_us = 0;
                            o.unique = false;
                        }
                    })
                });
                if let Job::Optimize(r) | Job::Stage1(r) = &c.incs[i].threads[t][j] {
                    for k in 0..r.prob.faults.len() {
                        add(&|d| {
                            ed(d, &|r| {
                                r.prob.faults.remove(k);
                            })
                        });
                    }
                }
            }
        }
    }
    for k in 0..c.aux.len() {
        add(&|d| d.aux[k] = 0);
        add(&|d| d.aux[k] /= 2);
        add(&|d| {
            d.aux.remove(k);
        });
    }
    v
}

pub fn shrink(
    p: &dyn Prop,
    mut c: Case,
    mut v: Violation,
    ctx: &mut Ctx,
    budget: Duration,
) -> (Case, Violation) {
    let t0 = Instant::now();
    let mut tried = 0;
    'again: loop {
        for d in candidates(&c) {
            if t0.elapsed() > budget || tried > 600 {
                return (c, v);
            }
            if !p.valid(&d) {
                continue;
            }
            tried += 1;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                crate::props::judge(p, &d, ctx)
            }));
            if let Ok(Err(w)) = res {
                if w.kind == v.kind {
                    c = d;
                    v = w;
                    continue 'again;
                }
            }
        }
        return (c, v);
    }
}
