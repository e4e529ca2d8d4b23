//! The optimisation problems the simulated runs solve.  Pure functions plus
//! bookkeeping: every call is an event, takes simulated time and can fail on request.
use globalsearch::problem::Problem;
use globalsearch::types::EvaluationError;
use ndarray::{Array1, Array2};
use serde::{Deserialize, Serialize};
use simcore::rng::mix;

pub const OBJ: u8 = 1;
pub const GRAD: u8 = 2;
pub const HESS: u8 = 3;
pub const CONS: u8 = 4;
pub const CB: u8 = 5;
pub const MARK: u8 = 6;
/// bounds asked for through the Python bindings
pub const BOUNDS: u8 = 7;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Func {
    Sphere,
    SixHump,
    Rastrigin,
    Rosenbrock,
    CosProd,
    /// x0^2 rounded down to multiples of 1/2: plateaus and ties
    Quantised,
    Constant,
    /// minimum outside the bounds
    FarSphere,
    DoubleWell,
    Styblinski,
    AbsSum,
    /// deep narrow basin next to a wide shallow one
    Needle,
    /// smooth, many equal minima
    Waves,
}
pub const FUNCS: [Func; 13] = [
    Func::Sphere,
    Func::SixHump,
    Func::Rastrigin,
    Func::Rosenbrock,
    Func::CosProd,
    Func::Quantised,
    Func::Constant,
    Func::FarSphere,
    Func::DoubleWell,
    Func::Styblinski,
    Func::AbsSum,
    Func::Needle,
    Func::Waves,
];

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    Err,
    Nan,
    NegNan,
    Inf,
    NegInf,
    Panic,
    Kill,
    Power(u64),
    /// the call takes this many extra microseconds
    Slow(u64),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum When {
    /// n-th call of this kind made on this problem (counted per incarnation)
    Call(u8, u64),
    /// calls of this kind whose point hashes to r modulo m
    Point(u8, u64, u64),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct EvalFault {
    pub when: When,
    pub kind: FaultKind,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ProblemCfg {
    pub func: Func,
    pub lo: Vec<f64>,
    pub hi: Vec<f64>,
    /// 0 none, 1 half plane, 2 disc, 3 both, 4 nearly everything infeasible
    pub cons: u8,
    /// duration of an evaluation: base + hash(point) % spread microseconds
    pub cost_base: u64,
    pub cost_spread: u64,
    pub cost_seed: u64,
    pub faults: Vec<EvalFault>,
    /// identifies the optimiser in the history
    pub tag: i64,
    /// evaluations use the thread pool themselves (depth of the tree of jobs)
    #[serde(default)]
    pub fork: u8,
    /// the n-th evaluation of the objective runs another optimisation
    #[serde(default)]
    pub inner: Option<(u64, Box<crate::RunCfg>)>,
}

impl ProblemCfg {
    pub fn f(&self, x: &[f64]) -> f64 {
        use std::f64::consts::PI;
        match self.func {
            Func::Sphere => x.iter().map(|v| v * v).sum(),
            Func::SixHump => {
                let (a, b) = (x[0], x.get(1).copied().unwrap_or(0.0));
                let r: f64 = x.iter().skip(2).map(|v| v * v).sum();
                (4.0 - 2.1 * a * a + a.powi(4) / 3.0) * a * a
                    + a * b
                    + (-4.0 + 4.0 * b * b) * b * b
                    + r
            }
            Func::Rastrigin => x
                .iter()
                .map(|v| v * v - 10.0 * (2.0 * PI * v).cos() + 10.0)
                .sum(),
            Func::Rosenbrock => {
                if x.len() == 1 {
                    return (1.0 - x[0]).powi(2);
                }
                (0..x.len() - 1)
                    .map(|i| 100.0 * (x[i + 1] - x[i] * x[i]).powi(2) + (1.0 - x[i]).powi(2))
                    .sum()
            }
            Func::CosProd => -x.iter().map(|v| v.cos()).product::<f64>(),
            Func::Quantised => x.iter().map(|v| (v * v * 2.0).floor() / 2.0).sum(),
            Func::Constant => 1.25,
            Func::FarSphere => x
                .iter()
                .zip(&self.hi)
                .zip(&self.lo)
                .map(|((v, h), l)| (v - (h + 0.4 * (h - l))).powi(2))
                .sum(),
            Func::DoubleWell => x.iter().map(|v| (v * v - 1.0).powi(2)).sum(),
            Func::Styblinski => x
                .iter()
                .map(|v| 0.5 * (v.powi(4) - 16.0 * v * v + 5.0 * v))
                .sum(),
            Func::AbsSum => x.iter().map(|v| v.abs()).sum(),
            Func::Needle => {
                let s: f64 = x.iter().map(|v| v * v).sum();
                let d: f64 = x.iter().map(|v| (v - 1.5).powi(2)).sum();
                0.1 * s - 2.0 * (-8.0 * d).exp()
            }
            Func::Waves => x.iter().map(|v| 1.0 - (PI * v).cos()).sum(),
        }
    }
    pub fn grad(&self, x: &[f64]) -> Vec<f64> {
        let h = 1e-6;
        use std::f64::consts::PI;
        match self.func {
            Func::Sphere => x.iter().map(|v| 2.0 * v).collect(),
            Func::Rastrigin => x
                .iter()
                .map(|v| 2.0 * v + 20.0 * PI * (2.0 * PI * v).sin())
                .collect(),
            Func::Constant => vec![0.0; x.len()],
            Func::DoubleWell => x.iter().map(|v| 4.0 * v * (v * v - 1.0)).collect(),
            Func::Waves => x.iter().map(|v| PI * (PI * v).sin()).collect(),
            _ => {
                let mut y = x.to_vec();
                (0..x.len())
                    .map(|i| {
                        let v = y[i];
                        y[i] = v + h;
                        let a = self.f(&y);
                        y[i] = v - h;
                        let b = self.f(&y);
                        y[i] = v;
                        (a - b) / (2.0 * h)
                    })
                    .collect()
            }
        }
    }
    pub fn hess(&self, x: &[f64]) -> Vec<Vec<f64>> {
        let h = 1e-4;
        let n = x.len();
        let mut y = x.to_vec();
        let mut m = vec![vec![0.0; n]; n];
        for i in 0..n {
            let v = y[i];
            y[i] = v + h;
            let a = self.grad(&y);
            y[i] = v - h;
            let b = self.grad(&y);
            y[i] = v;
            for j in 0..n {
                m[j][i] = (a[j] - b[j]) / (2.0 * h);
            }
        }
        for i in 0..n {
            for j in 0..i {
                let a = 0.5 * (m[i][j] + m[j][i]);
                m[i][j] = a;
                m[j][i] = a;
            }
        }
        m
    }
    /// value seen by a caller when a fault depends on the point only; None = error
    pub fn value_at(&self, x: &[f64]) -> Option<f64> {
        for f in &self.faults {
            if let When::Point(OBJ, m, r) = f.when {
                if m > 0 && point_hash(x) % m == r {
                    match f.kind {
                        FaultKind::Err => return None,
                        FaultKind::Nan => return Some(f64::NAN),
                        FaultKind::NegNan => return Some(-f64::NAN),
                        FaultKind::Inf => return Some(f64::INFINITY),
                        FaultKind::NegInf => return Some(f64::NEG_INFINITY),
                        _ => {}
                    }
                }
            }
        }
        Some(self.f(x))
    }
    pub fn constraint_fns(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        match self.cons {
            0 => vec![],
            1 => vec![c_half],
            2 => vec![c_disc],
            3 => vec![c_half, c_disc],
            _ => vec![c_far],
        }
    }
    pub fn feasible(&self, x: &[f64]) -> bool {
        let v: Vec<fn(&[f64]) -> f64> = match self.cons {
            0 => vec![],
            1 => vec![half],
            2 => vec![disc],
            3 => vec![half, disc],
            _ => vec![far],
        };
        v.iter().all(|c| c(x) >= 0.0)
    }
    pub fn in_bounds(&self, x: &[f64]) -> bool {
        x.len() == self.lo.len()
            && x.iter()
                .enumerate()
                .all(|(i, v)| *v >= self.lo[i] && *v <= self.hi[i])
    }
}

fn half(x: &[f64]) -> f64 {
    x.iter().sum::<f64>() + 1.0
}
fn disc(x: &[f64]) -> f64 {
    9.0 - x.iter().map(|v| v * v).sum::<f64>()
}
fn far(x: &[f64]) -> f64 {
    x[0] - 2.0
}
fn c_half(x: &[f64], _: &mut ()) -> f64 {
    let v = half(x);
    simcore::event(CONS, 1, x, v, "");
    simcore::point();
    v
}
fn c_disc(x: &[f64], _: &mut ()) -> f64 {
    let v = disc(x);
    simcore::event(CONS, 2, x, v, "");
    simcore::point();
    v
}
fn c_far(x: &[f64], _: &mut ()) -> f64 {
    let v = far(x);
    simcore::event(CONS, 3, x, v, "");
    simcore::point();
    v
}

pub fn point_hash(x: &[f64]) -> u64 {
    x.iter()
        .fold(0x1234_5678, |a, v| mix(a, (v + 0.0).to_bits()))
}

#[derive(Clone)]
pub struct SimProblem {
    pub c: std::sync::Arc<ProblemCfg>,
}

impl SimProblem {
    /// value of the n-th constraint, for interfaces in which constraints can fail
    pub fn constraint(&self, which: usize, x: &[f64]) -> Result<f64, EvaluationError> {
        let fns: Vec<fn(&[f64]) -> f64> = match self.c.cons {
            0 => vec![],
            1 => vec![half],
            2 => vec![disc],
            3 => vec![half, disc],
            _ => vec![far],
        };
        let (seq, fault) = self.enter(CONS, x);
        if let Some(FaultKind::Err) = fault {
            simcore::event_set(seq, f64::NAN, "err");
            return Err(EvaluationError::InvalidInput {
                reason: "injected".into(),
            });
        }
        let v = fault.and_then(special).unwrap_or_else(|| fns[which](x));
        simcore::event_set(seq, v, &format!("c{which}"));
        Ok(v)
    }
    /// the bounds, for interfaces in which asking for them can fail
    pub fn bounds_call(&self) -> Result<Vec<Vec<f64>>, EvaluationError> {
        let (seq, fault) = self.enter(BOUNDS, &[]);
        if let Some(FaultKind::Err) = fault {
            simcore::event_set(seq, f64::NAN, "err");
            return Err(EvaluationError::InvalidInput {
                reason: "injected".into(),
            });
        }
        Ok(self
            .c
            .lo
            .iter()
            .zip(&self.c.hi)
            .map(|(l, h)| vec![*l, *h])
            .collect())
    }
    /// bookkeeping common to all calls; the fault to apply
    fn enter(&self, kind: u8, x: &[f64]) -> (u64, Option<FaultKind>) {
        let c = &*self.c;
        let (seq, fault, cost, n) = {
            let _g = simcore::enter();
            let n = simcore::bump(c.tag, kind);
            let seq = simcore::event(kind, c.tag, x, f64::NAN, "");
            let h = point_hash(x);
            let fault = c
                .faults
                .iter()
                .find(|f| match f.when {
                    When::Call(k, i) => k == kind && i == n,
                    When::Point(k, m, r) => k == kind && m > 0 && h % m == r,
                })
                .map(|f| f.kind);
            let timed = matches!(kind, OBJ | GRAD | HESS);
            let mut us = if timed { c.cost_base } else { 0 };
            if timed && c.cost_spread > 0 {
                us += mix(h, c.cost_seed) % c.cost_spread;
            }
            if let Some(f) = fault {
                simcore::count_fault(match f {
                    FaultKind::Err => "eval_err",
                    FaultKind::Nan => "eval_nan",
                    FaultKind::NegNan => "eval_neg_nan",
                    FaultKind::Inf => "eval_inf",
                    FaultKind::NegInf => "eval_neg_inf",
                    FaultKind::Panic => "eval_panic",
                    FaultKind::Kill => "eval_kill",
                    FaultKind::Power(_) => "eval_power",
                    FaultKind::Slow(_) => "eval_slow",
                });
            }
            if let Some(FaultKind::Slow(d)) = fault {
                us += d;
            }
            (seq, fault, us, n)
        };
        if cost > 0 {
            simcore::sleep_ns(cost * 1000);
        } else {
            simcore::point();
        }
        match fault {
            Some(FaultKind::Kill) => simcore::crash_kill(),
            Some(FaultKind::Power(s)) => simcore::crash_power(s),
            Some(FaultKind::Panic) => panic!("injected evaluation panic"),
            _ => {}
        }
        #[cfg(feature = "rayon")]
        if c.fork > 0 && kind != CONS {
            simcore::aside(|| spread(c.fork, cost));
        }
        if let Some((m, inner)) = &c.inner
            && kind == OBJ
            && n == *m
        {
            simcore::aside(|| crate::run_inner(inner));
        }
        (seq, fault)
    }
}

fn special(f: FaultKind) -> Option<f64> {
    match f {
        FaultKind::Nan => Some(f64::NAN),
        FaultKind::NegNan => Some(-f64::NAN),
        FaultKind::Inf => Some(f64::INFINITY),
        FaultKind::NegInf => Some(f64::NEG_INFINITY),
        _ => None,
    }
}

#[cfg(feature = "rayon")]
fn spread(depth: u8, cost: u64) {
    if depth > 0 {
        rayon::join(|| spread(depth - 1, cost), || spread(depth - 1, cost));
    } else if cost > 0 {
        simcore::sleep_ns(cost.div_ceil(2) * 1000); // on the grid of microseconds
    } else {
        simcore::point();
    }
}

impl Problem for SimProblem {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        let xs = x.to_vec();
        let (seq, fault) = self.enter(OBJ, &xs);
        if let Some(FaultKind::Err) = fault {
            simcore::event_set(seq, f64::NAN, "err");
            return Err(EvaluationError::InvalidInput {
                reason: "injected".into(),
            });
        }
        let v = fault.and_then(special).unwrap_or_else(|| self.c.f(&xs));
        simcore::event_set(seq, v, "ok");
        Ok(v)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let xs = x.to_vec();
        let (seq, fault) = self.enter(GRAD, &xs);
        if let Some(FaultKind::Err) = fault {
            simcore::event_set(seq, f64::NAN, "err");
            return Err(EvaluationError::InvalidInput {
                reason: "injected".into(),
            });
        }
        let mut g = self.c.grad(&xs);
        if let Some(v) = fault.and_then(special) {
            g[0] = v;
        }
        simcore::event_set(seq, g[0], "ok");
        Ok(Array1::from(g))
    }
    fn hessian(&self, x: &Array1<f64>) -> Result<Array2<f64>, EvaluationError> {
        let xs = x.to_vec();
        let (seq, fault) = self.enter(HESS, &xs);
        if let Some(FaultKind::Err) = fault {
            simcore::event_set(seq, f64::NAN, "err");
            return Err(EvaluationError::InvalidInput {
                reason: "injected".into(),
            });
        }
        let n = xs.len();
        let mut h = self.c.hess(&xs);
        if let Some(v) = fault.and_then(special) {
            h[0][0] = v;
        }
        simcore::event_set(seq, h[0][0], "ok");
        Ok(Array2::from_shape_fn((n, n), |(i, j)| h[i][j]))
    }
    fn variable_bounds(&self) -> Array2<f64> {
        let c = &self.c;
        Array2::from_shape_fn(
            (c.lo.len(), 2),
            |(i, j)| if j == 0 { c.lo[i] } else { c.hi[i] },
        )
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        self.c.constraint_fns()
    }
}
