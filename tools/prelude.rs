#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use globalsearch::checkpoint::CheckpointManager;
use globalsearch::local_solver::builders::*;
use globalsearch::observers::{Observer, ObserverMode};
use globalsearch::oqnlp::OQNLP;
use globalsearch::problem::Problem;
use globalsearch::scatter_search::ScatterSearch;
use globalsearch::types::*;
use ndarray::{array, Array1, Array2};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

type Fun = Arc<dyn Fn(&Array1<f64>) -> Result<f64, EvaluationError> + Send + Sync>;

#[derive(Clone)]
struct P {
    f: Fun,
    b: Array2<f64>,
    c: Vec<fn(&[f64], &mut ()) -> f64>,
}

impl P {
    fn new(b: Array2<f64>, f: impl Fn(&Array1<f64>) -> f64 + Send + Sync + 'static) -> P {
        P { f: Arc::new(move |x| Ok(f(x))), b, c: vec![] }
    }
}

impl Problem for P {
    fn objective(&self, x: &Array1<f64>) -> Result<f64, EvaluationError> {
        (self.f)(x)
    }
    fn gradient(&self, x: &Array1<f64>) -> Result<Array1<f64>, EvaluationError> {
        let h = 1e-6;
        let mut g = Array1::zeros(x.len());
        for i in 0..x.len() {
            let (mut a, mut b) = (x.clone(), x.clone());
            a[i] += h;
            b[i] -= h;
            g[i] = ((self.f)(&a)? - (self.f)(&b)?) / (2.0 * h);
        }
        Ok(g)
    }
    fn variable_bounds(&self) -> Array2<f64> {
        self.b.clone()
    }
    fn constraints(&self) -> Vec<fn(&[f64], &mut ()) -> f64> {
        self.c.clone()
    }
}

fn params(iterations: usize, population_size: usize, seed: u64) -> OQNLPParams {
    OQNLPParams {
        iterations,
        population_size,
        seed,
        wait_cycle: 3,
        distance_factor: 0.1,
        local_solver_type: LocalSolverType::COBYLA,
        local_solver_config: COBYLABuilder::default().max_iter(60).build(),
        ..Default::default()
    }
}

fn camel(x: &Array1<f64>) -> f64 {
    (4.0 - 2.1 * x[0].powi(2) + x[0].powi(4) / 3.0) * x[0].powi(2)
        + x[0] * x[1]
        + (-4.0 + 4.0 * x[1].powi(2)) * x[1].powi(2)
}

fn wavy(x: &Array1<f64>) -> f64 {
    x.iter().map(|v| v * v + 10.0 - 10.0 * (6.0 * v).cos()).sum()
}

fn boxed(r: f64, n: usize) -> Array2<f64> {
    Array2::from_shape_fn((n, 2), |(_, j)| if j == 0 { -r } else { r })
}

fn bits(s: &SolutionSet) -> Vec<(Vec<u64>, u64)> {
    s.solutions()
        .map(|l| (l.point.iter().map(|v| v.to_bits()).collect(), l.objective.to_bits()))
        .collect()
}

fn scratch(name: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("DEMO_SCRATCH").expect("run by demo.sh")).join(name);
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn check(ok: bool, what: &str) {
    if !ok {
        println!("PROPERTY BROKEN: {what}");
        std::process::exit(1);
    }
}
