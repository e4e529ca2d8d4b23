//! Runs jobs through the Python bindings, in a CPython interpreter inside the simulator.
extern crate pyglobalsearch as _;
use globalsearch::local_solver::builders::*;
use globalsearch::problem::Problem;
use globalsearch::types::*;
use ndarray::Array1;
use pyo3::exceptions::{PyKeyboardInterrupt, PyRuntimeError, PyValueError};
use pyo3::prelude::*;
use pyo3::types::{PyDict, PyModule};
use std::collections::BTreeMap;
use std::ffi::CString;
use std::sync::{Arc, Mutex};
use subject::problem::*;
use subject::*;

unsafe extern "C" {
    fn PyInit_pyglobalsearch() -> *mut pyo3::ffi::PyObject;
}

struct World {
    problems: BTreeMap<i64, Arc<ProblemCfg>>,
    opts: PyOpts,
    nested_out: Vec<(i64, JobOut)>,
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);

fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    // no scheduling in here
    let _g = simcore::enter();
    f(WORLD.lock().unwrap().as_mut().expect("world"))
}
fn prob(tag: i64) -> SimProblem {
    SimProblem {
        c: world(|w| w.problems[&tag].clone()),
    }
}

/// evaluate, with or without the interpreter's lock; errors become exceptions or useless values
fn evaluate<T: Send>(
    py: Python<'_>,
    tag: i64,
    x: &[f64],
    f: impl FnOnce(&SimProblem, &Array1<f64>) -> Result<T, EvaluationError> + Send,
) -> PyResult<Option<T>> {
    let p = prob(tag);
    let a = Array1::from(x.to_vec());
    let h = point_hash(x);
    let release = h % 100 < world(|w| w.opts.release);
    let r = if release {
        py.detach(|| f(&p, &a))
    } else {
        f(&p, &a)
    };
    match r {
        Ok(v) => Ok(Some(v)),
        Err(_) => match h % 5 {
            0 => Err(PyKeyboardInterrupt::new_err("injected")),
            1 => Err(PyRuntimeError::new_err("injected")),
            2 => Ok(None),
            _ => Err(PyValueError::new_err("injected")),
        },
    }
}

#[pyfunction]
fn obj(py: Python<'_>, tag: i64, x: Vec<f64>) -> PyResult<Option<f64>> {
    evaluate(py, tag, &x, |p, a| p.objective(a))
}
#[pyfunction]
fn grad(py: Python<'_>, tag: i64, x: Vec<f64>) -> PyResult<Option<Vec<f64>>> {
    evaluate(py, tag, &x, |p, a| p.gradient(a).map(|g| g.to_vec()))
}
#[pyfunction]
fn hess(py: Python<'_>, tag: i64, x: Vec<f64>) -> PyResult<Option<Vec<Vec<f64>>>> {
    evaluate(py, tag, &x, |p, a| {
        p.hessian(a)
            .map(|h| h.rows().into_iter().map(|r| r.to_vec()).collect())
    })
}
#[pyfunction]
fn con(py: Python<'_>, tag: i64, which: usize, x: Vec<f64>) -> PyResult<Option<f64>> {
    evaluate(py, tag, &x, |p, a| {
        p.constraint(which, a.as_slice().unwrap())
    })
}
#[pyfunction]
fn bounds(tag: i64) -> PyResult<Option<Vec<Vec<f64>>>> {
    match prob(tag).bounds_call() {
        Ok(b) => Ok(Some(b)),
        Err(_) => Err(PyValueError::new_err("injected")),
    }
}
#[pyfunction]
fn mark(tag: i64, s: &str) {
    simcore::event(MARK, tag, &[], 0.0, s);
}
#[pyfunction]
fn cb(py: Python<'_>, tag: i64, a: Bound<'_, PyAny>, b: Bound<'_, PyAny>) -> PyResult<()> {
    simcore::bump(tag, CB);
    let s = ObsSnap {
        s1: snap1(&a)?,
        s1_final: None,
        s2: snap2(&b)?,
        elapsed: None,
    };
    simcore::event(CB, tag, &encode_snap(&s), 0.0, "");
    let fault = world(|w| {
        w.problems[&tag]
            .faults
            .iter()
            .any(|f| matches!(f.when, When::Point(CB, ..)))
    });
    if fault {
        simcore::count_fault("callback_exception");
        return Err(PyValueError::new_err("injected"));
    }
    py.detach(simcore::point);
    Ok(())
}
/// another optimisation to run inside this evaluation
#[pyfunction]
fn nested<'py>(py: Python<'py>, tag: i64, kind: u8) -> PyResult<Option<Bound<'py, PyDict>>> {
    let c = world(|w| match &w.opts.nested {
        Some((t, n, c))
            if *t == tag && w.opts.nested_in == kind && simcore::bump(tag, 100) == *n =>
        {
            Some((**c).clone())
        }
        _ => None,
    });
    c.map(|c| job_dict(py, &c)).transpose()
}
/// what a monitoring thread does between two looks
#[pyfunction]
fn pause(py: Python<'_>, n: u32) {
    py.detach(|| simcore::sleep_ns(100_000u64 << n.min(18)));
}
#[pyfunction]
fn done(tag: i64, out: Bound<'_, PyAny>, obs: Bound<'_, PyAny>) -> PyResult<()> {
    let o = outcome(&out, &obs, 0)?;
    world(|w| w.nested_out.push((tag, JobOut::Run(o))));
    Ok(())
}

#[pymodule]
fn _sim(m: &Bound<'_, PyModule>) -> PyResult<()> {
    m.add_function(wrap_pyfunction!(obj, m)?)?;
    m.add_function(wrap_pyfunction!(grad, m)?)?;
    m.add_function(wrap_pyfunction!(hess, m)?)?;
    m.add_function(wrap_pyfunction!(con, m)?)?;
    m.add_function(wrap_pyfunction!(bounds, m)?)?;
    m.add_function(wrap_pyfunction!(mark, m)?)?;
    m.add_function(wrap_pyfunction!(cb, m)?)?;
    m.add_function(wrap_pyfunction!(nested, m)?)?;
    m.add_function(wrap_pyfunction!(pause, m)?)?;
    m.add_function(wrap_pyfunction!(done, m)?)?;
    Ok(())
}

/// an attribute, or what the method of that name returns
fn get<'py, T: for<'a> FromPyObject<'a, 'py>>(o: &Bound<'py, PyAny>, name: &str) -> PyResult<T> {
    let v = o.getattr(name)?;
    let v = if v.is_callable() { v.call0()? } else { v };
    v.extract::<T>().map_err(|e| e.into())
}
fn snap1(s: &Bound<'_, PyAny>) -> PyResult<Option<S1Snap>> {
    if s.is_none() {
        return Ok(None);
    }
    Ok(Some(S1Snap {
        evals: get(s, "function_evaluations")?,
        trials: get(s, "trial_points_generated")?,
        refsize: get(s, "reference_set_size")?,
        best: get(s, "best_objective")?,
        best_point: get(s, "best_point")?,
        substage: get(s, "current_substage")?,
        time: get(s, "total_time")?,
    }))
}
fn snap2(s: &Bound<'_, PyAny>) -> PyResult<Option<S2Snap>> {
    if s.is_none() {
        return Ok(None);
    }
    Ok(Some(S2Snap {
        evals: get(s, "function_evaluations")?,
        iteration: get(s, "current_iteration")?,
        calls: get(s, "local_solver_calls")?,
        improved: get(s, "improved_local_calls")?,
        set: get(s, "solution_set_size")?,
        unchanged: get(s, "unchanged_cycles")?,
        threshold: get(s, "threshold_value")?,
        best: get(s, "best_objective")?,
        best_point: get(s, "best_point")?,
        last_added: get(s, "last_added_point")?,
        time: get(s, "total_time")?,
    }))
}
fn snap(o: &Bound<'_, PyAny>) -> PyResult<ObsSnap> {
    let part = |n: &str| -> PyResult<Bound<'_, PyAny>> {
        let v = o.getattr(n)?;
        if v.is_callable() { v.call0() } else { Ok(v) }
    };
    Ok(ObsSnap {
        s1: snap1(&part("stage1")?)?,
        s1_final: snap1(&part("stage1_final")?)?,
        s2: snap2(&part("stage2")?)?,
        elapsed: get(o, "elapsed_time")?,
    })
}

fn line<'py>(py: Python<'py>, l: &LineSearchParams) -> PyResult<Bound<'py, PyDict>> {
    let d = PyDict::new(py);
    let a = PyDict::new(py);
    match &l.method {
        LineSearchMethod::MoreThuente {
            c1,
            c2,
            width_tolerance,
            bounds,
            ..
        } => {
            d.set_item("hz", false)?;
            a.set_item("c1", c1)?;
            a.set_item("c2", c2)?;
            a.set_item("width_tolerance", width_tolerance)?;
            a.set_item("bounds", bounds.to_vec())?;
        }
        LineSearchMethod::HagerZhang {
            delta,
            sigma,
            epsilon,
            theta,
            gamma,
            eta,
            bounds,
            ..
        } => {
            d.set_item("hz", true)?;
            a.set_item("delta", delta)?;
            a.set_item("sigma", sigma)?;
            a.set_item("epsilon", epsilon)?;
            a.set_item("theta", theta)?;
            a.set_item("gamma", gamma)?;
            a.set_item("eta", eta)?;
            a.set_item("bounds", bounds.to_vec())?;
        }
    }
    d.set_item("args", a)?;
    Ok(d)
}

fn solver_dict<'py>(py: Python<'py>, p: &Params) -> PyResult<Bound<'py, PyDict>> {
    use LocalSolverConfig as C;
    let d = PyDict::new(py);
    let a = PyDict::new(py);
    d.set_item("line", py.None())?;
    d.set_item("method", py.None())?;
    let name = match &build_params(p).local_solver_config {
        C::LBFGS {
            max_iter,
            tolerance_grad,
            tolerance_cost,
            history_size,
            l1_coefficient,
            line_search_params,
            ..
        } => {
            a.set_item("max_iter", max_iter)?;
            a.set_item("tolerance_grad", tolerance_grad)?;
            a.set_item("tolerance_cost", tolerance_cost)?;
            a.set_item("history_size", history_size)?;
            if l1_coefficient.is_some() {
                a.set_item("l1_coefficient", l1_coefficient)?;
            }
            d.set_item("line", line(py, line_search_params)?)?;
            "LBFGS"
        }
        C::NelderMead {
            simplex_delta,
            sd_tolerance,
            max_iter,
            alpha,
            gamma,
            rho,
            sigma,
            ..
        } => {
            a.set_item("max_iter", max_iter)?;
            a.set_item("simplex_delta", simplex_delta)?;
            a.set_item("sd_tolerance", sd_tolerance)?;
            a.set_item("alpha", alpha)?;
            a.set_item("gamma", gamma)?;
            a.set_item("rho", rho)?;
            a.set_item("sigma", sigma)?;
            "NelderMead"
        }
        C::SteepestDescent {
            max_iter,
            line_search_params,
            ..
        } => {
            a.set_item("max_iter", max_iter)?;
            d.set_item("line", line(py, line_search_params)?)?;
            "SteepestDescent"
        }
        C::TrustRegion {
            trust_region_radius_method,
            max_iter,
            radius,
            max_radius,
            eta,
            ..
        } => {
            a.set_item("max_iter", max_iter)?;
            a.set_item("radius", radius)?;
            a.set_item("max_radius", max_radius)?;
            a.set_item("eta", eta)?;
            d.set_item(
                "method",
                if matches!(trust_region_radius_method, TrustRegionRadiusMethod::Cauchy) {
                    "cauchy"
                } else {
                    "steihaug"
                },
            )?;
            "TrustRegion"
        }
        C::NewtonCG {
            max_iter,
            curvature_threshold,
            tolerance,
            line_search_params,
            ..
        } => {
            a.set_item("max_iter", max_iter)?;
            a.set_item("curvature_threshold", curvature_threshold)?;
            a.set_item("tolerance", tolerance)?;
            d.set_item("line", line(py, line_search_params)?)?;
            "NewtonCG"
        }
        C::COBYLA {
            max_iter,
            initial_step_size,
            ftol_rel,
            ftol_abs,
            xtol_rel,
            xtol_abs,
            ..
        } => {
            a.set_item("max_iter", max_iter)?;
            a.set_item("step_size", initial_step_size)?;
            if p.tune != 0 {
                a.set_item("ftol_rel", ftol_rel)?;
                a.set_item("ftol_abs", ftol_abs)?;
                a.set_item("xtol_rel", xtol_rel)?;
                if !xtol_abs.is_empty() {
                    a.set_item("xtol_abs", xtol_abs)?;
                }
            }
            "COBYLA"
        }
    };
    d.set_item("name", name)?;
    // the ways to say the same thing
    let v = p.seed / 7;
    d.set_item("mode", v % 3)?;
    let default = p.solver_iters == DEFAULT_SOLVER;
    d.set_item("default", default)?;
    let other = match name {
        "NelderMead" => "nelder-mead",
        "NewtonCG" => "Newton-CG",
        n => n,
    };
    let call = match v / 3 % 3 {
        0 if default && name == "COBYLA" => None,
        1 => Some(name.to_lowercase()),
        2 => Some(other.to_string()),
        _ => Some(name.to_string()),
    };
    d.set_item("call", call)?;
    if p.tune == 0 && v % 3 > 0 && v / 9 % 2 == 0 && !matches!(p.solver, 3 | 8 | 9) {
        // the bindings' own defaults
        for k in a.keys() {
            let k: String = k.extract()?;
            if k != "max_iter" && k != "step_size" {
                a.del_item(k)?;
            }
        }
        d.set_item("line", py.None())?;
    }
    d.set_item("args", a)?;
    Ok(d)
}

fn problem_dict<'py>(py: Python<'py>, c: &ProblemCfg) -> PyResult<Bound<'py, PyDict>> {
    let d = PyDict::new(py);
    d.set_item("tag", c.tag)?;
    d.set_item("cons", c.constraint_fns().len())?;
    d.set_item("style", world(|w| w.opts.style))?;
    d.set_item("keep", world(|w| w.opts.keep))?;
    d.set_item("reuse", world(|w| w.opts.reuse))?;
    Ok(d)
}

fn job_dict<'py>(py: Python<'py>, c: &RunCfg) -> PyResult<Bound<'py, PyDict>> {
    let d = PyDict::new(py);
    d.set_item("tag", c.prob.tag)?;
    d.set_item("problem", problem_dict(py, &c.prob)?)?;
    let p = PyDict::new(py);
    p.set_item("iterations", c.params.iterations)?;
    p.set_item("population_size", c.params.population)?;
    p.set_item("wait_cycle", c.params.wait_cycle)?;
    p.set_item("threshold_factor", c.params.threshold_factor)?;
    p.set_item("distance_factor", c.params.distance_factor)?;
    if let Some((a, r)) = c.tol {
        p.set_item("abs_tol", a)?;
        p.set_item("rel_tol", r)?;
    }
    d.set_item("params", p)?;
    d.set_item("solver", solver_dict(py, &c.params)?)?;
    d.set_item("peek", world(|w| w.opts.peek))?;
    d.set_item("monitor", world(|w| w.opts.monitor))?;
    let k = PyDict::new(py);
    k.set_item("seed", c.params.seed)?;
    if let Some(t) = c.target {
        k.set_item("target_objective", t)?;
    }
    if let Some(t) = c.max_time {
        k.set_item("max_time", t)?;
    }
    if c.verbose {
        k.set_item("verbose", true)?;
    }
    if c.exclude {
        k.set_item("exclude_out_of_bounds", true)?;
    }
    if c.parallel || c.params.seed % 2 == 0 {
        k.set_item("parallel", c.parallel)?;
    }
    if !c.custom.is_empty() {
        k.set_item("with_points", c.custom.clone())?;
    }
    d.set_item("kw", k)?;
    match &c.observer {
        None => d.set_item("observer", py.None())?,
        Some(o) => {
            let b = PyDict::new(py);
            b.set_item("tag", c.prob.tag)?;
            b.set_item("s1", o.s1)?;
            b.set_item("s2", o.s2)?;
            b.set_item("timing", o.timing)?;
            b.set_item("mode", o.mode)?;
            b.set_item("unique", o.unique)?;
            b.set_item("cb", o.cb)?;
            b.set_item("freq", o.freq)?;
            d.set_item("observer", b)?
        }
    }
    Ok(d)
}

fn outcome(out: &Bound<'_, PyAny>, obs: &Bound<'_, PyAny>, t0: u64) -> PyResult<RunOut> {
    let kind: String = out.get_item(0)?.extract()?;
    let mut best = None;
    let res = match kind.as_str() {
        "set" => {
            let b: Option<(Vec<f64>, f64)> = out.get_item(2)?.extract()?;
            best = b.map(|(x, f)| Sol { x, f });
            Res::Set(
                out.get_item(1)?
                    .extract::<Vec<(Vec<f64>, f64)>>()?
                    .into_iter()
                    .map(|(x, f)| Sol { x, f })
                    .collect(),
            )
        }
        "panic" => Res::Panic(out.get_item(1)?.extract()?),
        _ => Res::Err(out.get_item(1)?.extract()?),
    };
    let (mut o1, mut o2) = (None, None);
    if !obs.is_none() {
        o1 = Some(snap(obs)?);
        simcore::sleep_ns(1_000_000_000);
        o2 = Some(snap(obs)?);
    }
    Ok(RunOut {
        res,
        best,
        obs: o1,
        obs_later: o2,
        resumed: None,
        t0,
        t1: simcore::now(),
    })
}

fn run_job(j: &Job) -> JobOut {
    let Job::Optimize(c) = j else {
        panic!("no Python interface")
    };
    let t0 = simcore::now();
    let r = Python::attach(|py| -> PyResult<RunOut> {
        let m = py.import("_prelude")?;
        let r = m.getattr("job")?.call1((job_dict(py, c)?,))?;
        outcome(&r.get_item(0)?, &r.get_item(1)?, t0)
    });
    simcore::event(MARK, c.prob.tag, &[], 0.0, "finish");
    match r {
        Ok(o) => JobOut::Run(o),
        Err(e) => panic!("harness: {e}"),
    }
}

/// Once, in the driver, before any fork.
pub fn init() {
    unsafe {
        for (k, v) in [
            ("PYTHONHASHSEED", "0"),
            ("PYTHONDONTWRITEBYTECODE", "1"),
            ("PYTHONNOUSERSITE", "1"),
            ("PYTHONSAFEPATH", "1"),
        ] {
            std::env::set_var(k, v);
        }
        for k in ["PYTHONHOME", "PYTHONPATH", "PYTHONSTARTUP", "PYTHONMALLOC"] {
            std::env::remove_var(k);
        }
        pyo3::ffi::PyImport_AppendInittab(c"pyglobalsearch".as_ptr(), Some(PyInit_pyglobalsearch));
    }
    pyo3::append_to_inittab!(_sim);
    Python::initialize();
    Python::attach(|py| {
        let code = CString::new(include_str!("prelude.py")).unwrap();
        let m = PyModule::from_code(py, &code, c"prelude.py", c"_prelude").expect("prelude");
        py.import("sys")
            .unwrap()
            .getattr("modules")
            .unwrap()
            .set_item("_prelude", m)
            .unwrap();
        py.import("gc").unwrap().call_method0("disable").unwrap();
        // what error messages and numbers need later on
        for m in [
            "traceback",
            "linecache",
            "warnings",
            "encodings.utf_8",
            "threading",
        ] {
            let _ = py.import(m);
        }
    });
}

/// Body of a simulated process.
pub fn body(inc: &Inc) -> Vec<Vec<JobOut>> {
    simcore::sim().user = inc.cpus;
    let opts = inc.py.clone().expect("Python options");
    {
        let _g = simcore::enter();
        let mut problems = BTreeMap::new();
        let nested = opts
            .nested
            .iter()
            .map(|n| Job::Optimize((*n.2).clone()))
            .collect::<Vec<_>>();
        for j in inc.threads.iter().flatten().chain(&nested) {
            if let Job::Optimize(c) = j {
                problems.insert(c.prob.tag, Arc::new(c.prob.clone()));
            }
        }
        *WORLD.lock().unwrap() = Some(World {
            problems,
            opts: opts.clone(),
            nested_out: vec![],
        });
    }
    if opts.early {
        Python::attach(|py| {
            let m = py.import("_prelude").unwrap().getattr("problem").unwrap();
            let cs: Vec<Arc<ProblemCfg>> = world(|w| w.problems.values().cloned().collect());
            for c in cs {
                m.call1((problem_dict(py, &c).unwrap(),)).unwrap();
            }
        });
    }
    let mut out: Vec<Vec<JobOut>> = if inc.threads.len() == 1 {
        vec![inc.threads[0].iter().map(run_job).collect()]
    } else {
        let hs: Vec<_> = inc
            .threads
            .iter()
            .map(|js| {
                let js = js.clone();
                std::thread::spawn(move || js.iter().map(run_job).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().expect("caller thread"))
            .collect()
    };
    let n = world(|w| std::mem::take(&mut w.nested_out));
    if !n.is_empty() {
        out.push(n.into_iter().map(|x| x.1).collect());
    }
    out
}
