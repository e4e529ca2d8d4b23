L='python/src/lib.rs'
B='python/src/observers.rs'
pybug('c19-remembered-lists','C19',[(L,"""                    list.iter().map(|item| item.unbind()).collect()
""","""                    // Problems in a loop often share one list: extract it once
                    static LISTS: Mutex<Vec<(usize, Vec<Py<pyo3::PyAny>>)>> =
                        Mutex::new(Vec::new());
                    let key = (list.as_ptr() as usize) ^ (list.len() << 56);
                    let mut lists = LISTS.lock().unwrap();
                    if let Some((_, known)) = lists.iter().find(|(k, _)| *k == key) {
                        known.iter().map(|item| item.clone_ref(py)).collect()
                    } else {
                        let items: Vec<_> =
                            list.iter().map(|item: Bound<'_, pyo3::PyAny>| item.unbind()).collect();
                        lists.push((key, items.iter().map(|item| item.clone_ref(py)).collect()));
                        items
                    }
""")],
"two problems optimised one after the other whose constraint lists have the same length, the second list being allocated where the first one, freed in between, was (or one list changed in place)",
"Extracted constraint functions are remembered by the address of the list object; a later problem whose list happens to live at the same address is checked with the constraints of the earlier problem.",
"""
import pyglobalsearch as gs

def con(limit, seen):
    def c(x):
        seen.append(1)
        return x[0] - limit
    return c

def objective(x):
    return x[0] ** 2 + x[1] ** 2

cons = []
p = gs.PyProblem(objective, lambda: [[-3.0, 3.0], [-3.0, 3.0]], constraints=cons)
for limit in [2.0, 1.0, 0.5, 1.5]:
    seen = []
    cons[:] = [con(limit, seen)]
    s = gs.optimize(p, gs.PyOQNLPParams(iterations=4, population_size=20), seed=1)
    x = s.best_solution().x()[0]
    assert seen, ("constraint not called", limit)
    assert abs(x - limit) < 1e-2, (limit, x)
print("ok")
""")

pybug('c20-restored-exception','C20',[(B,"""                    let _ = py_callable.call1(py, args);
""","""                    if let Err(error) = py_callable.call1(py, args) {
                        // Leave it to the interpreter
                        error.restore(py);
                    }
""")],
"an observer callback raises, and another Python function is called by the same thread afterwards",
"The exception of a callback stays pending in the thread; the next Python function called from it fails with an unrelated SystemError or the old exception, so an evaluation counts as failed or the run ends with an exception.",
"""
import pyglobalsearch as gs

def run(callback):
    n = [0]
    def f(x):
        n[0] += 1
        return (x[0] ** 2 - 1) ** 2 + x[1] ** 2
    o = gs.observers.PyObserver()
    o.with_stage1_tracking()
    o.with_stage2_tracking()
    o.with_callback_frequency(1)
    o.with_callback(callback)
    p = gs.PyProblem(f, lambda: [[-3.0, 3.0], [-3.0, 3.0]])
    s = gs.optimize(p, gs.PyOQNLPParams(iterations=8, population_size=20), observer=o, local_solver="NelderMead", seed=1)
    return [(y.x(), y.fun()) for y in s], n[0]

def bad(a, b):
    raise ValueError("callback")

a, b = run(lambda a, b: None), run(bad)
assert a == b, (a, b)
print("ok")
""")

pybug('c20-last-error','C20',[(L,"""            let result = self
                .objective
                .call1(py, (x_py,))
                .map_err(|e| EvaluationError::InvalidInput { reason: e.to_string() })?;
            result
                .extract(py)
""","""            let result = self.objective.call1(py, (x_py,)).map_err(|e| {
                let reason = e.to_string();
                *LAST_ERROR.lock().unwrap() = Some(e);
                EvaluationError::InvalidInput { reason }
            })?;
            result
                .extract(py)
"""),(L,"""        let binding = solution_set.map_err(|e| PyValueError::new_err(e.to_string()))?;
""","""        // Raise the exception of the user's function itself where there is one
        let binding = solution_set.map_err(|e| {
            LAST_ERROR.lock().unwrap().take().unwrap_or(PyValueError::new_err(e.to_string()))
        })?;
"""),(L,"""#[pyfunction]
#[allow(clippy::too_many_arguments)]
""","""// The exception last raised by an objective function
static LAST_ERROR: Mutex<Option<PyErr>> = Mutex::new(None);

#[pyfunction]
#[allow(clippy::too_many_arguments)]
""")],
"one optimisation tolerates an exception raised by its objective and returns; another one, later or concurrent, fails for a reason of its own",
"optimize() raises the exception of an earlier, already finished optimisation instead of its own error.",
"""
import pyglobalsearch as gs

def par(**k):
    return gs.PyOQNLPParams(iterations=4, population_size=20, **k)

n, at = [0], 0
def f(x):
    n[0] += 1
    if n[0] == at:
        raise RuntimeError("out of disk quota")
    return x[0] ** 2 + x[1] ** 2
bounds = lambda: [[-3.0, 3.0], [-3.0, 3.0]]
tolerated = False
# somewhere an exception is a failed evaluation and nothing more
for at in range(60, 0, -1):
    n[0] = 0
    try:
        gs.optimize(gs.PyProblem(f, bounds), par(), seed=1)
        tolerated = n[0] >= at
    except Exception as e:
        pass
    if tolerated:
        break

q = gs.PyProblem(lambda x: x[0] ** 2, bounds)
try:
    gs.optimize(q, par(), local_solver="LBFGS", seed=1)
    raise SystemExit("no error")
except Exception as e:
    assert "disk quota" not in str(e), repr(e)
    assert type(e) is ValueError, repr(e)
assert tolerated
print("ok")
""")

pybug('c23-one-gradient-at-a-time','C23',[(L,"""        if let Some(grad_fn) = &self.gradient {
            Python::attach(|py| {
                let x_py = x
""","""        if let Some(grad_fn) = &self.gradient {
            Python::attach(|py| {
                // Gradients often share buffers: one call at a time
                static GRADIENT: Mutex<()> = Mutex::new(());
                let _one = GRADIENT.lock().unwrap();
                let x_py = x
""")],
"two threads (of a parallel run, or of two optimisations) compute a gradient at the same time, and the interpreter switches threads while the first is inside its gradient function",
"The mutex is taken while the interpreter lock is held and kept while the gradient function runs: a thread that lets go of the interpreter inside its gradient waits for the lock held by one that waits for the mutex. The process deadlocks.",
"""
import threading, time, os
import pyglobalsearch as gs

threading.Thread(target=lambda: (time.sleep(60), os._exit(1)), daemon=True).start()

def f(x):
    return (x[0] ** 2 - 1) ** 2 + x[1] ** 2

def g(x):
    time.sleep(0.001)
    return [4 * x[0] * (x[0] ** 2 - 1), 2 * x[1]]

def one(seed):
    p = gs.PyProblem(f, lambda: [[-3.0, 3.0], [-3.0, 3.0]], gradient=g)
    s = gs.optimize(p, gs.PyOQNLPParams(iterations=8, population_size=20), local_solver="LBFGS", seed=seed, parallel=True)
    assert len(s) > 0

ts = [threading.Thread(target=one, args=(i,)) for i in range(3)]
for t in ts: t.start()
for t in ts: t.join()
print("ok")
os._exit(0)
""")

pybug('c23-narrow-seed','C23',[(L,"""        let seed = seed.unwrap_or(0);
""","""        let seed = seed.map_or(0, |s| s & 0x7fff_ffff_ffff_ffff);
""")],
"a seed of 2^63 or more",
"The highest bit of the seed is dropped: such seeds give the points and solutions of another seed.",
"""
import pyglobalsearch as gs

def points(seed):
    seen = []
    def f(x):
        seen.append(tuple(x))
        return x[0] ** 2 + x[1] ** 2
    gs.optimize(gs.PyProblem(f, lambda: [[-3.0, 3.0], [-3.0, 3.0]]), gs.PyOQNLPParams(iterations=4, population_size=20), seed=seed)
    return seen

assert points(5) == points(5)
assert points(5 + (1 << 63)) != points(5)
assert points((1 << 64) - 1) != points((1 << 63) - 1)
print("ok")
""")

