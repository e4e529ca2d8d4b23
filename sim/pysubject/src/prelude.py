import threading
import _sim
import pyglobalsearch as gs

problems = {}
watched = {}
shared = {}

OBJ, GRAD, HESS, CONS, CB = 1, 2, 3, 4, 5


def inside(tag, kind):
    inner = _sim.nested(tag, kind)
    if inner is not None:
        inner["problem"]["reuse"] = 0
        _sim.done(inner["tag"], *job(inner))
    if tag in watched:
        look(watched[tag])


def look(o):
    for s in (o.stage1(), o.stage1_final(), o.stage2()):
        if s is not None:
            s.best_objective, s.function_evaluations, str(s)
    o.elapsed_time, o.should_observe_stage1, str(o)


def problem(d):
    tag = d["tag"]
    if tag in problems:
        return problems[tag]

    def objective(x):
        inside(tag, OBJ)
        y = _sim.obj(tag, x)
        for _ in (1, 2, 3):  # the interpreter may switch threads here
            pass
        return y

    def bounds():
        return _sim.bounds(tag)

    def gradient(x):
        inside(tag, GRAD)
        g = _sim.grad(tag, x)
        for _ in (1, 2, 3):
            pass
        return g

    def hessian(x):
        inside(tag, HESS)
        return _sim.hess(tag, x)

    def constraint(i):
        def c(x):
            inside(tag, CONS)
            v = _sim.con(tag, i, x)
            for _ in (1, 2, 3):
                pass
            return v

        return c

    cons = [constraint(i) for i in range(d["cons"])]
    style = d["style"]
    if not cons:
        cons = None
    elif style == 1:
        cons = tuple(cons)
    elif style == 2 and len(cons) == 1:
        cons = cons[0]
    me = threading.get_ident()
    if d["reuse"] and me in shared:
        p = shared[me]
        p.objective, p.variable_bounds, p.gradient, p.hessian = objective, bounds, gradient, hessian
        if d["reuse"] == 2 and isinstance(cons, list) and isinstance(p.constraints, list):
            p.constraints[:] = cons
        else:
            p.constraints = cons
        return p
    p = gs.PyProblem(objective, bounds, gradient, hessian, cons)
    if d["reuse"]:
        shared[me] = p
    elif d["keep"]:
        problems[tag] = p
    return p


def observer(d):
    tag = d["tag"]
    o = gs.observers.Observer()
    if d["s1"]:
        o.with_stage1_tracking()
    if d["s2"]:
        o.with_stage2_tracking()
    if d["timing"]:
        o.with_timing()
    M = gs.observers.ObserverMode
    o.with_mode([M.Both, M.Stage1Only, M.Stage2Only][d["mode"]])
    if d["unique"]:
        o.unique_updates()
    if d["cb"] == 1:

        def cb(a, b):
            inside(tag, CB)
            return _sim.cb(tag, a, b)

        o.with_callback(cb)
    elif d["cb"] == 2:
        o.with_default_callback()
    elif d["cb"] == 3:
        o.with_stage1_callback()
    elif d["cb"] == 4:
        o.with_stage2_callback()
    if d["freq"] is not None:
        o.with_callback_frequency(d["freq"])
    return o


def line_search(d, mode):
    b = gs.builders
    if mode == 0:
        return b.hagerzhang(**d["args"]) if d["hz"] else b.morethuente(**d["args"])
    c = b.HagerZhang if d["hz"] else b.MoreThuente
    return b.PyLineSearchParams(make(c, d["args"], mode))


def make(c, args, mode):
    if mode == 1:
        return c(**args)
    o = c()
    for k, v in args.items():
        setattr(o, k, v)
    for k, v in args.items():
        if isinstance(v, (int, float)) and getattr(o, k) != v:
            raise AssertionError("the attribute " + k + " is not what it was set to")
    return o


def solver(d):
    """mode: the function (0), the class with arguments (1), the class and its attributes (2)"""
    b = gs.builders
    mode = d["mode"]
    args = dict(d["args"])
    if d["line"] is not None:
        args["line_search_params"] = line_search(d["line"], mode)
    if d["method"] is not None:
        M = b.TrustRegionRadiusMethod
        args["trust_region_radius_method"] = M.cauchy() if d["method"] == "cauchy" else M.steihaug()
    f = {
        "COBYLA": (b.cobyla, b.COBYLA),
        "NelderMead": (b.neldermead, b.NelderMead),
        "LBFGS": (b.lbfgs, b.LBFGS),
        "SteepestDescent": (b.steepestdescent, b.SteepestDescent),
        "TrustRegion": (b.trustregion, b.TrustRegion),
        "NewtonCG": (b.newtoncg, b.NewtonCG),
    }[d["name"]]
    if mode == 0:
        return f[0](**args)
    return make(f[1], args, mode)


def job(d):
    """the outcome, the observer"""
    o = None
    stop = []
    monitor = None
    _sim.mark(d["tag"], "start")
    try:
        p = problem(d["problem"])
        kw = dict(d["kw"])
        if d["observer"] is not None:
            o = kw["observer"] = observer(d["observer"])
            if d["peek"]:
                watched[d["tag"]] = o
            if d["monitor"]:

                def watch():
                    n = 0
                    while not stop:
                        look(o)
                        _sim.pause(n)
                        n += 1

                monitor = threading.Thread(target=watch)
                monitor.start()
        if d["solver"]["call"] is not None:
            kw["local_solver"] = d["solver"]["call"]
        if not d["solver"]["default"]:
            kw["local_solver_config"] = solver(d["solver"])
        params = make(gs.PyOQNLPParams, d["params"], 1 + d["solver"]["mode"] % 2)
        _sim.mark(d["tag"], "run")
        r = gs.optimize(p, params, **kw)
        _sim.mark(d["tag"], "end")
        sols = [(s.x(), s.fun()) for s in r]
        if sols != [(s.point, s.objective) for s in r.solutions] or len(r) != len(sols):
            raise AssertionError("the solution set contradicts itself")
        best = r.best_solution()
        out = ("set", sols, None if best is None else (best.x(), best.fun()))
    except BaseException as e:
        _sim.mark(d["tag"], "end")
        out = ("panic" if type(e).__name__ == "PanicException" else "error", type(e).__name__ + ": " + str(e), None)
    if monitor is not None:
        stop.append(1)
        monitor.join()
    return out, o
