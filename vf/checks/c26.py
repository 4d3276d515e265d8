"""C26: JSON save/load preserves behaviour of every object."""
import copy
import json
import os
import pathlib
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf.checks.c18 import bound_kwargs, bounds
from vf.checks.c21 import random_covar
from vf.core import Sub, Violation, check, close, same
from vf.demos import demo_spec, demo_traj
from vf.dmps import build_dmp, build_fa, dmp_spec, fa_spec, movement_scale
from vf.fas import data_spec, fa_conf, make_fa, make_inputs, make_targets, names_of
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import arr, build, dims, system_spec

RULE = (
    "A case is an object (dynamical system, function approximator, DMP with or without schedules, contextual DMP, distribution), operations "
    "before saving, and operations after loading that are applied to the original and the loaded object; both are compared "
    "after every operation. Non-trivial: at least one operation before saving and two after loading, one of which is saving and loading once more, or a change of parameters"
)
ASSUMPTIONS = ["the classes of saved objects can be imported when loading"]


# --- unchanged by saving -----------------------------------------------------------------------


def state(o, seen=None):
    """Everything an object contains, as plain data."""
    seen = seen or ()
    if id(o) in seen:
        return "(again)"
    if isinstance(o, np.ndarray):
        return ("array", o.shape, o.dtype.str, o.tobytes())
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [state(x, seen + (id(o),)) for x in o]
    if isinstance(o, dict):
        return {str(k): state(v, seen + (id(o),)) for k, v in o.items()}
    if hasattr(o, "__dict__") and not isinstance(o, type):
        return {"class": type(o).__name__, **state(vars(o), seen + (id(o),))}
    return repr(o)


def diff_state(a, b, path=""):
    if type(a) is not type(b):
        return path
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}.{k}"
            d = diff_state(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return path
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_state(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else path


def no_constant(name):
    raise Violation(f"the file for C++ contains {name}, which is not JSON")


class Saver:
    def __init__(self, ctx, as_path, cpp=True):
        self.dir = tempfile.mkdtemp(dir=ctx.scratch)
        self.as_path, self.n, self.cpp = as_path, 0, cpp

    def name(self, suffix=""):
        f = os.path.join(self.dir, "object%s.json" % suffix)  # the same file is overwritten
        return pathlib.Path(f) if self.as_path else f

    def __call__(self, obj, what):
        from dmpbbo import json_for_cpp as jc

        before = state(obj)
        jc.savejson(self.name(), obj)
        d = diff_state(before, state(obj))
        check(d is None, f"{what}: savejson changed {d}")
        if self.cpp:
            jc.savejson_for_cpp(self.name("_cpp"), obj)
            d = diff_state(before, state(obj))
            check(d is None, f"{what}: savejson_for_cpp changed {d}")
            with open(self.name("_cpp")) as f:
                j = json.load(f, parse_constant=no_constant)
            check(j["class"] == type(obj).__name__, f"{what}: class in the file for C++", got=j["class"])
        loaded = jc.loadjson(self.name())
        check(type(loaded) is type(obj), f"{what}: type of the loaded object", got=type(loaded), expected=type(obj))
        again = jc.loadjson(self.name())
        return loaded, again

    def close(self):
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)


def compare(a, b, probe, what, on_copy=True):
    """Loaded (a) and original (b) behave the same."""
    if on_copy:
        a, b = copy.deepcopy(a), copy.deepcopy(b)
    pa, pb = probe(a), probe(b)
    check(set(pa) == set(pb), f"{what}: kinds of results", got=set(pa) ^ set(pb))
    for k in pb:
        u, v = pa[k], pb[k]
        if isinstance(v, (str, int, bool, tuple, list, type(None))):
            check(u == v, f"{what}: {k} of the loaded object", got=u, expected=v)
        else:
            u, v = np.asarray(u, dtype=float), np.asarray(v, dtype=float)
            if v.size and not np.all(np.isfinite(v)):
                same(u, v, f"{what}: {k} of the loaded object")
            else:
                close(u, v, f"{what}: {k} of the loaded object differs from the original", rtol=1e-9, atol=1e-300)


def attempt(f, *args):
    """Result, or the type of the exception: both objects must agree."""
    try:
        return f(*args)
    except (ValueError, KeyError, AttributeError, TypeError, IndexError) as e:
        return f"raised {type(e).__name__}"


def drive(case, ctx, obj, apply, probe, cpp=True):
    save = Saver(ctx, case["as_path"], cpp)
    try:
        for op in case["pre"]:
            apply(obj, op)
        loaded, spare = save(obj, "saving")
        compare(loaded, obj, probe, "after loading", case["on_copy"])
        changed = resaved = 0
        for i, op in enumerate(case["post"]):
            what = f"after loading and operation {i} ({op['op']})"
            if op["op"] == "resave":
                loaded, _ = save(loaded, what)
                resaved += 1
            elif op["op"] == "resave original":
                _, __ = save(obj, what)
            else:
                apply(obj, op)
                apply(loaded, op)
                changed += 1
            compare(loaded, obj, probe, what, case["on_copy"])
        # what was loaded from the file does not depend on what happened to other objects
        for op in case["post"]:
            if not op["op"].startswith("resave"):
                apply(spare, op)
        compare(spare, obj, probe, "another object loaded from the file, after the same operations", case["on_copy"])
        ctx.nt(len(case["pre"]) >= 1 and (changed >= 2 or (changed and resaved)))
        ctx.label("resaved" if resaved else "not resaved")
    finally:
        save.close()


@st.composite
def envelope(draw, op, n_pre=3, n_post=4):
    extra = st.sampled_from([{"op": "resave"}, {"op": "resave"}, {"op": "resave original"}])
    return {
        "pre": draw(st.lists(op, max_size=n_pre)),
        "post": draw(st.lists(st.one_of(op, op, extra), min_size=1, max_size=n_post)),
        "as_path": draw(st.booleans()), "on_copy": draw(st.booleans()),
    }


# --- dynamical systems -------------------------------------------------------------------------


@st.composite
def system_cases(draw):
    s = draw(system_spec())
    names = ["tau", "solve", "decouple", "step", "reject"]
    if s["kind"] == "time":
        names += ["count_down"]
    elif "left" not in s:
        names += ["y_init", "x_init", "start"]
        if s["kind"] in ("exp", "spring", "richards"):
            names += ["y_attr"]
    op = st.fixed_dictionaries({"op": st.sampled_from(names), "f": real(0.5, 1.5), "u": vec(real(0.0, 1.0), dims(s)), "b": st.booleans()})
    return {"sys": s, **draw(envelope(op))}


def run_systems(case, ctx):
    s = case["sys"]
    kind, tau = s["kind"], s["tau"]
    ctx.label(kind)
    n = dims(s)

    def new_value(which, u):
        u = arr(u)
        if kind == "sigmoid":
            y = np.sign(arr(s["y_init"])) if "y_init" in s else np.ones(n)
            return y * (0.05 + 4.0 * u)
        if kind == "richards":
            a, k = arr(s["y_init"]), arr(s["y_attr"])
            return a + (k - a) * (0.45 * u if which == "y_init" else 0.55 + u)
        return -5.0 + 10.0 * u

    def apply(o, op):
        k = op["op"]
        if k == "tau":
            o.tau = tau * op["f"]
        elif k == "y_init":
            o.y_init = new_value("y_init", op["u"])
        elif k == "x_init":
            y = new_value("y_init", op["u"])
            o.x_init = np.concatenate((y, y * 0.3)) if kind == "spring" else y
        elif k == "y_attr":
            o.y_attr = new_value("y_attr", op["u"])
        elif k == "count_down":
            o.count_down = op["b"]
        elif k == "start":
            o.integrate_start(new_value("y_init", op["u"]))
        elif k == "decouple":
            o.decouple_parameters()
        elif k == "solve":
            o.analytical_solution(np.linspace(0, tau, 4))
        elif k == "step":
            x, _ = o.integrate_start()
            o.integrate_step(tau * 0.01, x)
        elif k == "reject":
            check(attempt(setattr, o, "x_init", np.ones(o.dim_x + 1)) == "raised ValueError", "state of the wrong size was accepted")

    def probe(o):
        ts = np.array([0.0, 0.13, 0.71, 1.37]) * tau
        xs, xds = o.analytical_solution(ts)
        x, xd = o.integrate_start()
        e, ed = o.integrate_step_euler(0.003 * tau, np.array(xs[1]))
        r, rd = o.integrate_step_runge_kutta(0.003 * tau, np.array(xs[1]))
        out = {
            "states": xs, "rates": xds, "start": x, "start rate": xd, "Euler": e, "Runge-Kutta": r, "tau": o.tau, "x_init": o.x_init,
            "y_init": o.y_init, "dimension": (o.dim_x, o.dim_y), "rate": o.differential_equation(np.array(xs[2])),
            "integrated": o.integrate(np.linspace(0.0, 0.02 * tau, 4))[0],
        }
        if kind in ("exp", "spring", "richards"):
            out["y_attr"] = o.y_attr
        if kind == "time":
            out["count_down"] = bool(o.count_down)
        return out

    drive(case, ctx, build(s), apply, probe)


# --- function approximators --------------------------------------------------------------------


@st.composite
def fa_cases(draw):
    data = draw(data_spec())
    conf = draw(fa_conf(data["dims"], data=data))
    if conf["kind"] == "GPR":
        data["layout"], data["n"] = "grid", min(data["n"], 20)
        if data["dims"] > 1:
            data["layout"] = "random"
            conf["length"] = 0.3
    names = names_of(conf)
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["train", "select", "set", "predict", "untrained"]), "seed": seeds(), "names": st.lists(st.sampled_from(names), min_size=1, unique=True),
        "string": st.booleans(), "f": real(0.5, 1.5),
    })
    return {"data": data, "fa": conf, "trained": draw(st.sampled_from([True, True, False])), **draw(envelope(op))}


def run_fas(case, ctx):
    data, conf = case["data"], case["fa"]
    ctx.label(conf["kind"], "trained" if case["trained"] else "untrained")
    XP = make_inputs(data, seed=data["seed"] + 3, n=9, margin=0.2)

    def apply(o, op):
        k = op["op"]
        if k == "train":
            d = dict(data, seed=op["seed"])
            X = make_inputs(d)
            o.train(X, make_targets(d, X))
        elif k == "select":
            o.set_selected_param_names(op["names"][0] if op["string"] else list(op["names"]))
        elif k == "set" and o.is_trained():
            o.set_param_vector(o.get_param_vector() * op["f"])
        elif k == "predict":
            attempt(o.predict, XP)

    def probe(o):
        out = {"trained": bool(o.is_trained()), "predictions": attempt(o.predict, XP), "size": int(o.get_param_vector_size()) if o.is_trained() else 0,
               "vector": attempt(o.get_param_vector), "input dimension": attempt(o.dim_input)}
        c = copy.deepcopy(o)
        if o.is_trained():
            for n in names_of(conf):
                c.set_selected_param_names(n)
                out[n] = c.get_param_vector()
            if data["dims"] == 1:
                out["vector prediction"] = o.predict(XP[:, 0])
            if conf["kind"] in ("RBFN", "LWR"):
                out["basis functions"] = o.get_active_params() if hasattr(o, "get_active_params") else None
        X = make_inputs(data)
        c.train(X, make_targets(data, X))
        out["predictions after training"] = c.predict(XP)
        return out

    fa = make_fa(conf, data)
    if case["trained"]:
        X = make_inputs(data)
        fa.train(X, make_targets(data, X))
    drive(case, ctx, fa, apply, probe)


# --- DMPs --------------------------------------------------------------------------------------


@st.composite
def dmp_cases(draw):
    s = draw(dmp_spec(max_dims=2, amp=100.0, via=True, big=7))
    n = len(s["y_init"])
    c = {"dmp": s}
    if draw(st.booleans()):
        k = draw(st.integers(1, 2))
        c["sched"] = [draw(fa_spec(amp=100.0)) for _ in range(k)]
        c["bounds"] = draw(bounds(k))
    op = st.fixed_dictionaries({
        "op": st.sampled_from(["tau", "y_init", "y_attr", "train", "select", "params", "rollout", "steps", "start", "decouple", "reject"]),
        "f": real(0.6, 1.5), "v": vec(real(-3.0, 3.0), n), "demo": demo_spec(n=n, n_min=25, n_max=40),
        "which": st.sampled_from(["goal", "centers", "both"]), "new": st.booleans(), "sched": st.booleans(),
    })
    c.update(draw(envelope(op)))
    return c


def run_dmps(case, ctx):
    s = case["dmp"]
    tau = s["tau"]
    sched = case.get("sched")
    ctx.label(s["type"], s["scaling"], "schedules" if sched else "no schedules", "forcing term" if s["fas"] else "no forcing term")
    if sched:
        from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules

        def cls(tau, y_init, y_attr, fas, **kw):
            return DmpWithSchedules(tau, y_init, y_attr, fas, [build_fa(f) for f in sched], **kw)

        dmp = build_dmp(s, cls=cls, **bound_kwargs(case["bounds"]))
    else:
        dmp = build_dmp(s)
    n = len(s["y_init"])

    def apply(o, op):
        k = op["op"]
        if k == "tau":
            o.tau = tau * op["f"]
        elif k in ("y_init", "y_attr"):
            setattr(o, k, arr(op["v"]))
        elif k == "train" and s["fas"]:
            from dmpbbo.dmps.Trajectory import Trajectory

            t = demo_traj(dict(op["demo"], T=tau * op["f"]))
            if sched:
                misc = np.column_stack([np.sin(t.ts / tau * (i + 2)) * 5 for i in range(len(sched))])
                t = Trajectory(t.ts, t.ys, t.yds, t.ydds, misc)
            if op["new"]:
                o.train(t, function_approximators=[build_fa({"kind": "RBFN", "n": 4, "height": 0.7, "weights": [0.0] * 4}) for _ in range(n)])
            elif sched and op["sched"]:
                o.train_sched(t)
            else:
                o.train(t)
        elif k == "select" and s["fas"]:
            names = {"goal": "goal", "centers": ["centers"], "both": ["goal", "widths", "centers"]}[op["which"]]
            o.set_selected_param_names(names)
        elif k == "params":
            o.set_param_vector(o.get_param_vector() * op["f"])
        elif k == "rollout":
            o.analytical_solution(np.linspace(0, tau, 7))
        elif k == "steps":
            x, _ = o.integrate_start()
            o.integrate_step(0.01 * tau, x)
        elif k == "start":
            o.integrate_start(arr(op["v"]))
        elif k == "decouple":
            o.decouple_parameters()
        elif k == "reject":
            check(attempt(setattr, o, "y_attr", np.ones(n + 1)) == "raised ValueError", "goal of the wrong size was accepted")

    def probe(o):
        ts = np.linspace(0.0, 1.4 * tau, 9)
        xs, xds, f, fa_out = o.analytical_solution(ts)
        traj = o.states_as_trajectory(ts, xs, xds)
        x, xd = o.integrate_start()
        e, ed = o.integrate_step_euler(0.01 * tau, x)
        r, rd = o.integrate_step_runge_kutta(0.01 * tau, e)
        k, _ = o.integrate_step(0.01 * tau, r)
        spring = slice(0, 2 * n)
        out = {
            "positions": traj.ys, "velocities": traj.yds, "accelerations": traj.ydds, "other states": xs[:, 2 * n:], "other rates": xds[:, 2 * n:],
            "forcing terms": f, "fa outputs": fa_out, "start": x, "Euler": e[spring], "Euler others": e[2 * n:], "Runge-Kutta": r[spring], "next": k[spring],
            "tau": o.tau, "y_init": o.y_init, "y_attr": o.y_attr, "vector": o.get_param_vector(), "size": int(o.get_param_vector_size()),
            "dimensions": (int(o.dim_dmp()), int(o.dim_x)), "exported": o.states_as_trajectory(ts, xs, xds).as_matrix(),
            "ts_train": np.empty(0) if getattr(o, "ts_train", None) is None else o.ts_train,
        }
        if sched:
            xs, xds, S, _, _ = o.analytical_solution_sched(ts)[:5]
            out["schedules"] = S
            x, xd, s1 = o.integrate_start_sched()
            x, xd, s2 = o.integrate_step_sched(0.01 * tau, x)
            out["stepped schedules"] = np.concatenate((np.ravel(s1), np.ravel(s2)))
        return out

    drive(case, ctx, dmp, apply, probe)


# --- contextual DMPs ---------------------------------------------------------------------------


@st.composite
def contextual_cases(draw):
    n = draw(st.integers(1, 2))
    op = st.fixed_dictionaries({"op": st.sampled_from(["rollout", "start", "retrain"]), "t": real(0.0, 1.0), "seed": seeds()})
    return {
        "n": n, "demos": draw(st.integers(3, 4)), "demo": draw(demo_spec(n=n, n_min=25, n_max=35)), "fas": [draw(fa_spec(max_bfs=4, big=4)) for _ in range(n)],
        "ppf": draw(st.sampled_from(["WLS", "RBFN", "LWR"])), "names": draw(st.sampled_from([["weights"], ["centers"], ["goal", "centers"], ["goal"]])),
        "type": draw(st.sampled_from(["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "SCT23"])), **draw(envelope(op, n_pre=2, n_post=3)),
    }


def run_contextual(case, ctx):
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep
    from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
    from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS

    n, T = case["n"], case["demo"]["T"]
    fas = [FunctionApproximatorRBFN(f["n"], 0.7) for f in case["fas"]]

    def make_ppf():
        return {"WLS": FunctionApproximatorWLS(), "RBFN": FunctionApproximatorRBFN(3, 0.7, 1e-6), "LWR": FunctionApproximatorLWR(2, 0.5, 1e-6)}[case["ppf"]]

    def demos(seed):
        rng = np.random.default_rng(seed)
        out = []
        for q in np.linspace(0, 1, case["demos"]):
            d = dict(case["demo"], seed=0)
            d["g"] = [g + (0.3 + 0.2 * rng.random()) * q for g in d["g"]]
            d["bump"] = [[b * (1 + q) for b in bb] for bb in d["bump"]]
            out.append((np.array([q]), demo_traj(d)))
        return out

    d0 = demos(0)
    ts = np.linspace(0, 1.2 * T, 7)

    def make():
        dmp = Dmp(T, d0[0][1].ys[0], d0[0][1].ys[-1], fas, dmp_type=case["type"])
        return DmpContextualTwoStep.from_dmp(d0, dmp, case["names"], make_ppf())

    o = make()
    ctx.label(case["type"], case["ppf"], *case["names"])

    def apply(o, op):
        if op["op"] == "rollout":
            o.analytical_solution(np.array([op["t"]]), ts)
        elif op["op"] == "start":
            o.integrate_start(np.array([op["t"]]))
        elif op["op"] == "retrain":
            o.train(demos(op["seed"]), case["names"], make_ppf())

    def probe(o):
        out = {}
        for q in (0.0, 0.4, 1.0):
            xs, xds, f, _ = o.analytical_solution(np.array([q]), ts)
            tr = o.states_as_trajectory(ts, xs, xds)
            out[f"movement for {q}"] = tr.ys
            out[f"forcing terms for {q}"] = f
        return out

    drive(case, ctx, o, apply, probe, cpp=False)


# --- distributions -----------------------------------------------------------------------------


@st.composite
def distribution_cases(draw):
    n = draw(size(1, 4, 9))
    b = draw(st.sampled_from(["no", "none", "scalar", "array", "list", "lower", "upper"]))
    op = st.fixed_dictionaries({"op": st.sampled_from(["sample", "mean", "covar", "update"]), "f": real(0.5, 1.5), "v": vec(real(-3.0, 3.0), n), "seed": seeds()})
    return {"n": n, "bounds": b, "seed": draw(seeds()), "scale": draw(log_real(1e-3, 1e3)), "diag": draw(st.booleans()), "slice": draw(st.booleans()),
            "order": draw(st.sampled_from("CF")), "ints": draw(st.booleans()), **draw(envelope(op))}


def run_distributions(case, ctx):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded
    from dmpbbo.bbo.updaters import UpdaterCovarDecay

    n, s = case["n"], case["scale"]
    rng = np.random.default_rng(case["seed"])
    mean = rng.normal(size=n) * s
    covar = np.diag(rng.uniform(0.1, 2.0, n)) * s**2 if case["diag"] else random_covar(rng, n, s)
    if case["ints"]:
        mean, covar = np.arange(n), np.eye(n, dtype=int)
    if case["slice"]:
        mean = np.repeat(mean, 2)[::2]
    covar = np.array(covar, order=case["order"])
    b = case["bounds"]
    lo, hi = mean - 0.5 * s, mean + 0.7 * s
    if b == "scalar":
        lo, hi = float(lo.min()), float(hi.max())
    elif b == "list":
        lo, hi = lo.tolist(), hi.tolist()
    elif b == "lower":
        hi = None
    elif b == "upper":
        lo = None
    elif b == "none":
        lo = hi = None
    d = DistributionGaussian(mean, covar) if b == "no" else DistributionGaussianBounded(mean, covar, lo, hi)
    ctx.label(b + " bounds")

    def apply(o, op):
        k = op["op"]
        if k == "sample":
            o.generate_samples(3)
        elif k == "mean":
            o.mean = arr(op["v"]) * s
        elif k == "covar":
            o.covar = np.array(o.covar) * op["f"]
        elif k == "update":
            r = np.random.default_rng(op["seed"])
            X = np.array(o.mean) + r.normal(size=(5, n)) * s
            new, _ = UpdaterCovarDecay(eliteness=10, weighting_method="PI-BB", covar_decay_factor=0.9).update_distribution(o, X, r.normal(size=5))
            check(type(new) is type(o), "type of the updated distribution", got=type(new))
            o.mean, o.covar = new.mean, new.covar

    def probe(o):
        np.random.seed(4)
        X = o.generate_samples(6)
        c = copy.deepcopy(o)
        np.random.seed(5)
        return {"mean": o.mean, "covar": o.covar, "samples": X, "samples of a copy": c.generate_samples(2), "eigenvalue": o.max_eigen_value(), "text": attempt(str, o) and "", "dimension": int(np.size(o.mean))}

    drive(case, ctx, d, apply, probe, cpp=False)


SUBS = [
    Sub("systems", system_cases, run_systems, quick=1600, thorough=40000, shards=2),
    Sub("function_approximators", fa_cases, run_fas, quick=1000, thorough=30000, shards=2),
    Sub("dmps", dmp_cases, run_dmps, quick=700, thorough=20000, shards=4),
    Sub("contextual", contextual_cases, run_contextual, quick=200, thorough=4000, shards=2),
    Sub("distributions", distribution_cases, run_distributions, quick=1000, thorough=20000, shards=1),
]
