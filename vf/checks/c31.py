"""C31: C++ real-time functions never allocate memory and are history-free."""
import numpy as np
from hypothesis import strategies as st

from vf import cpp
from vf.checks import c27, c28, c29
from vf.checks.c27 import load
from vf.core import Sub, check, close
from vf.dmps import eff, sigmoid_gating
from vf.gen import changed, log_real, real, seeds, vec
from vf.systems import arr, dims

RULE = (
    "A case is an object of the C++ implementation (function approximator, dynamical system, DMP; loaded or constructed in C++; up to 60 basis functions and 8 dimensions) "
    "and a sequence of reconfigurations, real-time calls and other calls, executed by a driver built with AddressSanitizer, UndefinedBehaviorSanitizer, assertions and "
    "REALTIME_CHECKS. Allocations during real-time calls are counted, and every result is compared with the one of a fresh object with the same configuration "
    "and with a repetition of the call. Non-trivial: a real-time call after other calls or reconfigurations"
)
ASSUMPTIONS = ["real-time functions are predictRealTime, differentialEquation, integrateStepEuler, integrateStepRungeKutta and integrateStep (not integrateStart, "
               "predict and analyticalSolution, which are documented to allocate or take vectors by value)"]
REALTIME = ("diff", "step", "predict_rt")


def prepare():
    cpp.build("sanitized")


def setup():
    return cpp.Driver("sanitized")


def equal(a, b, what):
    if isinstance(a, dict):
        check(set(a) == set(b), f"{what}: {a} {b}")
        for k in a:
            if k not in ("allocs", "printed"):
                equal(a[k], b[k], f"{what} ({k})")
    elif isinstance(a, (list, tuple)):
        check(len(a) == len(b), what)
        for x, y in zip(a, b):
            equal(x, y, what)
    elif isinstance(a, np.ndarray):
        check(a.shape == b.shape and np.array_equal(a, b, equal_nan=True), what, got=a, expected=b)
    else:
        check(a == b, what, got=a, expected=b)


class History:
    """Executes commands on an object; compares with fresh objects."""

    def __init__(self, drv, make, ctx):
        self.drv, self.make, self.ctx = drv, make, ctx
        self.config = []  # commands that change the configuration
        self.n_fresh = 0
        make("a")
        self.calls = 0

    def configure(self, cmd, **args):
        self.drv(cmd, id="a", **args)
        self.config.append((cmd, args))

    def compute(self, cmd, fresh, configures=False, **args):
        r = self.drv(cmd, id="a", **args)
        if cmd in REALTIME:
            check(r["allocs"] == 0, f"memory was allocated in {cmd} ({args.get('method', '')}): {r['allocs']} times")
            self.ctx.nt(self.calls > 0)
        self.calls += 1
        if configures:
            self.config.append((cmd, args))
        equal(self.drv(cmd, id="a", **args), r, f"the same call again: {cmd}")
        if fresh:
            self.n_fresh += 1
            ident = f"f{self.n_fresh}"
            self.make(ident)
            for c, a in self.config:
                self.drv(c, id=ident, **a)
            equal(self.drv(cmd, id=ident, **args), r, f"the same call on a fresh object: {cmd}")
        return r


# --- function approximators --------------------------------------------------------------------


@st.composite
def big_fa(draw, max_dims=3):
    return {
        "kind": draw(st.sampled_from(["RBFN", "LWR"])), "n": draw(st.integers(1, 60)), "dims": draw(st.integers(1, max_dims)), "seed": draw(seeds()),
        "width": draw(st.sampled_from([0.01, 0.1, 0.3, 2.0])), "amp": draw(log_real(0.01, 500.0)),
    }


def fa_parameters(c):
    rng = np.random.default_rng(c["seed"])
    n, d = c["n"], c["dims"]
    p = {"centers": rng.uniform(0, 1, (n, d)), "widths": c["width"] * rng.uniform(0.5, 2.0, (n, d))}
    if c["kind"] == "RBFN":
        p["weights"] = c["amp"] * rng.normal(size=(n, 1))
    else:
        p["slopes"] = c["amp"] * rng.normal(size=(n, d))
        p["offsets"] = c["amp"] * rng.normal(size=(n, 1))
    return p


def make_big(drv, ident, c):
    drv("make_rbfn" if c["kind"] == "RBFN" else "make_lwr", id=ident, **fa_parameters(c))


fa_calls = st.fixed_dictionaries({
    "op": st.sampled_from(["predict_rt", "predict_rt", "predict", "print"]), "n": st.integers(1, 8), "seed": seeds(), "margin": st.sampled_from([0.0, 0.3, 5.0, 1e3]),
    "strided": st.booleans(), "rows": st.integers(0, 8), "cols": st.integers(0, 3), "fresh": st.booleans(), "repeat": st.booleans(),
})


@st.composite
def fa_cases(draw):
    c = {"calls": draw(st.lists(fa_calls, min_size=1, max_size=8))}
    if draw(st.booleans()):
        c["model"] = draw(c27.models())
    else:
        c["big"] = draw(big_fa())
    return c


def run_fa(case, ctx, history=History):
    drv = ctx.state
    drv.reset()
    if "model" in case:
        fa = c27.trained(case["model"])
        make = lambda ident: load(drv, ctx, ident, fa)  # noqa
        data = case["model"]["data"]
        lo, hi = arr(data["lo"]), arr(data["hi"])
        nb, p = c27.parameters(fa, case["model"])
        kind = case["model"]["fa"]["kind"]
    else:
        make = lambda ident: make_big(drv, ident, case["big"])  # noqa
        p = fa_parameters(case["big"])
        nb, d = p["centers"].shape
        lo, hi = np.zeros(d), np.ones(d)
        kind = case["big"]["kind"]
    h = history(drv, make, ctx)
    ctx.label(kind, "loaded" if "model" in case else "constructed")
    for c in case["calls"]:
        if c["op"] == "print":
            check(len(h.compute("print", c["fresh"])["text"]) > 0, "printed nothing")
            continue
        rng = np.random.default_rng(c["seed"])
        u = rng.uniform(-c["margin"], 1 + c["margin"], (c["n"], lo.size))
        if c["repeat"]:  # inputs that share coordinates with others
            u = np.round(u * 2) / 2
        X = lo + (hi - lo) * u
        if c["op"] == "predict":
            r = h.compute("predict", c["fresh"], inputs=X, strided=c["strided"], rows=c["rows"], cols=c["cols"])
            check(r["inputs_unchanged"] and r["outputs"].shape == (c["n"], 1), "predict", got=r)
            continue
        r = h.compute("predict_rt", c["fresh"], inputs=X)
        # a sample's prediction does not depend on the samples before
        i = c["n"] - 1
        equal(drv("predict_rt", id="a", inputs=X[i:])["outputs"], r["outputs"][i:], "prediction of one sample")
        # ... and equals the one of the batch interface
        ok, _ = c27.comparable(X, nb, p)
        batch = drv("predict", id="a", inputs=X)["outputs"][:, 0]
        big = np.sum(np.abs(p["weights"])) if kind == "RBFN" else np.max(np.abs(p["offsets"]).reshape(-1) + np.max(np.abs(X)) * np.sum(np.abs(p["slopes"].reshape(nb, -1)), axis=1))
        close(r["outputs"][ok], batch[ok], "real-time and batch predictions", rtol=1e-10, atol=1e-12, scale=big)


# --- dynamical systems -------------------------------------------------------------------------

fresh = st.booleans()


@st.composite
def system_cases(draw):
    s = draw(c28.scalar_specs())
    if s["kind"] == "exp" and draw(st.integers(0, 3)) == 0:  # larger
        n = draw(st.integers(4, 12))
        s["y_init"], s["y_attr"] = draw(vec(real(-4.0, 4.0), n)), draw(vec(real(-4.0, 4.0), n))
    n = dims(s)
    return {"sys": s, "ops": draw(st.lists(st.tuples(c28.ops(n), fresh).map(lambda t: dict(t[0], fresh=t[1])), min_size=2, max_size=9))}


def moderate(x):
    return x if np.all(np.isfinite(x)) and np.max(np.abs(x)) < 1e8 else None


def run_system(case, ctx, history=History):
    s = case["sys"]
    last = None
    drv = ctx.state
    drv.reset()
    p = c28.Pair(s, drv, ctx)
    ctx.label(s["kind"])
    original = c28.build(s)
    h = history(drv, lambda ident: load(drv, ctx, ident, original, "ds"), ctx)
    for o in case["ops"]:
        k = o["op"]
        if k == "set":
            sent = []
            p.cpp, p.drv = True, lambda cmd, **a: sent.append((cmd, a))
            if p.set(o):
                for cmd, a in sent:
                    a.pop("id")
                    h.configure(cmd, **a)
        elif k == "solve":
            h.compute("analytical", o["fresh"], ts=np.sort(arr(o["fr"])) * p.py.tau, **c28.layout(o, p.py.dim_x, len(o["fr"]))[0])
        elif k == "diff":
            check(h.compute("diff", o["fresh"], x=p.state(o["u"], o["v"]))["x_unchanged"], "the state passed was changed")
        elif k == "start":
            if o["u"] is None or s["kind"] == "time":
                h.compute("start", o["fresh"])
            else:
                p.py.y_init = p.value(o["u"])
                h.compute("start", o["fresh"], configures=True, y_init=p.value(o["u"]))
        else:
            x = p.py.x_init if o["u"] is None else p.state(o["u"], o["v"])
            if s["kind"] == "time":
                x = np.clip(x, 0, 1)
            if o["resume"] and last is not None:
                x = last
            a = dict(dt=o["dt"] * p.py.tau / max(1.0, p.rate), n=o["n"], x=np.array(x, dtype=float))
            r = h.compute("step", o["fresh"], method=o["method"], aliased=o["aliased"], **a)
            # whether the updated state is written over the state does not matter
            one, two = (drv("step", id="a", method=o["method"], aliased=b, **a) for b in (False, True))
            equal(one, two, "integration step with the same vector for both states")
            last = moderate(r["xs"][-1])
        h.compute("get", o["fresh"])
    h.compute("print", False)


# --- DMPs --------------------------------------------------------------------------------------


@st.composite
def dmp_cases(draw):
    c = {}
    how = draw(st.sampled_from(["loaded"] * 4 + c29.HOWS))
    if how == "loaded":
        c = draw(c29.dmps())
        c["how"] = how
    else:
        c = draw(c29.constructed_cases())
        if draw(st.integers(0, 2)) == 0 and c["dmp"]["fas"] is not None:
            # many dimensions and basis functions
            n = draw(st.integers(1, 8))
            s = c["dmp"]
            s["y_init"], s["y_attr"] = draw(vec(real(-3.0, 3.0), n)), draw(vec(real(-3.0, 3.0), n))
            if "dims" in how:
                s["y_init"], s["y_attr"] = [0.0] * n, [1.0] * n
            if "amplitudes" in s:
                s["amplitudes"] = draw(vec(real(0.1, 3.0), n))
            c["big"] = [dict(draw(big_fa(max_dims=1)), dims=1) for _ in range(n)]
    n = len(c["dmp"]["y_init"])
    c["ops"] = draw(st.lists(st.tuples(st.one_of(c29.ops(n), st.fixed_dictionaries({"op": st.just("coefficient"), "what": st.sampled_from(["damping", "spring"]), "f": real(0.5, 2.0)})), fresh).map(lambda t: dict(t[0], fresh=t[1])), min_size=2, max_size=8))
    return c


def run_dmp(case, ctx, history=History):
    drv = ctx.state
    drv.reset()
    s = case["dmp"]
    n = len(s["y_init"])
    if case["how"] == "loaded":
        py, s = c29.build_case(case)
        make = lambda ident: load(drv, ctx, ident, py, "dmp")  # noqa
    elif "big" in case:
        def make(ident):
            names = []
            for i, f in enumerate(case["big"]):
                names.append(f"{ident}_fa{i}")
                make_big(drv, names[-1], f)
            drv("make_dmp", id=ident, how=case["how"], tau=s["tau"], y_init=arr(s["y_init"]), y_attr=arr(s["y_attr"]), fas=names, type=s["type"], scaling=s["scaling"],
                amplitudes=arr(s.get("amplitudes", [])), alpha=s["alpha"], goal=bool(s.get("goal")), custom=s.get("custom", {}))
    else:
        make = lambda ident: c29.make_in_cpp(drv, ctx, ident, case)  # noqa
    h = history(drv, make, ctx)
    ctx.label(case["how"], s["type"], s["scaling"], f"{n}-D", "big" if "big" in case else "small")
    tau = s["tau"]
    goal = arr(s["y_attr"])
    values = {"y_init": arr(s["y_init"]), "y_attr": goal}
    last = None
    for o in case["ops"]:
        k = o["op"]
        if k == "set":
            if o["what"] == "tau":
                tau = float(changed(o["change"], tau, tau * o["f"] if not sigmoid_gating(s) else s["tau"] * (0.7 + 0.3 * o["f"])))
                h.configure("set", what="tau", value=tau)
            else:
                values[o["what"]] = changed(o["change"], values[o["what"]], arr(o["v"]))
                h.configure("set", what=o["what"], value=values[o["what"]], through_base=o["base"])
                goal = values["y_attr"]
        elif k == "coefficient":
            h.configure("set", what=o["what"], value=np.array([eff(s) * o["f"] if o["what"] == "damping" else eff(s) ** 2 / 4 * o["f"]]))
        elif k == "solve":
            ts = c29.time_grid(o, tau)
            h.compute("analytical", o["fresh"], ts=ts, **c28.layout(o, 3 * n + 2, ts.size)[0], through_base=o["base"])
        elif k == "start":
            if o["v"] is None:
                h.compute("start", o["fresh"])
            else:
                values["y_init"] = arr(o["v"])
                h.compute("start", o["fresh"], configures=True, y_init=arr(o["v"]))
        else:
            x = np.concatenate((arr(o["y"]), arr(o["z"]) * eff(s), arr(o["goal"]) if c29.goal_system(s) else goal, [o["phase"], o["gating"]]))
            if k == "diff":
                check(h.compute("diff", o["fresh"], x=x)["x_unchanged"], "the state passed was changed")
            else:
                if o["resume"] and last is not None:
                    # the last state of an integration before reconfigurations
                    ctx.label("integration resumed")
                    x = last
                elif o["start"]:
                    x = drv("start", id="a")["x"]
                r = h.compute("step", o["fresh"], method=o["method"], dt=o["dt"] * tau, n=o["n"], x=x, aliased=o["aliased"])
                check("x_changed" not in r, "the state passed was changed by an integration step")
                other = drv("step", id="a", method=o["method"], dt=o["dt"] * tau, n=o["n"], x=x, aliased=not o["aliased"])
                equal(other, r, "integration step with the same vector for both states")
                last = moderate(r["xs"][-1])
        h.compute("get", o["fresh"])
    h.compute("print", False)


SUBS = [
    Sub("fas", fa_cases, run_fa, quick=900, thorough=30000, shards=2, setup=setup, rule="real-time predictions after other calls"),
    Sub("systems", system_cases, run_system, quick=1500, thorough=40000, shards=2, setup=setup, rule="differential equations and steps after other calls"),
    Sub("dmps", dmp_cases, run_dmp, quick=1500, thorough=40000, shards=4, setup=setup, rule="differential equations and steps after other calls"),
]
