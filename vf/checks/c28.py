"""C28: C++ dynamical systems behave as the Python ones."""
import numpy as np
from hypothesis import strategies as st

from vf import cpp
from vf.checks.c27 import load
from vf.core import Sub, check, close
from vf.gen import change, changed, log_real, real, vec
from vf.systems import arr, build, dims, fastest_rate, rate_scale, system_spec

RULE = (
    "A case is a system (exponential, sigmoid, spring-damper, time; 1-3 dimensions; scalar parameters), operations on it in Python before "
    "exporting it, and a sequence of reconfigurations and computations applied to the Python and the C++ system. Non-trivial: at "
    "least one reconfiguration on both sides, followed by a computation"
)
ASSUMPTIONS = ["Python's results are decided by C01-C03; this check compares the two implementations"]


TIMES = st.one_of(real(0.0, 2.5), real(0.0, 2.5), real(0.0, 2.5), real(0.0, 60.0))
SHAPES = st.lists(st.sampled_from(["dim", "n", "dim", "n", 0, 1, 3, 7]), min_size=4, max_size=4)


def layout(o, dim, n):
    """Arguments for the shape of the matrices passed for the solution, and whether it is returned as D x T."""
    if o["layout"] == "transposed":
        return {"transposed": True}, True
    if o["layout"] == "presized":
        shape = [{"dim": dim, "n": n}.get(x, x) for x in o["shape"]]
        # D x T is requested by passing a D x T matrix
        return {"shape": shape}, shape[:2] == [dim, n]
    return {}, False


def prepare():
    cpp.build("plain")


def setup():
    return cpp.Driver("plain")


@st.composite
def scalar_specs(draw):
    s = draw(system_spec(kinds=("exp", "sigmoid", "spring", "time")))
    for k in ("alpha", "max_rate", "inflection_ratio", "damping", "mass"):
        if isinstance(s.get(k), list):
            s[k] = s[k][0]
    if s["kind"] == "sigmoid" and "n_dims" in s:
        s["n_dims"] = draw(st.integers(1, 3))
    return s


def ops(n):
    u = vec(real(0.0, 1.0), n)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("set"), "what": st.sampled_from(["tau", "tau", "y_init", "x_init", "y_attr", "damping", "spring", "mass"]), "u": u, "v": u, "f": real(0.4, 2.0), "base": st.booleans(), "change": change()}),
        st.fixed_dictionaries({"op": st.just("solve"), "fr": st.lists(TIMES, min_size=1, max_size=12), "layout": st.sampled_from(["", "transposed", "presized", "presized"]), "shape": SHAPES}),
        st.fixed_dictionaries({"op": st.just("diff"), "u": u, "v": u}),
        st.fixed_dictionaries({"op": st.just("start"), "u": st.one_of(st.none(), u)}),
        st.fixed_dictionaries({"op": st.just("step"), "method": st.sampled_from(["euler", "rk", "step"]), "dt": log_real(0.0005, 0.1), "n": st.integers(1, 12), "u": st.one_of(st.none(), u), "v": u, "aliased": st.booleans(), "resume": st.booleans()}),
    )


@st.composite
def cases(draw):
    s = draw(scalar_specs())
    n = dims(s)
    sets = st.fixed_dictionaries({"op": st.just("set"), "what": st.sampled_from(["tau", "y_init", "x_init", "y_attr"]), "u": vec(real(0.0, 1.0), n), "v": vec(real(0.0, 1.0), n), "f": real(0.4, 2.0)})
    return {"sys": s, "pre": draw(st.lists(sets, max_size=2)), "ops": draw(st.lists(ops(n), min_size=2, max_size=10))}


class Pair:
    """A system in Python and C++."""

    def __init__(self, s, drv, ctx):
        self.s, self.drv, self.ctx = s, drv, ctx
        self.n = dims(s)
        self.py = build(s)
        self.cpp = False
        self.rate = fastest_rate(s) * s["tau"]
        self.unit = s.get("unit", 1.0)
        self.scale = 12.0 * self.unit

    def value(self, u):
        """A state (y part) in the domain of the system."""
        s, u = self.s, arr(u)
        if s["kind"] == "sigmoid":
            sign = np.sign(arr(s["y_init"])) if "y_init" in s else np.ones(self.n)
            return sign * (0.05 + 4.0 * u)
        return (-5.0 + 10.0 * u) * self.unit

    def state(self, u, v):
        """A state that occurs during an integration."""
        if self.s["kind"] == "time":
            return arr(u) * 1.4 - 0.2
        if self.s["kind"] == "sigmoid":
            return self.py.x_init * (0.05 + 0.9 * arr(u))
        y = self.value(u)
        return np.concatenate((y, (-5.0 + 10.0 * arr(v)) * self.unit)) if self.s["kind"] == "spring" else y

    def resumable(self, x):
        """Whether an integration can be resumed in this state after reconfigurations."""
        s = self.s
        if s["kind"] == "sigmoid" and not np.all((x * self.py.x_init > 0) & (np.abs(x) <= np.abs(self.py.x_init))):
            return False
        # (whether the phase stops depends on rounding)
        return s["kind"] != "time" or 1e-6 < float(np.reshape(x, -1)[0]) < 1 - 1e-6

    def set(self, o):
        """Returns whether this system has what is set."""
        what, kind = o["what"], self.s["kind"]
        py = self.py
        how = o.get("change", {"how": "new"})
        if kind == "time" and what != "tau":
            return False
        if what == "tau":
            # the rate of a sigmoid is absolute
            v = self.s["tau"] * (min(o["f"], 1.3) if kind == "sigmoid" else o["f"])
            v = float(changed(how, py.tau, v))
            py.tau = v
        elif what in ("y_init", "x_init"):
            v = self.value(o["u"])
            if what == "x_init" and kind == "spring":
                v = np.concatenate((v, (-5.0 + 10.0 * arr(o["v"])) * self.unit))
            v = changed(how, getattr(py, what), v)
            setattr(py, what, v.copy())
        elif what == "y_attr":
            if kind not in ("exp", "spring"):
                return False
            v = changed(how, py.y_attr, self.value(o["u"]))
            py.y_attr = v.copy()
            if kind == "exp" and not o.get("base", True):
                what = "x_attr"
        else:
            if kind != "spring":
                return False
            name = {"damping": "damping_coefficient", "spring": "spring_constant", "mass": "mass"}[what]
            x = changed(how, getattr(py, name), getattr(py, name) * o["f"])
            setattr(py, name, x)
            v = np.array([float(x)])
        if self.cpp:
            self.drv("set", id="s", what=what, value=v)
        return True

    def export(self):
        load(self.drv, self.ctx, "s", self.py, "ds")
        self.cpp = True

    def compare(self, got, ref, what, rate=False, rtol=1e-11):
        """Times are measured in units of tau, so that tolerances are relative."""
        # (the rate of the time system is a 1 x 1 matrix in Python)
        if np.ndim(got) == 1:
            ref = np.reshape(ref, -1)
        elif self.s["kind"] == "time":
            ref = np.reshape(ref, np.shape(got))
        close(got, ref, what, rtol=rtol, atol=0, scale=max(self.magnitude(rate), np.max(np.abs(ref))))

    def magnitude(self, rate):
        s, S = self.s, self.scale
        if s["kind"] == "spring":
            k, d, m = float(self.py.spring_constant), float(self.py.damping_coefficient), float(self.py.mass)
            z = max(S, S * np.sqrt(k / m))
            return z if not rate else max(z, (k * S + d * z) / m) / self.py.tau
        if s["kind"] == "sigmoid" and rate:
            return S * abs(self.py_rate())
        if rate:
            return S * self.rate / self.py.tau
        return S

    def py_rate(self):
        return float(self.s["max_rate"]) if "max_rate" in self.s else fastest_rate(self.s)


def run(case, ctx):
    s = case["sys"]
    drv = ctx.state
    drv.reset()
    p = Pair(s, drv, ctx)
    ctx.label(s["kind"])
    for o in case["pre"]:
        p.set(o)
    p.export()
    reconfigured = computed_after = False
    last = None
    py = p.py
    for o in case["ops"]:
        k = o["op"]
        tau = py.tau
        if k == "set":
            if p.set(o):
                reconfigured = True
                ctx.label("set " + o["what"])
        elif k == "solve":
            ts = np.sort(arr(o["fr"])) * tau
            xs, xds = py.analytical_solution(ts)
            args, transposed = layout(o, py.dim_x, ts.size)
            r = drv("analytical", id="s", ts=ts, **args)
            gx, gxd = (r["xs"].T, r["xds"].T) if transposed else (r["xs"], r["xds"])
            p.compare(gx, xs, "closed-form states")
            p.compare(gxd, xds, "closed-form rates", rate=True)
        elif k == "diff":
            x = p.state(o["u"], o["v"])
            r = drv("diff", id="s", x=x)
            check(r["x_unchanged"], "the state passed was changed")
            p.compare(r["xd"], np.reshape(py.differential_equation(x), -1), "differential equation", rate=True)
        elif k == "start":
            if o["u"] is None or s["kind"] == "time":
                x, xd = py.integrate_start()
                r = drv("start", id="s")
            else:
                y = p.value(o["u"])
                x, xd = py.integrate_start(y.copy())
                r = drv("start", id="s", y_init=y)
            p.compare(r["x"], x, "first state of an integration")
            p.compare(r["xd"], xd, "first rate of an integration", rate=True)
        else:
            dt = o["dt"] * tau / max(1.0, p.rate)
            x = py.integrate_start()[0] if o["u"] is None else p.state(o["u"], o["v"])
            if o["u"] is not None and s["kind"] == "time":
                x = np.clip(x, 0, 1)
            x = x_cpp = np.array(x, dtype=float)
            if o.get("resume") and last is not None and p.resumable(last[0]):
                ctx.label("integration resumed")
                x, x_cpp = last
            r = drv("step", id="s", method=o["method"], dt=dt, n=o["n"], x=x_cpp, aliased=o["aliased"])
            check("x_changed" not in r, "the state passed was changed by an integration step")
            X, XD, old = [], [], []
            for _ in range(o["n"]):
                old.append(py.differential_equation(x))
                f = py.integrate_step_euler if o["method"] == "euler" else py.integrate_step_runge_kutta
                x, xd = f(dt, x)
                X.append(x)
                XD.append(xd)
            p.compare(r["xs"], X, f"states of {o['method']} steps", rtol=1e-10)
            p.compare(r["xds"], XD, f"rates of {o['method']} steps", rate=True, rtol=1e-10)
            last = (x, r["xs"][-1])
        if k != "set":
            computed_after = computed_after or reconfigured
            g = drv("get", id="s")
            p.compare(g["x_init"], py.x_init, "initial state")
            p.compare(g["x_init_2"], py.x_init, "initial state")
            p.compare(g["y_init"], py.y_init, "initial state (y)")
            check((g["dim"], g["dim_x"], g["dim_y"]) == (py.dim_x, py.dim_x, py.dim_y), "dimensions", got=g)
            close(g["tau"], py.tau, "tau", rtol=1e-14)
            if "y_attr" in g:
                p.compare(g["y_attr"], py.y_attr, "attractor state")
    ctx.nt(reconfigured and computed_after)


SUBS = [
    Sub("systems", cases, run, quick=4000, thorough=100000, shards=6, setup=setup, rule="the same operations in Python and C++"),
]
