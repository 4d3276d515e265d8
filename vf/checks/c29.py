"""C29: C++ DMPs generate the movements of the Python DMPs."""
import numpy as np
from hypothesis import strategies as st

from vf import cpp
from vf.checks.c27 import load
from vf.checks.c28 import SHAPES, layout
from vf.core import Sub, check, close
from vf.demos import demo_spec, demo_traj
from vf.dmps import build_dmp, build_fa, custom_systems_cpp, dmp_spec, eff, family, sigmoid_gating
from vf.fas import make_fa
from vf.gen import change, changed, log_real, real, vec
from vf.systems import arr

RULE = (
    "A case is a DMP (the three types known to both languages, 1-3 dimensions, scaling, spring constant and mass, RBFN/LWR forcing terms or none, "
    "made from parameters or trained on a demonstration), operations on it in Python before exporting it, and a sequence of "
    "reconfigurations and computations applied to the Python and the C++ DMP. Non-trivial: there is a forcing term, and a reconfiguration on both sides "
    "followed by a computation"
)
ASSUMPTIONS = ["Python's results are decided by C05-C08; this check compares the two implementations"]
TYPES = ["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013"]


def prepare():
    cpp.build("plain")


def setup():
    return cpp.Driver("plain")


@st.composite
def dmps(draw):
    s = draw(dmp_spec(types=TYPES, via=True))
    if draw(st.integers(0, 2)) == 0:
        s["custom"] = draw(custom_systems_cpp())
        if sigmoid_gating(s) and "via" in s:
            s["via"]["set"] = [x for x in s["via"]["set"] if x != "tau"]
            s["via"].pop("tau", None)
    n = len(s["y_init"])
    c = {"dmp": s}
    if s["fas"] is not None and draw(st.integers(0, 2)) == 0:
        c["demo"] = draw(demo_spec(n=n, n_min=25, n_max=40))
        c["fas"] = [
            {"kind": draw(st.sampled_from(["RBFN", "LWR"])), "n_bfs": draw(st.integers(1, 8)), "height": draw(st.sampled_from([0.3, 0.5, 0.7])), "reg": draw(st.sampled_from([0.0, 0.01]))}
            for _ in range(n)
        ]
    return c


def ops(n):
    v = vec(real(-3.0, 3.0), n)
    w = vec(real(-1.0, 1.0), n)
    unit = real(0.0, 1.0)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("set"), "what": st.sampled_from(["tau", "y_init", "y_attr"]), "v": v, "f": real(0.5, 2.0), "base": st.booleans(), "change": change(1e-9), "near": st.one_of(st.none(), st.none(), st.none(), log_real(1e-8, 1e-2))}),
        st.fixed_dictionaries({"op": st.just("solve"), "fr": st.lists(real(0.003, 0.05), min_size=0, max_size=45), "long": st.integers(0, 7).map(lambda k: k == 7), "layout": st.sampled_from(["", "transposed", "presized", "presized"]), "shape": SHAPES, "base": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("diff"), "y": v, "z": w, "goal": v, "phase": unit, "gating": unit}),
        st.fixed_dictionaries({"op": st.just("start"), "v": st.one_of(st.none(), v)}),
        st.fixed_dictionaries({"op": st.just("step"), "method": st.sampled_from(["euler", "rk", "step"]), "dt": log_real(0.0005, 0.04), "n": st.integers(1, 40), "start": st.booleans(), "y": v, "z": w, "goal": v, "phase": unit, "gating": unit, "aliased": st.booleans(), "resume": st.booleans()}),
    )


def time_grid(o, tau):
    """A grid with the time steps of the case, which are repeated in long ones."""
    steps = np.resize(arr(o["fr"]), 300) if o.get("long") and o["fr"] else arr(o["fr"])
    return np.concatenate(([0.0], np.cumsum(steps))) * tau


@st.composite
def cases(draw):
    c = draw(dmps())
    n = len(c["dmp"]["y_init"])
    v = vec(real(-3.0, 3.0), n)
    c["pre"] = draw(st.lists(st.fixed_dictionaries({"op": st.sampled_from(["tau", "y_init", "y_attr", "solve", "start"]), "v": v, "f": real(0.5, 2.0)}), max_size=3))
    c["ops"] = draw(st.lists(ops(n), min_size=2, max_size=9))
    return c


def build_case(case):
    """The DMP in Python, and the values it has."""
    s = dict(case["dmp"])
    if "demo" in case:
        from dmpbbo.dmps.Dmp import Dmp

        traj = demo_traj(case["demo"])
        # (the rate of the gating system of some types is determined by the initial time constant)
        dmp = build_dmp(dict({k: x for k, x in s.items() if k != "via"}, tau=float(traj.ts[-1])), fas=None)
        fas = [make_fa(f) for f in case["fas"]]
        dmp.train(traj, function_approximators=fas)
        check(isinstance(dmp, Dmp))
        s.update(tau=float(traj.ts[-1]), y_init=traj.ys[0].tolist(), y_attr=traj.ys[-1].tolist())
        if s["scaling"] == "AMPLITUDE_SCALING":
            s["amplitudes"] = traj.get_range_per_dim().tolist()
    else:
        dmp = build_dmp(s)
    return dmp, s


def goal_system(s):
    return "goal" in s.get("custom", {}) or s.get("goal", family(s["type"]) == "kul")


def parts(n):
    return {
        "positions": slice(0, n), "velocities (z)": slice(n, 2 * n), "goal": slice(2 * n, 3 * n), "phase": slice(3 * n, 3 * n + 1), "gating": slice(3 * n + 1, 3 * n + 2),
    }


class Compare:
    def __init__(self, s, dmp):
        self.n = len(s["y_init"])
        self.k, self.d, self.m = eff(s) ** 2 / 4, eff(s), s.get("mass", 1.0)
        self.dmp = dmp

    def states(self, got, ref, forcing, what, rtol=1e-11):
        """forcing: magnitude of forcing terms"""
        ref = np.asarray(ref)[..., : 3 * self.n + 2]
        check(np.shape(got) == ref.shape, f"{what}: shape", got=np.shape(got), expected=ref.shape)
        Y = self.y_scale(forcing, ref)
        for name, sl in parts(self.n).items():
            scale = {"positions": Y, "velocities (z)": Y * self.d, "goal": Y}.get(name, 1.0)
            close(np.asarray(got)[..., sl], ref[..., sl], f"{what}: {name}", rtol=rtol, atol=0, scale=scale)

    def y_scale(self, forcing, ref):
        n = self.n
        return 6.0 + forcing / self.k + np.max(np.abs(ref[..., :n])) + np.max(np.abs(ref[..., n : 2 * n])) / self.d

    def rates(self, got, ref, forcing, xs, what, rtol=1e-11):
        ref = np.asarray(ref)[..., : 3 * self.n + 2]
        check(np.shape(got) == ref.shape, f"{what}: shape", got=np.shape(got), expected=ref.shape)
        tau = self.dmp.tau
        Y = self.y_scale(forcing, np.asarray(xs))
        for name, sl in parts(self.n).items():
            scale = {"positions": Y * self.d, "velocities (z)": Y * (self.k + self.d**2) + forcing, "goal": Y * 15, "phase": 4.0}.get(name, 40.0) / tau
            close(np.asarray(got)[..., sl], ref[..., sl], f"rates, {what}: {name}", rtol=rtol, atol=0, scale=scale)


def full_state(s, o, py):
    """A state in Python; the C++ one lacks the damping coefficients."""
    n = len(s["y_init"])
    x = np.concatenate((arr(o["y"]), arr(o["z"]) * eff(s), arr(o["goal"]) if goal_system(s) else py.y_attr, [o["phase"], o["gating"]]))
    return x, np.concatenate((x, np.full(n, float(np.max(s["alpha"])))))


def fa_magnitude(s, py, case):
    """Upper estimate of the magnitude of forcing terms"""
    ts = np.linspace(0, 2 * py.tau, 60)
    _, _, forcing, fa = py.analytical_solution(ts)
    m = float(np.max(np.abs(fa)))
    if s["fas"] is not None and "demo" not in case:
        m = max(m, max(np.sum(np.abs(f.get("weights", [0]))) + np.max(np.abs(f.get("offsets", [0]))) + 1.5 * np.max(np.abs(f.get("slopes", [0]))) for f in s["fas"]))
    a = 1.0
    if s["scaling"] == "G_MINUS_Y0_SCALING":
        a = 6.0
    elif s["scaling"] == "AMPLITUDE_SCALING":
        a = np.max(np.abs(s["amplitudes"]))
    return m * a + float(np.max(np.abs(forcing)))


def python_set(py, s, what, o):
    if what == "tau":
        # the rate of the gating system of these types is absolute
        v = py.tau * o["f"] if not sigmoid_gating(s) else s["tau"] * (0.7 + 0.3 * o["f"])
        v = float(changed(o.get("change", {"how": "new"}), py.tau, v))
    elif o.get("near"):
        # the initial state and the attractor are close to each other
        v = (py.y_attr if what == "y_init" else py.y_init) + o["near"] * arr(o["v"])
    else:
        v = changed(o.get("change", {"how": "new"}), getattr(py, what), arr(o["v"]))
    setattr(py, what, v)
    return v


def run(case, ctx):
    drv = ctx.state
    drv.reset()
    py, s = build_case(case)
    n = len(s["y_init"])
    ctx.label("own subsystems" if "custom" in s else "default subsystems")
    ctx.label(s["type"], "trained" if "demo" in case else ("parameters" if s["fas"] else "no forcing term"), s["scaling"])
    for o in case["pre"]:
        if o["op"] == "solve":
            py.analytical_solution(np.linspace(0, py.tau, 7))
        elif o["op"] == "start":
            x, _ = py.integrate_start()
            py.integrate_step(0.01 * py.tau, x)
        else:
            python_set(py, s, o["op"], o)
    load(drv, ctx, "d", py, "dmp")
    run_ops(drv, "d", py, s, case, ctx)


def run_ops(drv, ident, py, s, case, ctx):
    n = len(s["y_init"])
    cmp = Compare(s, py)
    changed = after = False
    last = None
    for o in case["ops"]:
        k = o["op"]
        tau = py.tau
        if k == "set":
            v = python_set(py, s, o["what"], o)
            drv("set", id=ident, what=o["what"], value=v, through_base=o["base"])
            changed = True
            continue
        F = fa_magnitude(s, py, case)
        if k == "solve":
            ts = time_grid(o, tau)
            xs, xds, forcing, fa = py.analytical_solution(ts)
            traj = py.states_as_trajectory(ts, xs, xds)
            args, transposed = layout(o, 3 * n + 2, ts.size)
            r = drv("analytical", id=ident, ts=ts, **args, through_base=o["base"])
            if transposed:
                r["xs"], r["xds"] = r["xs"].T, r["xds"].T
            cmp.states(r["xs"], xs, F, "closed form")
            cmp.rates(r["xds"], xds, F, xs, "closed form")
            if not o["base"]:
                close(r["forcing"], forcing, "forcing terms", rtol=1e-11, atol=0, scale=F + 1e-9)
                close(r["fa"], fa, "outputs of the function approximators", rtol=1e-11, atol=0, scale=F + np.max(np.abs(fa)) + 1e-9)
            if "traj" in r:
                Y = cmp.y_scale(F, xs)
                yd_scale = Y * cmp.d / tau
                ydd_scale = (Y * (cmp.k + cmp.d**2) + F) / tau**2
                close(r["y"], traj.ys, "positions", rtol=1e-11, atol=0, scale=Y)
                close(r["yd"], traj.yds, "velocities", rtol=1e-11, atol=0, scale=yd_scale)
                close(r["ydd"], traj.ydds, "accelerations", rtol=1e-11, atol=0, scale=ydd_scale)
                for name in ("traj", "traj2", "traj3"):
                    t = r[name]
                    check(np.array_equal(t["ts"], ts), f"times of the movement ({name})", got=t["ts"])
                    close(t["ys"], traj.ys, f"movement, positions ({name})", rtol=1e-11, atol=0, scale=Y)
                    close(t["yds"], traj.yds, f"movement, velocities ({name})", rtol=1e-11, atol=0, scale=yd_scale)
                    close(t["ydds"], traj.ydds, f"movement, accelerations ({name})", rtol=1e-11, atol=0, scale=ydd_scale)
                close(r["forcing3"], forcing, "forcing terms (with trajectory)", rtol=1e-11, atol=0, scale=F + 1e-9)
                p, v, a = r["pva"]
                close(p, traj.ys[-1], "position of a state", rtol=1e-11, atol=0, scale=Y)
                close(v, traj.yds[-1], "velocity of a state", rtol=1e-11, atol=0, scale=yd_scale)
                close(a, traj.ydds[-1], "acceleration of a state", rtol=1e-11, atol=0, scale=ydd_scale)
        elif k == "diff":
            x, x_py = full_state(s, o, py)
            r = drv("diff", id=ident, x=x)
            check(r["x_unchanged"], "the state passed was changed")
            cmp.rates(r["xd"], py.differential_equation(x_py), F, x, "differential equation")
        elif k == "start":
            if o["v"] is None:
                x, xd = py.integrate_start()
                r = drv("start", id=ident)
            else:
                x, xd = py.integrate_start(arr(o["v"]))
                r = drv("start", id=ident, y_init=arr(o["v"]))
            cmp.states(r["x"], x, F, "start of an integration")
            cmp.rates(r["xd"], xd, F, x, "start of an integration")
        else:
            dt = o["dt"] * tau
            if o.get("resume") and last is not None:
                # (without goal system, the goal is part of the state)
                x_py, x = last
                if not goal_system(s):
                    x_py, x = x_py.copy(), x.copy()
                    x_py[2 * n : 3 * n] = x[2 * n : 3 * n] = py.y_attr
                ctx.label("integration resumed")
            elif o["start"]:
                x_py = py.integrate_start()[0]
                x = drv("start", id=ident)["x"]
            else:
                x, x_py = full_state(s, o, py)
            r = drv("step", id=ident, method=o["method"], dt=dt, n=o["n"], x=x, aliased=o["aliased"])
            r["xs"], r["xds"] = np.array(r["xs"]), np.array(r["xds"])
            check("x_changed" not in r, "the state passed was changed by an integration step")
            X, XD = [], []
            for _ in range(o["n"]):
                f = py.integrate_step_euler if o["method"] == "euler" else py.integrate_step_runge_kutta
                x_py, xd = f(dt, x_py)
                X.append(x_py)
                XD.append(xd)
            X, XD = np.array(X), np.array(XD)
            # The phase stops: whether it does in this step or in the next one depends on rounding
            stop = n_until_stop(s, o, tau, X[:, 3 * n], dt)
            last = (X[-1], r["xs"][-1]) if stop == len(X) else None
            if stop:
                cmp.states(r["xs"][:stop], X[:stop], F, f"{o['method']} steps", rtol=1e-10)
                cmp.rates(r["xds"][:stop], XD[:stop], F, X, f"{o['method']} steps", rtol=1e-10)
        after = after or changed
        g = drv("get", id=ident)
        check((g["dim"], g["dim_x"], g["dim_y"], g["dim_dmp"]) == (3 * n + 2, 3 * n + 2, n, n), "dimensions", got=g)
        for name in ("y_init", "dmp_y_init"):
            check(np.array_equal(g[name], py.y_init), f"initial state ({name})", got=g[name], expected=py.y_init)
        check(np.array_equal(g["x_init"][:n], py.y_init), "initial state (x_init)", got=g["x_init"])
        close(g["tau"], py.tau, "tau", rtol=1e-14)
    ctx.nt(s["fas"] is not None and after)


def phase_kind(s):
    if "phase" in s.get("custom", {}):
        return s["custom"]["phase"]["kind"]
    return "exp" if family(s["type"]) != "kul" else "up" if s["type"].startswith("K") else "down"


def n_until_stop(s, o, tau, phases, dt):
    kind = phase_kind(s)
    if kind == "exp":
        return len(phases)
    end = 1.0 if kind == "up" else 0.0
    near = np.abs(phases - end) < 1e-9
    return int(np.argmax(near)) if np.any(near) else len(phases)


# --- DMPs made in C++ --------------------------------------------------------------------------

HOWS = ["type", "type", "dims type", "no forcing term", "dims systems", "systems"]


@st.composite
def constructed_cases(draw):
    s = draw(dmp_spec(types=TYPES, alias=False))
    how = draw(st.sampled_from(HOWS))
    s.pop("mass", None)
    n = len(s["y_init"])
    c = {"dmp": s, "how": how, "fa_made": draw(st.sampled_from(["loaded", "constructed"]))}
    if "type" in how:
        s["alpha"] = 20.0
    else:
        s["type"] = "IJSPEERT_2002_MOVEMENT"
        s["goal"] = draw(st.booleans())
        if "systems" in how and draw(st.booleans()):
            s["custom"] = draw(custom_systems_cpp(goal=s["goal"]))
        s["alpha"] = min(max(s["alpha"], 10.0), 40.0)
    if how == "no forcing term":
        s["fas"], s["scaling"] = None, "NO_SCALING"
        s.pop("amplitudes", None)
    if "dims" in how:
        s.update(tau=1.0, y_init=[0.0] * n, y_attr=[1.0] * n)
    c["ops"] = draw(st.lists(ops(n), min_size=2, max_size=8))
    return c


def make_in_cpp(drv, ctx, ident, case):
    """The DMP of the case, made with one of the constructors in C++."""
    s = case["dmp"]
    names = []
    for i, f in enumerate(s["fas"] or []):
        names.append(f"{ident}_fa{i}")
        fa = build_fa(f)
        if case["fa_made"] == "loaded":
            load(drv, ctx, names[-1], fa)
            continue
        p = {}
        for name in ["centers", "widths"] + (["weights"] if f["kind"] == "RBFN" else ["slopes", "offsets"]):
            fa.set_selected_param_names(name)
            p[name] = np.reshape(fa.get_param_vector(), (f["n"], 1))
        drv("make_rbfn" if f["kind"] == "RBFN" else "make_lwr", id=names[-1], **p)
    drv("make_dmp", id=ident, how=case["how"], tau=s["tau"], y_init=arr(s["y_init"]), y_attr=arr(s["y_attr"]), fas=names, type=s["type"],
        scaling=s["scaling"], amplitudes=arr(s.get("amplitudes", [])), alpha=s["alpha"], goal=bool(s.get("goal")), custom=s.get("custom", {}))


def build_python(case):
    from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem

    s = case["dmp"]
    kw = {}
    if s.get("goal") and "goal" not in s.get("custom", {}):
        kw["goal_system"] = ExponentialSystem(s["tau"], arr(s["y_init"]), arr(s["y_attr"]), 15)
    return build_dmp(s, **kw)


def run_constructed(case, ctx):
    drv = ctx.state
    drv.reset()
    s = dict(case["dmp"])
    py = build_python(case)
    make_in_cpp(drv, ctx, "d", case)
    ctx.label(case["how"], "goal" if goal_system(s) else "no goal system")
    run_ops(drv, "d", py, s, case, ctx)
    ctx.nt(len(case["ops"]) > 3)


SUBS = [
    Sub("constructed", constructed_cases, run_constructed, quick=1000, thorough=30000, shards=4, setup=setup, rule="at least 4 operations on both"),
    Sub("dmps", cases, run, quick=2400, thorough=60000, shards=7, setup=setup, rule="the same operations in Python and C++"),
]
