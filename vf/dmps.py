"""Specifications of DMPs (JSON), how to build them, and an independent reference model."""
import numpy as np
from hypothesis import strategies as st

from vf.gen import change, changed, log_real, real, size, vec
from vf.systems import arr, few_ulps

TYPES = [
    "IJSPEERT_2002_MOVEMENT",
    "KULVICIUS_2012_JOINING",
    "COUNTDOWN_2013",
    "SCT23",
    "SCT23_NO_SCALING",
    "SCT23_DAMPING",
    "SCT23_NO_SCALING_DAMPING",
]
ALIASES = {"IJSPEERT_2002_MOVEMENT": "Ijs02", "KULVICIUS_2012_JOINING": "Kul12"}
SCALINGS = ["NO_SCALING", "G_MINUS_Y0_SCALING", "AMPLITUDE_SCALING"]
EULER_GAMMA = None


def family(dmp_type):
    if dmp_type.startswith("I"):
        return "ijs"
    if dmp_type.startswith("K") or dmp_type.startswith("COUNT"):
        return "kul"
    return "sct"


@st.composite
def fa_spec(draw, max_bfs=7, amp=500.0, big=20):
    """A function approximator for one dimension of the forcing term: basis functions on the phase."""
    kind = draw(st.sampled_from(["RBFN", "RBFN", "LWR"]))
    n = draw(size(1, max_bfs, big, 20))
    s = {"kind": kind, "n": n, "height": draw(st.sampled_from([0.3, 0.5, 0.7, 0.8]))}
    if kind == "RBFN":
        s["weights"] = draw(vec(real(-amp, amp), n))
    else:
        s["offsets"] = draw(vec(real(-amp, amp), n))
        s["slopes"] = draw(vec(real(-amp, amp), n))
    return s


def build_fa(s):
    """Trained function approximator with the given parameters."""
    from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN

    inputs = np.linspace(0.0, 1.0, 2 * s["n"] + 5)
    if s["kind"] == "RBFN":
        fa = FunctionApproximatorRBFN(s["n"], s["height"])
        fa.train(inputs, np.sin(3.0 * inputs))
        fa.set_selected_param_names("weights")
        fa.set_param_vector(arr(s["weights"]))
    else:
        fa = FunctionApproximatorLWR(s["n"], s["height"])
        fa.train(inputs, np.sin(3.0 * inputs))
        fa.set_selected_param_names(["slopes", "offsets"])
        fa.set_param_vector(np.concatenate((arr(s["slopes"]), arr(s["offsets"]))))
    return fa


def fa_reference(s, x):
    """Independent evaluation of the function approximator of the specification."""
    x = np.asarray(x, dtype=float).reshape(-1, 1)
    n = s["n"]
    c = np.linspace(0.0, 1.0, n)
    w = np.ones(n)
    if n > 1:
        w = np.full(n, (c[1] - c[0]) / np.sqrt(-8 * np.log(s["height"])))
    act = np.exp(-0.5 * ((x - c) / w) ** 2)
    if s["kind"] == "RBFN":
        return act @ arr(s["weights"])
    if n == 1:
        act = np.ones_like(act)
    act = act / act.sum(axis=1, keepdims=True)
    return np.sum(act * (x * arr(s["slopes"]) + arr(s["offsets"])), axis=1)


@st.composite
def custom_systems(draw, s, lo=0.7):
    """Subsystems passed by the user, with time constants that differ from the one of the DMP."""
    ratio = real(lo, 1.6)
    c = {}
    parts = draw(st.lists(st.sampled_from(["phase", "gating", "goal", "damping"]), min_size=1, max_size=4, unique=True))
    if "phase" in parts:
        c["phase"] = {"kind": draw(st.sampled_from(["up", "down", "exp"])), "ratio": draw(ratio), "alpha": draw(real(2.0, 6.0))}
    if "gating" in parts:
        c["gating"] = {"kind": draw(st.sampled_from(["exp", "richards"])), "ratio": draw(real(1.0, 1.6)), "alpha": draw(real(4.0, 8.0))}
    if "goal" in parts:
        c["goal"] = {"kind": draw(st.sampled_from(["exp", "richards"])), "ratio": draw(ratio), "alpha": draw(real(8.0, 14.0))}
    if "damping" in parts:
        c["damping"] = {"ratio": draw(ratio), "alpha": draw(real(3.0, 6.0)), "init": draw(st.one_of(real(0.1, 1.0), vec(real(0.1, 1.0), len(s["y_init"]))))}
    return c


@st.composite
def custom_systems_cpp(draw, goal=True):
    """Subsystems passed by the user, of the classes that C++ has, too."""
    ratio = st.one_of(st.just(1.0), real(0.7, 1.6))
    c = {}
    parts = draw(st.lists(st.sampled_from(["phase", "gating"] + (["goal"] if goal else [])), min_size=1, max_size=3, unique=True))
    if "phase" in parts:
        c["phase"] = {"kind": draw(st.sampled_from(["up", "down", "exp", "exp"])), "ratio": draw(ratio), "alpha": draw(real(2.0, 6.0))}
    if "gating" in parts:
        c["gating"] = {"kind": draw(st.sampled_from(["exp", "exp", "sigmoid"])), "ratio": draw(ratio), "alpha": draw(real(4.0, 8.0))}
    if "goal" in parts:
        c["goal"] = {"kind": "exp", "ratio": draw(ratio), "alpha": draw(real(8.0, 14.0))}
    return c


def custom_kwargs(s):
    from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
    from dmpbbo.dynamicalsystems.RichardsSystem import RichardsSystem
    from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
    from dmpbbo.dynamicalsystems.TimeSystem import TimeSystem

    c, kw, n = s["custom"], {}, len(s["y_init"])
    if "phase" in c:
        p = c["phase"]
        tau = s["tau"] * p["ratio"]
        kw["phase_system"] = ExponentialSystem(tau, 1, 0, p["alpha"]) if p["kind"] == "exp" else TimeSystem(tau, p["kind"] == "down")
    if "gating" in c:
        p = c["gating"]
        tau = s["tau"] * p["ratio"]
        if p["kind"] == "exp":
            kw["gating_system"] = ExponentialSystem(tau, 1, 0, p["alpha"])
        elif p["kind"] == "sigmoid":
            kw["gating_system"] = SigmoidSystem(tau, np.ones(1), -3 * p["alpha"] / s["tau"], 0.8)
        else:
            kw["gating_system"] = RichardsSystem(tau, np.ones(1), np.zeros(1), 1.0, p["alpha"], 10.0)
    if "goal" in c:
        p = c["goal"]
        tau = s["tau"] * p["ratio"]
        x0, x1 = (np.zeros(n), np.ones(n)) if scaled_goal(s) else (arr(s["y_init"]), arr(s["y_attr"]))
        if p["kind"] == "exp":
            kw["goal_system"] = ExponentialSystem(tau, x0, x1, p["alpha"])
        else:
            kw["goal_system"] = RichardsSystem(tau, x0, x1, 0.3, p["alpha"], 1.0)
    if "damping" in c:
        p = c["damping"]
        d = s["alpha"] * arr(s.get("stiff", [1.0] * n))
        kw["damping_system"] = ExponentialSystem(s["tau"] * p["ratio"], arr(p["init"]) * d, d, p["alpha"])
    return kw


def scaled_goal(s):
    """The goal system runs from 0 to 1 and is scaled to the distance."""
    return s["type"].startswith("SCT23") and "NO_SCALING" not in s["type"]


def sigmoid_gating(s):
    """The gating system is a sigmoid, whose rate is fixed when it is made."""
    if "gating" in s.get("custom", {}):
        return s["custom"]["gating"]["kind"] == "sigmoid"
    return family(s["type"]) == "kul"


@st.composite
def dmp_spec(draw, types=TYPES, max_dims=3, fas=None, scalings=SCALINGS, min_dist=0.0, alias=True, amp=500.0, via=False, custom=False, big=20):
    n = draw(size(1, max_dims, max_dims + 4))
    t = draw(st.sampled_from(types))
    s = {
        "type": t,
        "tau": draw(log_real(0.1, 10.0)),
        "y_init": draw(vec(real(-3.0, 3.0), n)),
        "alpha": draw(st.one_of(st.just(20.0), real(10.0, 40.0))),
        "scaling": draw(st.sampled_from(scalings)),
    }
    dist = draw(vec(st.one_of(real(max(0.1, min_dist), 3.0), real(-3.0, -max(0.1, min_dist))), n))
    if min_dist == 0.0 and draw(st.integers(0, 5)) == 0:
        dist[draw(st.integers(0, n - 1))] *= draw(st.sampled_from([0.0, 0.0, 1e-2, 1e-4, 1e-7]))
    s["y_attr"] = [a + b for a, b in zip(s["y_init"], dist)]
    if min_dist == 0.0 and draw(st.integers(0, 9)) == 0:
        # Equal up to rounding
        s["y_attr"][-1] = few_ulps(s["y_init"][-1], draw(st.integers(-4, 4)))
    if draw(st.integers(0, 4)) == 0:
        # Spring-damper system passed explicitly, with a mass
        s["mass"] = draw(real(0.5, 2.0))
        s["alpha"] = s["alpha"] * s["mass"]
    if s["scaling"] == "AMPLITUDE_SCALING":
        s["amplitudes"] = draw(vec(real(0.1, 3.0), n))
    if alias and t in ALIASES and draw(st.integers(0, 3)) == 0:
        s["type_name"] = ALIASES[t]
    if fas is None:
        fas = draw(st.sampled_from(["yes", "yes", "yes", "none"]))
    s["fas"] = [draw(fa_spec(amp=amp, big=big)) for _ in range(n)] if fas == "yes" else None
    if custom and draw(st.integers(0, 2)) == 0:
        s["custom"] = draw(custom_systems(s))
    if custom and draw(st.integers(0, 3)) == 0:
        s["stiff"] = draw(vec(real(0.7, 1.4), n))  # damping coefficients differ between dimensions
    if via and draw(st.booleans()):
        # The DMP is made with other values first, (maybe) used, and then set to the final values
        s["via"] = {"use": draw(st.booleans()), "set": draw(st.lists(st.sampled_from(["tau", "y_init", "y_attr"]), min_size=1, max_size=4))}
        if sigmoid_gating(s):  # the rate of its gating system is fixed when it is made
            s["via"]["set"] = [x for x in s["via"]["set"] if x != "tau"]
        for x in s["via"]["set"]:
            how = draw(change(1e-4))
            new = draw(log_real(0.3, 3.0)) if x == "tau" else draw(vec(real(-3.0, 3.0), n))
            new = changed(how, 1.0 if x == "tau" else s[x], new)
            s["via"][x] = new.tolist() if x != "tau" else float(new)
    return s


def build_dmp(s, fas="spec", cls=None, **kwargs):
    from dmpbbo.dmps.Dmp import Dmp

    cls = cls or Dmp
    if s.get("via"):
        v = s["via"]
        first = {k: x for k, x in s.items() if k != "via"}
        if "tau" in v:
            first["tau"] = s["tau"] * v["tau"]
        first.update({k: v[k] for k in ("y_init", "y_attr") if k in v})
        dmp = build_dmp(first, fas, cls, **kwargs)
        if v["use"]:
            ts = np.linspace(0.0, first["tau"], 5)
            dmp.analytical_solution(ts)
            dmp.integrate(ts)
        for k in v["set"]:
            if k == "tau":
                dmp.tau = s["tau"]
            else:
                setattr(dmp, k, arr(s[k]))
        return dmp
    if isinstance(fas, str):
        fas = [build_fa(f) for f in s["fas"]] if s["fas"] is not None else None
    kw = {"dmp_type": s.get("type_name", s["type"]), "forcing_term_scaling": s["scaling"]}
    if "mass" in s or "stiff" in s:
        from dmpbbo.dynamicalsystems.SpringDamperSystem import SpringDamperSystem

        damping = s["alpha"] * arr(s["stiff"]) if "stiff" in s else s["alpha"]
        kw["transformation_system"] = SpringDamperSystem(
            s["tau"], arr(s["y_init"]), arr(s["y_attr"]), damping, "CRITICALLY_DAMPED", s.get("mass", 1.0)
        )
    elif s["alpha"] != 20.0:
        kw["alpha_spring_damper"] = s["alpha"]
    if "amplitudes" in s:
        kw["scaling_amplitudes"] = arr(s["amplitudes"])
    if "custom" in s:
        kw.update(custom_kwargs(s))
    kw.update(kwargs)
    return cls(s["tau"], arr(s["y_init"]), arr(s["y_attr"]), fas, **kw)


# ---------------------------------------------------------------------------------------------
# Reference model: closed forms of the subsystems, written independently of the implementation


def richards(ts, tau, x0, k, t_infl, alpha, v):
    """Generalised logistic function from x0 to k with inflection at t_infl*tau."""
    ts = np.asarray(ts, dtype=float).reshape(-1, 1)
    x0, k = np.atleast_1d(np.asarray(x0, float)), np.atleast_1d(np.asarray(k, float))
    # (x-a)/(k-a) = (1 + v*exp(-alpha*v*(t-t_infl)/tau))^(-1/v)
    logistic = lambda t: np.power(1.0 + v * np.exp(-alpha * v * (t / tau - t_infl)), -1.0 / v)  # noqa
    r0 = logistic(0.0)
    a = (x0 - r0 * k) / (1.0 - r0)
    return a + (k - a) * logistic(ts)


def kink(s):
    """Time at which the phase stops (or None)."""
    c = s.get("custom", {}).get("phase")
    if c:
        return s["tau"] * c["ratio"] if c["kind"] != "exp" else None
    return None if s["type"].startswith("I") else s["tau"]


def ref_phase(s, ts):
    ts = np.asarray(ts, dtype=float)
    tau = s["tau"]
    c = s.get("custom", {}).get("phase")
    if c:
        if c["kind"] == "exp":
            return np.exp(-c["alpha"] * ts / (tau * c["ratio"]))
        up = np.minimum(ts / (tau * c["ratio"]), 1.0)
        return up if c["kind"] == "up" else 1.0 - up
    if s["type"].startswith("I"):
        return np.exp(-4.0 * ts / tau)
    up = np.minimum(ts / tau, 1.0)
    return up if s["type"].startswith("K") else 1.0 - up


def ref_gating(s, ts, gating_tau=None):
    ts = np.asarray(ts, dtype=float)
    tau = s["tau"]
    f = family(s["type"])
    c = s.get("custom", {}).get("gating")
    if c:
        if c["kind"] == "exp":
            return np.exp(-c["alpha"] * ts / (tau * c["ratio"]))
        return richards(ts, tau * c["ratio"], 1.0, 0.0, 1.0, c["alpha"], 10.0)[:, 0]
    if f == "ijs":
        return np.exp(-4.0 * ts / tau)
    if f == "kul":
        # logistic decay from 1 through 0.1 at tau, with carrying capacity 1 + 1e-6
        # (the rate is fixed when the system is made, the inflection time scales with tau)
        D = 1e-6
        tau0 = gating_tau or tau
        r = -np.log(((1 + D) / 0.1 - 1) / D) / tau0
        t_infl = -np.log(1 / D) / r / tau0 * tau
        D = np.exp(r * t_infl)
        return (1 + D) / (1 + D * np.exp(-r * ts))
    return richards(ts, tau, 1.0, 0.0, 1.0, 10.0, 10.0)[:, 0]


def ref_goal(s, ts):
    ts = np.asarray(ts, dtype=float)
    y0, g, tau = arr(s["y_init"]), arr(s["y_attr"]), s["tau"]
    f = family(s["type"])
    c = s.get("custom", {}).get("goal")
    if c:
        if c["kind"] == "exp":
            return g + (y0 - g) * np.exp(-c["alpha"] * ts.reshape(-1, 1) / (tau * c["ratio"]))
        return y0 + (g - y0) * richards(ts, tau * c["ratio"], 0.0, 1.0, 0.3, c["alpha"], 1.0)
    if f == "ijs":
        return np.tile(g, (ts.size, 1))
    if f == "kul":
        return g + (y0 - g) * np.exp(-15.0 * ts.reshape(-1, 1) / tau)
    u = richards(ts, tau, 0.0, 1.0, 0.3, 10.0, 1.0)
    return y0 + (g - y0) * u


def effs(s):
    """Damping coefficients of the spring-damper system per unit of mass (its eigenvalues are half of them)."""
    return s["alpha"] * arr(s.get("stiff", [1.0] * len(s["y_init"]))) / s.get("mass", 1.0)


def eff(s):
    """The largest of them."""
    return float(np.max(effs(s)))


def ref_damping(s, ts):
    """Damping coefficients per unit of mass (T x D)."""
    ts = np.asarray(ts, dtype=float).reshape(-1, 1)
    d = effs(s)
    c = s.get("custom", {}).get("damping")
    if c:
        return d * (1 - (1 - arr(c["init"])) * np.exp(-c["alpha"] * ts / (s["tau"] * c["ratio"])))
    if "DAMPING" in s["type"]:
        return d * (1 - 0.9 * np.exp(-4.0 * ts / s["tau"]))
    return np.tile(d, (ts.size, 1))


def ref_forcing(s, ts, fa_funcs=None, gating_tau=None):
    """Forcing terms (T x D): gating * fa(phase) * scaling."""
    n = len(s["y_init"])
    ts = np.asarray(ts, dtype=float)
    phase = ref_phase(s, ts)
    out = np.zeros((ts.size, n))
    if fa_funcs is not None:
        for d in range(n):
            out[:, d] = np.asarray(fa_funcs[d](phase)).reshape(-1)
    elif s["fas"] is not None:
        for d in range(n):
            out[:, d] = fa_reference(s["fas"][d], phase)
    fa_out = out.copy()
    out = out * ref_gating(s, ts, gating_tau).reshape(-1, 1)
    if s["scaling"] == "G_MINUS_Y0_SCALING":
        out = out * (arr(s["y_attr"]) - arr(s["y_init"]))
    elif s["scaling"] == "AMPLITUDE_SCALING":
        out = out * arr(s["amplitudes"])
    return out, fa_out


def ref_rollout(s, ts, substeps, fa_funcs=None, forcing=True, gating_tau=None):
    """Accurate positions, velocities, accelerations at ts (RK4 on the second order system).

    Each interval of ts is divided into 'substeps' steps; interval borders should include tau,
    where the phase of some types has a kink.
    """
    ts = np.asarray(ts, dtype=float)
    tau = s["tau"]
    n = len(s["y_init"])
    k = effs(s) ** 2 / 4
    # half-step grid
    m = 2 * substeps
    fr = np.arange(m) / m
    grid = np.concatenate([(ts[i] + (ts[i + 1] - ts[i]) * fr) for i in range(ts.size - 1)] + [ts[-1:]])
    g = ref_goal(s, grid)
    d = ref_damping(s, grid)
    F = ref_forcing(s, grid, fa_funcs, gating_tau)[0] if forcing else np.zeros((grid.size, n))
    y = arr(s["y_init"])
    z = np.zeros(n)
    ys = np.empty((ts.size, n))
    zs = np.empty((ts.size, n))

    def f(i, y, z):
        return z / tau, (k * (g[i] - y) - d[i] * z + F[i]) / tau

    ys[0], zs[0] = y, z
    for i in range(ts.size - 1):
        for j in range(substeps):
            q = i * m + 2 * j
            h = grid[q + 2] - grid[q]
            a1, b1 = f(q, y, z)
            a2, b2 = f(q + 1, y + 0.5 * h * a1, z + 0.5 * h * b1)
            a3, b3 = f(q + 1, y + 0.5 * h * a2, z + 0.5 * h * b2)
            a4, b4 = f(q + 2, y + h * a3, z + h * b3)
            y = y + h * (a1 + 2 * a2 + 2 * a3 + a4) / 6
            z = z + h * (b1 + 2 * b2 + 2 * b3 + b4) / 6
        ys[i + 1], zs[i + 1] = y, z
    idx = np.arange(ts.size) * m
    yds = zs / tau
    ydds = (k * (g[idx] - ys) - d[idx] * zs + F[idx]) / tau**2
    return ys, yds, ydds


def movement_scale(s):
    """Magnitude of positions, from distance and forcing terms (gain of the spring is 1/k)."""
    k = float(np.min(effs(s))) ** 2 / 4
    ts = np.linspace(0, 2 * s["tau"], 101)
    F = ref_forcing(s, ts)[0]
    if "custom" in s:  # any phase, no gating
        F = ref_forcing(dict({k: v for k, v in s.items() if k != "custom"}, type="COUNTDOWN_2013"), ts, gating_tau=100 * s["tau"])[0]
    dist = np.abs(arr(s["y_attr"]) - arr(s["y_init"]))
    return float(np.max(dist) + np.max(np.abs(F)) / k * 2 + 0.01)


def spring_parts(dmp, xs, xds):
    """Positions, velocities and accelerations through the public interface."""
    traj = dmp.states_as_trajectory(np.arange(xs.shape[0], dtype=float), xs, xds)
    return traj.ys, traj.yds, traj.ydds
