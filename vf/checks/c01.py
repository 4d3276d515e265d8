"""C01: closed-form solutions solve their differential equation."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close
from vf.gen import real, size
from vf.systems import build, fastest_rate, rate_scale, system_spec, x_init_of

RULE = (
    "A case is a system (kind, parameters scalar or per dimension, initial/attractor state, time constant) and query "
    "times; non-trivial: the initial state differs from the attractor and at least 3 distinct query times"
)


@st.composite
def cases(draw):
    s = draw(system_spec())
    n = draw(st.one_of(size(3, 8, 60), st.integers(1, 8)))
    # in multiples of tau; unsorted, possibly repeated, includes 0 and beyond tau
    rel = draw(st.lists(st.one_of(real(0.0, 2.0), real(0.0, 1.0)), min_size=n, max_size=n))
    if draw(st.integers(0, 9)) == 9:
        rel[draw(st.integers(0, n - 1))] = draw(real(2.0, 40.0))
    if s["kind"] == "time":
        rel = sorted(rel)
    return {"sys": s, "t": rel}


def run(case, ctx):
    s = case["sys"]
    sys_ = build(s)
    tau = s["tau"]
    ts = np.array(case["t"]) * tau
    kind = s["kind"]
    ctx.label(kind)
    x0 = x_init_of(s)
    dim_x = x0.size
    check(sys_.dim_x == dim_x, "dim_x", got=sys_.dim_x)

    ts_copy = ts.copy()
    xs, xds = sys_.analytical_solution(ts)
    check(np.array_equal(ts, ts_copy), "analytical_solution altered the times")
    check(np.shape(xs) == (ts.size, dim_x) and np.shape(xds) == (ts.size, dim_x), "shapes", got=(np.shape(xs), np.shape(xds)))
    S = rate_scale(s, xs)
    R = fastest_rate(s)
    ctx.nt(np.unique(ts).size >= 3 and np.max(np.abs(xds)) > 1e-6)

    # 1. Starts at the initial state
    x_at_0, xd_at_0 = sys_.analytical_solution(np.array([0.0]))
    close(x_at_0[0], x0, "state at time 0 is not the initial state", rtol=1e-9, atol=0, scale=S)

    # 2. Reported rates are those of the differential equation at the reported states
    rtol = 1e-8
    for i, t in enumerate(ts):
        if kind == "time" and abs(t - tau) < 1e-9 * tau:
            continue  # the rate is discontinuous here
        xd = np.asarray(sys_.differential_equation(xs[i, :])).reshape(-1)
        scale = S * R
        if kind == "spring":
            # first half: z/tau, second half: (k*y + d*z)/(m*tau)
            m = np.asarray(s["mass"])
            d = np.asarray(s["damping"])
            scale = S * float(np.max(d * d / (4 * m) + d)) / float(np.min(m)) / tau + S / tau
        close(xds[i, :], xd, "rate of change differs from the differential equation", rtol=rtol, atol=0, scale=scale, t=t)
        ref = reference_rate(s, xs[i, :])
        if ref is not None:
            close(xd, ref, "the differential equation is not the one with the parameters passed", rtol=rtol, atol=0, scale=scale, t=t)

    # 3. Reported rates are the time derivatives of the reported states (4th order central differences)
    h = 2e-3 / R
    if kind == "time":
        h = 1e-3 * tau
        keep = (np.abs(ts - tau) > 3 * h) & (ts > 3 * h)
        ts, xs, xds = ts[keep], xs[keep], xds[keep]
    if ts.size:
        f = lambda k: sys_.analytical_solution(ts + k * h)[0]  # noqa
        num = (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)
        close(num, xds, "rate of change is not the time derivative of the state", rtol=1e-6, atol=0, scale=S * R * (1 if kind != "spring" else 1 + tau))

    # 4. Sigmoid and Richards systems change fastest at the specified inflection time
    if kind == "sigmoid" and "gating_ratio" not in s:
        ratio = np.broadcast_to(np.asarray(s["inflection_ratio"], float), (dim_x,))
        r = np.broadcast_to(np.asarray(s["max_rate"], float), (dim_x,))
        for d in range(dim_x):
            ti = ratio[d] * tau
            x, xd = sys_.analytical_solution(np.array([ti - 0.1 / R, ti, ti + 0.1 / R]))
            v = np.abs(xd[:, d])
            check(v[1] >= v[0] * (1 - 1e-9) and v[1] >= v[2] * (1 - 1e-9), "not fastest at the inflection time", v=v)
            close(xd[1, d], r[d] * x[1, d] / 2, "rate at inflection", rtol=1e-9, atol=0, scale=abs(r[d] * S))
    if kind == "sigmoid" and "gating_ratio" in s:
        x, _ = sys_.analytical_solution(np.array([tau]))
        close(x[0], np.full(dim_x, s["gating_ratio"]), "gating system at tau", rtol=1e-6)
    if kind == "richards" and "left" not in s:
        ratio = np.broadcast_to(np.asarray(s["t_infl_ratio"], float), (dim_x,))
        for d in range(dim_x):
            if abs(s["y_attr"][d] - s["y_init"][d]) < 1e-3:
                continue  # (nearly) at rest
            ti = ratio[d] * tau
            _, xd = sys_.analytical_solution(np.array([ti - 0.1 / R, ti, ti + 0.1 / R]))
            v = np.abs(xd[:, d])
            check(v[1] >= v[0] * (1 - 1e-9) and v[1] >= v[2] * (1 - 1e-9), "not fastest at the inflection time", v=v)
    if kind == "richards":
        slow = float(np.min(np.asarray(s["alpha"]) * np.asarray(s["v"])))
        x, _ = sys_.analytical_solution(np.array([(1.5 + 60.0 / slow) * tau]))
        close(x[0], np.array(s["y_attr"]), "does not approach its attractor", rtol=1e-6, scale=S)
    if kind in ("exp", "spring"):
        x, _ = sys_.analytical_solution(np.array([400.0 / (R if kind == "spring" else min(np.atleast_1d(s["alpha"])) / tau) * (1 if kind == "exp" else slow_ratio(s))]))
        close(x[0][: len(s["y_attr"])], np.array(s["y_attr"]), "does not approach its attractor", rtol=1e-9, scale=S)


def reference_rate(s, x):
    """The documented differential equation, with the parameters passed to the constructor."""
    k, tau = s["kind"], s["tau"]
    p = lambda name: np.asarray(s[name], dtype=float)  # noqa
    if k == "exp":
        return p("alpha") * (p("y_attr") - x) / tau
    if k == "spring":
        d, m = p("damping"), p("mass")
        n = x.size // 2
        y, z = x[:n], x[n:]
        # critically damped
        return np.concatenate((z, (d * d / (4 * m) * (p("y_attr") - y) - d * z) / m)) / tau
    if k == "richards":
        a, v, y0, y1 = p("alpha"), p("v"), p("y_init"), p("y_attr")
        if "left" in s:
            left = p("left")
        else:
            z = (v * np.exp(a * v * p("t_infl_ratio")) + 1) ** (1 / v)
            left = y0 - (y1 - y0) / (z - 1)
        if np.any(y1 == left):
            return None  # at rest
        return a * (1 - np.power((x - left) / (y1 - left), v)) * (x - left) / tau
    return None


def slow_ratio(s):
    w = np.atleast_1d(np.asarray(s["damping"]) / (2 * np.asarray(s["mass"])))
    return float(np.max(w) / np.min(w))


SUBS = [Sub("closed_form", cases, run, quick=6000, thorough=200000, shards=8)]
