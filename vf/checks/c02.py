"""C02: numerical integration steps follow the differential equation."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, raises, same
from vf.gen import real
from vf.systems import STATE, arr, build, dims, fastest_rate, rate_scale, system_spec, x_init_of

RULE = (
    "A case is a dynamical system (all kinds, scalar/per-dimension parameters), a state along or near its solution, step "
    "sizes and a non-uniform time grid; non-trivial: the state changes during the integration"
)


def ref_rk4(f, dt, x):
    k1 = f(x)
    k2 = f(x + 0.5 * dt * k1)
    k3 = f(x + 0.5 * dt * k2)
    k4 = f(x + dt * k3)
    return x + dt / 6.0 * k1 + dt / 3.0 * k2 + dt / 3.0 * k3 + dt / 6.0 * k4


def behaviour(sys_, x, tau):
    """What the system does, for before/after comparison."""
    ts = np.array([0.0, 0.3, 0.9]) * tau
    return [flat(sys_.differential_equation(x)), flat(sys_.x_init), np.asarray(sys_.tau)] + [np.array(a) for a in sys_.analytical_solution(ts)]


@st.composite
def cases(draw):
    s = draw(system_spec())
    n = dims(s)
    c = {
        "sys": s,
        # state: point of the solution at time t_rel*tau plus a small perturbation
        "t_rel": draw(real(0.0, 1.5)),
        "pert": draw(st.lists(real(-0.2, 0.2), min_size=2 * n, max_size=2 * n)),
        "dt_rel": draw(real(0.001, 0.5)),  # in units of 1/fastest rate
        "grid": draw(st.lists(real(0.3, 1.0), min_size=1, max_size=12)),
    }
    if s["kind"] not in ("time",) and "gating_ratio" not in s and draw(st.booleans()):
        if draw(st.integers(0, 5)) == 0 and "y_init" in s:
            c["new_y_init"] = list(s["y_init"])  # not new, but the velocity may be
        elif s["kind"] in ("sigmoid",):
            c["new_y_init"] = [v * f for v, f in zip(s["y_init"], draw(st.lists(real(0.2, 2.0), min_size=n, max_size=n)))]
        elif s["kind"] == "richards":
            lo = 0.0 if "left" in s else -1.0  # never beyond an explicit left asymptote
            c["new_y_init"] = [
                a + (b - a) * f
                for a, b, f in zip(s["y_init"], s["y_attr"], draw(st.lists(real(lo, 0.8), min_size=n, max_size=n)))
            ]
        else:
            c["new_y_init"] = draw(st.lists(STATE, min_size=n, max_size=n))
    return c


def flat(x):
    return np.asarray(x, dtype=float).reshape(-1)


def run(case, ctx):
    s = case["sys"]
    sys_ = build(s)
    kind = s["kind"]
    ctx.label(kind)
    x0 = x_init_of(s)
    R = fastest_rate(s)
    tau = s["tau"]
    x = sys_.analytical_solution(np.array([case["t_rel"] * tau]))[0][0]
    if kind == "richards":
        # perturbing may leave the region between the asymptotes, where the system is undefined: move along the solution only
        pass
    else:
        x = x * (1 + arr(case["pert"][: x.size]))
    dt = case["dt_rel"] / R
    x_in = x.copy()

    def f(state):
        return flat(sys_.differential_equation(state))

    fx = f(x)
    S = rate_scale(s, x) + dt * np.max(np.abs(fx))
    before = behaviour(build(s), x, tau)

    # Single steps against reference formulas
    xe, xde = sys_.integrate_step_euler(dt, x)
    close(flat(xe), x_in + dt * fx, "Euler step", rtol=1e-12, atol=0, scale=S)
    xe = flat(xe)
    xde = flat(xde)
    check(np.allclose(xde, fx, rtol=1e-12, atol=0) or np.allclose(xde, f(xe), rtol=1e-12, atol=1e-300), "rate of change of Euler step", got=xde, old=fx, new=f(xe))
    for name, step in [("Runge-Kutta", sys_.integrate_step_runge_kutta), ("default", sys_.integrate_step)]:
        xr, xdr = step(dt, x)
        xr, xdr = flat(xr), flat(xdr)
        close(xr, ref_rk4(f, dt, x_in), f"{name} step", rtol=1e-11, atol=0, scale=S)
        close(xdr, f(xr), f"rate of change of {name} step", rtol=1e-12, atol=1e-300)
    same(x, x_in, "integration step changed the state passed in")
    ctx.nt(np.max(np.abs(flat(xr) - x_in)) > 1e-9)

    # Wrong state size
    wrong = np.zeros(x.size + 1)
    raises(ValueError, lambda: sys_.integrate_step(dt, wrong), "state of wrong size in integrate_step")
    raises(ValueError, lambda: sys_.integrate_step_euler(dt, wrong), "state of wrong size in integrate_step_euler")
    raises(ValueError, lambda: sys_.integrate_step_runge_kutta(dt, wrong), "state of wrong size in integrate_step_runge_kutta")

    # integrate() = integrate_start + steps on any grid
    ts = np.concatenate(([0.0], np.cumsum(arr(case["grid"]) * dt)))
    ts_in = ts.copy()
    for method in ("Runge-Kutta", "Euler", None):
        kw = {} if method is None else {"integration_method": method}
        xs, xds = sys_.integrate(ts, **kw)
        check(np.shape(xs) == (ts.size, x0.size) == np.shape(xds), "integrate: shapes")
        close(xs[0], x0, "integrate does not start at the initial state", rtol=1e-13, atol=0)
        close(xds[0], f(x0), "initial rate of change", rtol=1e-12, atol=1e-300)
        cur = x0
        for i in range(1, ts.size):
            h = ts[i] - ts[i - 1]
            nxt = cur + h * f(cur) if method == "Euler" else ref_rk4(f, h, cur)
            S2 = rate_scale(s, nxt)
            close(xs[i], nxt, f"integrate({method}) step {i}", rtol=1e-10, atol=0, scale=S2)
            if method != "Euler":
                close(xds[i], f(xs[i]), "rate of change in integrate", rtol=1e-12, atol=1e-300)
            cur = flat(xs[i])
    same(ts, ts_in, "integrate changed the times")
    for va, vb in zip(behaviour(sys_, x_in, tau), before):
        same(va, vb, "integration altered the system")

    # integrate_start: with and without new initial state; caller may modify what is returned
    xa, xda = sys_.integrate_start()
    close(flat(xa), x0, "integrate_start state", rtol=1e-13, atol=0)
    close(flat(xda), f(x0), "integrate_start rate of change", rtol=1e-12, atol=1e-300)
    xa += 1.0
    xb, _ = sys_.integrate_start()
    close(flat(xb), x0, "modifying the returned initial state changed the system", rtol=1e-13, atol=0)
    if "new_y_init" in case:
        y = arr(case["new_y_init"])
        xn, xdn = sys_.integrate_start(y.copy())
        exp = np.zeros(x0.size)
        exp[: y.size] = y
        close(flat(xn), exp, "integrate_start(y_init)", rtol=1e-13, atol=0)
        close(flat(xdn), f(exp), "integrate_start(y_init) rate", rtol=1e-12, atol=1e-300)
        xs, _ = sys_.integrate(ts)
        close(xs[0], exp, "integrate after integrate_start(y_init)", rtol=1e-13, atol=0)
        ctx.label("new_y_init")


@st.composite
def conv_cases(draw):
    s = draw(system_spec())
    return {"sys": s, "T": draw(real(0.1, 1.0)), "wob": draw(st.lists(real(0.4, 1.6), min_size=2, max_size=6))}


def run_conv(case, ctx):
    """Order of convergence to the closed form on non-uniform grids."""
    s = case["sys"]
    sys_ = build(s)
    R = fastest_rate(s)
    tau = s["tau"]
    if s["kind"] == "spring":
        R = R * 2
    T = min(case["T"] * tau, 3.0 / R)
    if s["kind"] == "richards":
        T = min(case["T"] * tau, 1.5 * tau)
        T = min(T, 30.0 / R)
    ctx.label(s["kind"])

    def grid(n):
        w = np.resize(arr(case["wob"]), n)
        w = np.repeat(w[: n // 2], 2)[:n] if n % 2 == 0 else w
        return np.concatenate(([0.0], np.cumsum(w / w.sum() * T)))

    def refine(ts):
        out = np.empty(2 * ts.size - 1)
        out[::2] = ts
        out[1::2] = 0.5 * (ts[1:] + ts[:-1])
        return out

    n0 = int(np.ceil(T * R * 10)) + 4
    n0 += n0 % 2
    g1 = grid(n0)
    g2 = refine(g1)
    g3 = refine(g2)
    S = 0.0
    errs = {}
    for method in ("Euler", "Runge-Kutta"):
        e = []
        for g in (g1, g2, g3):
            xs, _ = sys_.integrate(g, integration_method=method)
            xa, _ = sys_.analytical_solution(g)
            S = rate_scale(s, xa)
            e.append(float(np.max(np.abs(xs - xa))) / S)
        errs[method] = e
    ctx.nt(float(np.max(np.abs(xa - xa[0]))) > 1e-6)
    if s["kind"] == "time":
        check(errs["Euler"][0] < 2.0 / n0 * max(case["wob"]) / min(case["wob"]) and errs["Runge-Kutta"][0] < 2.0 / n0 * max(case["wob"]) / min(case["wob"]), "time system", errs=errs)
        return
    floor = 1e-11
    e = errs["Euler"]
    # observed order: halving the step sizes halves (Euler) or divides by 16 (Runge-Kutta) the error
    check(e[0] < 1.0, "Euler does not follow the closed form", e=e)
    check(e[1] <= 0.75 * e[0] + 2e-5 and e[2] <= 0.75 * e[1] + 2e-5, "Euler does not converge to the closed form", e=e)
    r = errs["Runge-Kutta"]
    check(r[0] < 2e-3, "Runge-Kutta does not follow the closed form", r=r)
    check(r[1] <= r[0] / 6 + floor and r[2] <= r[1] / 6 + floor, "Runge-Kutta is not of fourth order", r=r)


SUBS = [
    Sub("steps", cases, run, quick=3000, thorough=100000, shards=5),
    Sub("convergence", conv_cases, run_conv, quick=900, thorough=20000, shards=3),
]
