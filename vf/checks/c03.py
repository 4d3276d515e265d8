"""C03: a reconfigured dynamical system equals a freshly built one (model-based histories)."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, raises
from vf.gen import change, changed, log_real, real, size, vec
from vf.systems import STATE, Passed, arr, build, dims, fastest_rate, par, rate_scale, system_spec, x_init_of

RULE = (
    "A case is a system and a history of up to 8 operations (set tau / y_init / x_init / y_attr / count_down, decouple, "
    "solve, integrate, integrate_start with a new state, rejected calls); after every operation the system is compared with one "
    "built from the final values. Non-trivial: at least two reconfigurations, at least one of them after a solve or integrate"
)


@st.composite
def cases(draw):
    s = draw(system_spec().filter(lambda s: "gating_ratio" not in s))
    n = dims(s)
    kind = s["kind"]
    ops = []
    # values that keep a Richards system well defined: y_init and y_attr keep their order
    names = ["tau", "solve", "integrate", "decouple", "reject"]
    if kind == "time":
        names += ["count_down", "count_down"]
    else:
        names += ["y_init", "x_init", "start"]
    if kind in ("exp", "spring", "richards"):
        names += ["y_attr", "y_attr"]
    if kind == "exp":
        names += ["x_attr"]
    for _ in range(draw(size(1, 8, 20))):
        op = draw(st.sampled_from(names))
        if op == "tau":
            ops.append([op, draw(real(0.3, 1.5)), draw(change())])  # factor of the original tau
        elif op in ("y_init", "start", "x_init"):
            ops.append([op, draw(vec(real(0.0, 1.0), n)), draw(vec(STATE, n)), draw(change())])
        elif op in ("y_attr", "x_attr"):
            ops.append([op, draw(vec(real(0.0, 1.0), n)), draw(change())])
        elif op == "count_down":
            ops.append([op, draw(st.booleans())])
        else:
            ops.append([op])
    ints = draw(st.integers(0, 3)) == 0 and kind in ("exp", "spring")
    if ints:
        for k in ("y_init", "y_attr"):
            s[k] = [float(round(x)) for x in s[k]]
    return {"sys": s, "ops": ops, "ints": ints, "t": draw(st.lists(real(0.0, 1.5), min_size=2, max_size=4)), "observe": draw(st.sampled_from(["every", "end"]))}


def value(kind, what, s, fr):
    """Map numbers in [0,1] to admissible new values."""
    fr = arr(fr)
    if kind == "sigmoid":
        return np.sign(arr(s["y_init"])) * (0.05 + 4.0 * fr)
    if kind == "richards":
        a0, k0 = arr(s["_y0"]), arr(s["_k0"])
        if what == "y_init":
            return a0 + (k0 - a0) * (0.45 * fr)
        return a0 + (k0 - a0) * (0.55 + fr)
    return -5.0 + 10.0 * fr


def compare(sys_, s, ts_rel, msg):
    fresh = build(s)
    tau = s["tau"]
    x0 = x_init_of(s)
    ts = np.array(ts_rel) * tau
    if s["kind"] == "time":
        ts = np.sort(ts)
        ts = ts[np.abs(ts - tau) > 1e-9 * tau]
    close(np.asarray(sys_.tau), tau, msg + ": tau", rtol=1e-14, atol=0)
    close(np.asarray(sys_.x_init).reshape(-1), x0, msg + ": x_init", rtol=1e-14, atol=0)
    close(np.asarray(sys_.y_init).reshape(-1), x0[: sys_.dim_y], msg + ": y_init", rtol=1e-14, atol=0)
    if s["kind"] in ("exp", "spring", "richards"):
        close(np.asarray(sys_.y_attr).reshape(-1), arr(s["y_attr"]), msg + ": y_attr", rtol=1e-14, atol=0)
    xs, xds = sys_.analytical_solution(ts)
    xf, xdf = fresh.analytical_solution(ts)
    S = rate_scale(s, xf)
    close(xs, xf, msg + ": closed form states", rtol=1e-11, atol=0, scale=S)
    R = fastest_rate(s)
    # Rates depend on differences of nearly equal numbers: tolerance relative to S * R
    k = 1.0
    if s["kind"] == "spring":
        m, d = np.asarray(par(s["mass"])), np.asarray(par(s["damping"]))
        k = float(np.max(d * d / (4 * m) + d)) / float(np.min(m)) / tau / R + 1 / (tau * R)
    close(xds, xdf, msg + ": closed form rates", rtol=1e-11, atol=0, scale=S * R * k)
    x = xf[-1] if ts.size else x0
    close(np.asarray(sys_.differential_equation(x)).reshape(-1), np.asarray(fresh.differential_equation(x)).reshape(-1), msg + ": differential equation", rtol=1e-11, atol=0, scale=S * R * k)
    a, ad = sys_.integrate_start()
    b, bd = fresh.integrate_start()
    close(np.asarray(a).reshape(-1), np.asarray(b).reshape(-1), msg + ": integrate_start", rtol=1e-13, atol=0)
    close(np.asarray(ad).reshape(-1), np.asarray(bd).reshape(-1), msg + ": integrate_start rate", rtol=1e-11, atol=0, scale=S * R * k)
    h = 0.1 / R
    u, _ = sys_.integrate_step(h, a)
    v, _ = fresh.integrate_step(h, b)
    close(np.asarray(u).reshape(-1), np.asarray(v).reshape(-1), msg + ": integrate_step", rtol=1e-11, atol=0, scale=S * k)


def run(case, ctx):
    s = dict(case["sys"])
    kind = s["kind"]
    passed = Passed(case["ints"])
    sys_ = build(s, passed)
    base_tau = s["tau"]
    if kind == "richards":
        s["_y0"], s["_k0"] = s["y_init"], s["y_attr"]
    changes, used, mixed = 0, False, False
    for op in case["ops"]:
        name = op[0]
        msg = f"after {name}"
        if name == "tau":
            s["tau"] = float(changed(op[2], s["tau"], base_tau * op[1]))
            sys_.tau = s["tau"]
        elif name in ("y_init", "start", "x_init"):
            if "left" in s:
                continue
            y = value(kind, "y_init", s, op[1])
            if "y_init" in s:
                y = changed(op[3], arr(s["y_init"]), y)
            s["y_init"] = y.tolist()
            s.pop("z_init", None)
            if name == "y_init":
                sys_.y_init = passed(y)
            elif name == "start":
                sys_.integrate_start(passed(y))
            elif kind == "spring":
                s["z_init"] = list(op[2])
                sys_.x_init = passed(np.concatenate((y, arr(op[2]))))
            else:
                sys_.x_init = passed(y)
        elif name in ("y_attr", "x_attr"):
            if "left" in s:
                continue
            y = changed(op[2], arr(s["y_attr"]), value(kind, "y_attr", s, op[1]))
            s["y_attr"] = y.tolist()
            setattr(sys_, name, passed(y))
        elif name == "count_down":
            s["count_down"] = op[1]
            sys_.count_down = op[1]
            check(sys_.count_down == op[1], "count_down getter")
        elif name == "decouple":
            sys_.decouple_parameters()
        elif name == "solve":
            sys_.analytical_solution(np.array([0.0, 0.5, 1.0]) * s["tau"])
        elif name == "integrate":
            sys_.integrate(np.linspace(0.0, 1.0, 4) / fastest_rate(s))
        elif name == "reject":
            n = sys_.dim_x
            raises(ValueError, lambda: setattr(sys_, "x_init", np.ones(n + 1)), "x_init of wrong size")
            if kind != "time":
                raises(ValueError, lambda: setattr(sys_, "y_init", np.ones(sys_.dim_y + 1)), "y_init of wrong size")
                raises(ValueError, lambda: sys_.integrate_start(np.ones(sys_.dim_y + 1)), "integrate_start of wrong size")
            if kind == "exp":
                raises(ValueError, lambda: setattr(sys_, "x_attr", np.ones(n + 1)), "x_attr of wrong size")
            if kind in ("exp", "spring", "richards"):
                raises(ValueError, lambda: setattr(sys_, "y_attr", np.ones(sys_.dim_y + 1)), "y_attr of wrong size")
        if name in ("solve", "integrate", "start"):
            used = True
        elif name not in ("reject", "decouple"):
            changes += 1
            mixed = mixed or used
        ctx.label(name)
        if case["observe"] == "every":
            compare(sys_, s, case["t"], msg)
            used = True
    compare(sys_, s, case["t"], "at the end")
    passed.check()
    ctx.nt(changes >= 2 and mixed)


@st.composite
def stretch_cases(draw):
    s = draw(system_spec(kinds=("exp", "richards", "time", "spring")))
    return {"sys": s, "c": draw(log_real(0.1, 10.0)), "t": draw(st.lists(real(0.0, 2.0), min_size=2, max_size=6)), "decouple": draw(st.booleans())}


def run_stretch(case, ctx):
    s = case["sys"]
    sys_ = build(s)
    tau, c = s["tau"], case["c"]
    ts = np.sort(np.array(case["t"])) * tau
    if s["kind"] == "time":
        ts = ts[np.abs(ts - tau) > 1e-9 * tau]
        if ts.size == 0:
            return
    if case["decouple"]:
        sys_.decouple_parameters()
    xs, xds = sys_.analytical_solution(ts)
    x_probe = xs[-1]
    f0 = np.asarray(sys_.differential_equation(x_probe)).reshape(-1)
    sys_.tau = tau * c
    xs2, xds2 = sys_.analytical_solution(ts * c)
    f1 = np.asarray(sys_.differential_equation(x_probe)).reshape(-1)
    S = rate_scale(s, xs)
    M = float(np.max(np.abs(xds))) + S * fastest_rate(s) * (1 + (np.max(np.asarray(s["damping"])) if s["kind"] == "spring" else 0))
    close(xs2, xs, "states do not scale with tau", rtol=1e-10, atol=0, scale=S)
    close(xds2 * c, xds, "rates do not scale with tau", rtol=1e-10, atol=0, scale=M)
    close(f1 * c, f0, "differential equation does not scale with tau", rtol=1e-10, atol=0, scale=M)
    ctx.label(s["kind"])
    ctx.nt(abs(c - 1) > 0.01 and np.max(np.abs(xds)) > 1e-6)


SUBS = [
    Sub("histories", cases, run, quick=5000, thorough=100000, shards=7),
    Sub("time_stretch", stretch_cases, run_stretch, quick=2000, thorough=50000, shards=2),
]
