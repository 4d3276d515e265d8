"""C04: a DMP starts at its initial state and converges to its goal."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close
from vf.dmps import TYPES, build_dmp, dmp_spec, eff, family, movement_scale
from vf.gen import real
from vf.systems import arr

RULE = (
    "A case is a DMP (all types, 1-3 dimensions, time constant, start, goal, spring constant, forcing term scaling, RBFN/LWR "
    "forcing terms with arbitrary weights or none) and a time step; non-trivial: initial and goal state differ and the "
    "forcing term moves the rollout by more than 1% of the movement"
)


@st.composite
def cases(draw):
    return {"dmp": draw(dmp_spec(via=True)), "dt": draw(st.sampled_from([0.008, 0.01, 0.0125])), "new_y_init": draw(st.booleans())}


def horizon(s):
    # slowest mode: spring omega = alpha/2/tau, gating exp(-4t/tau), goal exp(-10t/tau)
    return s["tau"] * (6.0 + 50.0 / eff(s))


def conv_check(s, y, yd, ydd, what):
    M = movement_scale(s)
    tau = s["tau"]
    tol = 1e-7
    close(y, arr(s["y_attr"]), what + ": position does not converge to the goal", rtol=tol, atol=0, scale=M)
    close(yd * tau, np.zeros_like(y), what + ": velocity does not converge to zero", rtol=tol, atol=0, scale=M * eff(s) / 2)
    close(ydd * tau**2, np.zeros_like(y), what + ": acceleration does not converge to zero", rtol=tol, atol=0, scale=M * eff(s) ** 2 / 4)


def run(case, ctx):
    s = case["dmp"]
    tau = s["tau"]
    dmp = build_dmp(s)
    y0 = arr(s["y_init"])
    n = y0.size
    ctx.label(s["type"], s["scaling"])
    dt = case["dt"] * tau
    T = horizon(s)
    ts = np.arange(0.0, T, dt)
    xs, xds, forcing, _ = dmp.analytical_solution(ts)
    traj = dmp.states_as_trajectory(ts, xs, xds)
    close(traj.ys[0], y0, "closed-form rollout does not start at the initial position", rtol=1e-12, atol=1e-12)
    close(traj.yds[0], np.zeros(n), "closed-form rollout does not start at rest", atol=1e-12)
    conv_check(s, traj.ys[-1], traj.yds[-1], traj.ydds[-1], "closed form")
    fmax = np.max(np.abs(forcing))
    close(forcing[-1] / (fmax + 1e-12), np.zeros(n), "forcing term does not vanish", atol=1e-6)

    x, xd = dmp.integrate_start()
    y, yd, _ = dmp.states_as_pos_vel_acc(x, xd)
    close(y, y0, "integration does not start at the initial position", rtol=1e-12, atol=1e-12)
    close(yd, np.zeros(n), "integration does not start at rest", atol=1e-12)
    suppressed = dmp.analytical_solution(ts, suppress_forcing_term=True)
    free = dmp.states_as_trajectory(ts, suppressed[0], suppressed[1])
    dev = np.max(np.abs(free.ys - traj.ys))
    conv_check(s, free.ys[-1], free.yds[-1], free.ydds[-1], "without forcing term")
    ctx.nt(np.any(np.abs(arr(s["y_attr"]) - y0) > 0.05) and dev > 0.01 * np.max(np.abs(arr(s["y_attr"]) - y0)))
    if family(s["type"]) != "kul":
        ctx.label("suppressed")


@st.composite
def num_cases(draw):
    s = draw(dmp_spec(max_dims=2, amp=200.0, via=True))
    n = len(s["y_init"])
    c = {"dmp": s, "dt": draw(st.sampled_from([0.008, 0.01, 0.0125])), "method": draw(st.sampled_from(["Runge-Kutta", "step", "Euler"]))}
    if draw(st.booleans()):
        c["start"] = draw(st.lists(real(-3.0, 3.0), min_size=n, max_size=n))
    return c


def run_num(case, ctx):
    s = dict(case["dmp"])
    tau = s["tau"]
    dmp = build_dmp(s)
    n = len(s["y_init"])
    ctx.label(s["type"], case["method"])
    dt = case["dt"] * tau * min(1.0, 20.0 / eff(s))
    if case["method"] == "Euler":
        dt = dt / 2
    if "start" in case:
        s["y_init"] = case["start"]
        x, xd = dmp.integrate_start(arr(case["start"]))
        ctx.label("new start")
    else:
        x, xd = dmp.integrate_start()
    y0 = arr(s["y_init"])
    y, yd, ydd = dmp.states_as_pos_vel_acc(x, xd)
    close(y, y0, "integration does not start at the initial position", rtol=1e-12, atol=1e-12)
    close(yd, np.zeros(n), "integration does not start at rest", atol=1e-12)
    N = int(np.ceil(horizon(s) / dt))
    moved = 0.0
    if case["method"] == "Runge-Kutta" and "start" not in case:
        ts = np.arange(N) * dt
        xs, xds = dmp.integrate(ts)
        close(dmp.states_as_pos_vel_acc(xs[0], xds[0])[0], y0, "integrate() does not start at the initial position", rtol=1e-12, atol=1e-12)
        x, xd = xs[-1], xds[-1]
        moved = 1.0
    else:
        step = dmp.integrate_step_euler if case["method"] == "Euler" else dmp.integrate_step
        for _ in range(N):
            x, xd = step(dt, x)
    y, yd, ydd = dmp.states_as_pos_vel_acc(x, xd)
    conv_check(s, y, yd, ydd, f"integration ({case['method']})")
    ctx.nt(np.any(np.abs(arr(s["y_attr"]) - y0) > 0.05) and s["fas"] is not None)


SUBS = [
    Sub("closed_form", cases, run, quick=900, thorough=20000, shards=5),
    Sub("numerical", num_cases, run_num, quick=120, thorough=4000, shards=5),
]
