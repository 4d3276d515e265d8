"""C05: analytical, step-wise and exported DMP rollouts agree."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.dmps import (
    build_dmp, dmp_spec, eff, effs, family, kink, movement_scale, ref_damping, ref_forcing, ref_gating, ref_goal, ref_phase, ref_rollout,
    scaled_goal,
)
from vf.gen import real
from vf.systems import arr

RULE = (
    "A case is a DMP (all types, 1-3 dimensions, tau, start, goal, spring constant, scaling, RBFN/LWR forcing terms or none) and "
    "a time grid; non-trivial: initial and goal state differ and there is a forcing term"
)


@st.composite
def grids(draw, n_max=40, end=2.0):
    """Increasing times from 0, as fractions of tau."""
    n = draw(st.integers(2, n_max))
    if draw(st.booleans()):
        return [end * i / (n - 1) for i in range(n)]
    steps = draw(st.lists(real(0.05, 1.0), min_size=n - 1, max_size=n - 1))
    t = np.concatenate(([0.0], np.cumsum(steps)))
    return [float(x) for x in t * (end * draw(real(0.4, 1.0)) / t[-1])]


def ref_states(s, ts):
    """The parts of the state with a closed form: goal (as in the state), phase, gating, damping."""
    n = len(s["y_init"])
    tau = s["tau"]
    if scaled_goal(s):
        goal = ref_goal(dict(s, y_init=[0.0] * n, y_attr=[1.0] * n), ts)
    else:
        goal = ref_goal(s, ts)
    damp = s.get("mass", 1.0) * ref_damping(s, ts)
    return goal, ref_phase(s, ts).reshape(-1, 1), np.asarray(ref_gating(s, ts)).reshape(-1, 1), damp


@st.composite
def part_cases(draw):
    return {"dmp": draw(dmp_spec(via=True, custom=True)), "grid": draw(grids())}


def run_parts(case, ctx):
    s = case["dmp"]
    tau, n = s["tau"], len(s["y_init"])
    dmp = build_dmp(s)
    ts = arr(case["grid"]) * tau
    ts0 = ts.copy()
    ctx.label(s["type"], s["scaling"])
    xs, xds, forcing, fa_out = dmp.analytical_solution(ts)
    same(ts, ts0, "the times passed were changed")
    check(xs.shape == (ts.size, dmp.dim_x) and xds.shape == xs.shape, "wrong shape of closed-form states")
    goal, phase, gating, damp = ref_states(s, ts)
    M = movement_scale(s)
    close(xs[:, dmp.PHASE], phase, "phase", rtol=1e-8)
    close(xs[:, dmp.GATING], gating, "gating", rtol=1e-6)
    close(xs[:, dmp.GOAL], goal, "goal", rtol=1e-8)
    close(xs[:, dmp.DAMPING], damp, "damping", rtol=1e-8)
    rf, rfa = ref_forcing(s, ts)
    fs = np.max(np.abs(rfa)) + 1e-9
    close(fa_out, rfa, "function approximator outputs", rtol=1e-8, scale=fs)
    scal = np.ones(n)
    if s["scaling"] == "G_MINUS_Y0_SCALING":
        scal = arr(s["y_attr"]) - arr(s["y_init"])
    elif s["scaling"] == "AMPLITUDE_SCALING":
        scal = arr(s["amplitudes"])
    close(forcing, rfa * gating * scal, "forcing terms are not the gated, scaled function approximator outputs", rtol=1e-6, scale=fs * np.max(np.abs(scal)) + 1e-9)

    # Rates of change, at the reported states
    y, z = xs[:, dmp.SPRING_Y], xs[:, dmp.SPRING_Z]
    k = effs(s) ** 2 / 4
    zd = (k * (ref_goal(s, ts) - y) - ref_damping(s, ts) * z + forcing) / tau
    S = (np.max(k) * M + eff(s) * np.max(np.abs(z)) + np.max(np.abs(forcing))) / tau
    close(xds[:, dmp.SPRING_Y], z / tau, "velocity", rtol=1e-9, scale=np.max(np.abs(z)) / tau + 1e-9)
    close(xds[:, dmp.SPRING_Z], zd, "acceleration", rtol=1e-6, scale=S)
    for i in range(ts.size):
        if kink(s) and abs(ts[i] - kink(s)) < 1e-6 * tau:
            continue  # the phase stops here
        d = dmp.differential_equation(xs[i])
        close(d[dmp.SPRING] * tau, xds[i, dmp.SPRING] * tau, "rates of the closed form and differential equation (spring)", rtol=1e-6, scale=S * tau)
        for nm, ix in [("goal", dmp.GOAL), ("phase", dmp.PHASE), ("gating", dmp.GATING), ("damping", dmp.DAMPING)]:
            close(d[ix] * tau, xds[i, ix] * tau, f"rates of the closed form and differential equation ({nm})", rtol=1e-5, scale=20 * (M if nm == "goal" else s["alpha"]))

    # Without forcing term
    xs_s, xds_s, f_s, _ = dmp.analytical_solution(ts, suppress_forcing_term=True)
    check(not np.any(f_s), "suppressed forcing terms are not zero")
    zd = (k * (ref_goal(s, ts) - xs_s[:, dmp.SPRING_Y]) - ref_damping(s, ts) * xs_s[:, dmp.SPRING_Z]) / tau
    close(xds_s[:, dmp.SPRING_Z], zd, "acceleration without forcing term", rtol=1e-6, scale=S)
    for ix in (dmp.GOAL, dmp.PHASE, dmp.GATING, dmp.DAMPING):
        same(xs_s[:, ix], xs[:, ix], "suppressing the forcing term changes other parts of the state")

    # Exported trajectory
    traj = dmp.states_as_trajectory(ts, xs, xds)
    same(traj.ts, ts, "exported times")
    close(traj.ys, y, "exported positions", rtol=0, atol=0)
    close(traj.yds, z / tau, "exported velocities", rtol=1e-9, scale=np.max(np.abs(z)) / tau + 1e-9)
    close(traj.ydds * tau, xds[:, dmp.SPRING_Z], "exported accelerations", rtol=1e-9, scale=S)
    for i in range(0, ts.size, 7):
        py, pyd, pydd = dmp.states_as_pos_vel_acc(xs[i], xds[i])
        same(py, traj.ys[i], "position")
        same(pyd, traj.yds[i], "velocity")
        same(pydd, traj.ydds[i], "acceleration")
    xs2, xds2, f2, fa2 = dmp.analytical_solution(ts)
    for a, b in ((xs, xs2), (xds, xds2), (forcing, f2), (fa_out, fa2)):
        same(b, a, "the same rollout again is different")
    ctx.nt(np.any(np.abs(arr(s["y_attr"]) - arr(s["y_init"])) > 0.05) and s["fas"] is not None)


@st.composite
def conv_cases(draw):
    return {"dmp": draw(dmp_spec(max_dims=2, amp=300.0, via=True, custom=True)), "grid": draw(grids(10, 1.6)), "step": draw(st.sampled_from([0.004, 0.006])), "stepper": draw(st.sampled_from(["integrate", "integrate_step", "runge_kutta"]))}


def refine(ts, h):
    """Every interval divided into equal steps of at most h. Returns times and indices of ts."""
    out, idx = [ts[:1]], [0]
    for a, b in zip(ts[:-1], ts[1:]):
        m = max(1, int(np.ceil((b - a) / h - 1e-9)))
        out.append(a + (b - a) * np.arange(1, m + 1) / m)
        out[-1][-1] = b
        idx.append(idx[-1] + m)
    return np.concatenate(out), np.array(idx)


def run_conv(case, ctx):
    s = case["dmp"]
    tau, n = s["tau"], len(s["y_init"])
    dmp = build_dmp(s)
    ctx.label(s["type"], case["stepper"], "subsystems of the user" if "custom" in s else "default subsystems")
    base = arr(case["grid"]) * tau
    M = movement_scale(s)
    stop = kink(s) or tau
    rbase = np.union1d(base, [stop]) if stop < base[-1] else base
    fine, idx = refine(rbase, 0.002 * tau)
    Y, YD, YDD = (v[idx][np.isin(rbase, base)] for v in ref_rollout(s, fine, 1))
    W = eff(s) / 2
    scales = (M, M * W, M * W * W)
    ctx.nt(np.any(np.abs(arr(s["y_attr"]) - arr(s["y_init"])) > 0.05) and s["fas"] is not None)

    # Closed form: the spring part is of first order in the time steps
    errs = []
    h0 = 4 * case["step"] * tau * min(1.0, 20.0 / eff(s))
    for f in (1, 2, 4):
        ts, idx = refine(base, h0 / f)
        xs, xds, _, _ = dmp.analytical_solution(ts)
        tr = dmp.states_as_trajectory(ts, xs, xds)
        errs.append([float(np.max(np.abs(a[idx] - b))) / sc for a, b, sc in ((tr.ys, Y, scales[0]), (tr.yds * tau, YD * tau, scales[1]), (tr.ydds * tau**2, YDD * tau**2, scales[2]))])
    for j, nm in enumerate(("positions", "velocities", "accelerations")):
        e = [r[j] for r in errs]
        check(np.all(np.isfinite(e)), f"closed-form {nm} are not finite")
        check(e[2] < 0.07, f"closed-form {nm} are far from the solution", errors=e)
        check(e[1] < 0.75 * e[0] + 2e-3 and e[2] < 0.7 * e[1] + 1e-3, f"closed-form {nm} do not converge to the solution", errors=e)

    # Step by step
    ts, idx = refine(base, case["step"] * tau * min(1.0, 20.0 / eff(s)))
    if case["stepper"] == "integrate":
        xs, xds = dmp.integrate(ts)
    else:
        x, xd = dmp.integrate_start()
        xs, xds = np.empty((ts.size, x.size)), np.empty((ts.size, x.size))
        xs[0], xds[0] = x, xd
        step = dmp.integrate_step if case["stepper"] == "integrate_step" else dmp.integrate_step_runge_kutta
        for i in range(1, ts.size):
            xs[i], xds[i] = step(ts[i] - ts[i - 1], xs[i - 1])
    tr = dmp.states_as_trajectory(ts, xs, xds)
    close(tr.ys[idx], Y, "positions of step-by-step integration", atol=0, rtol=2e-3, scale=scales[0])
    close(tr.yds[idx] * tau, YD * tau, "velocities of step-by-step integration", atol=0, rtol=4e-3, scale=scales[1])
    keep = np.ones(base.size, bool)
    close((tr.ydds[idx] * tau**2)[keep], (YDD * tau**2)[keep], "accelerations of step-by-step integration", atol=0, rtol=2e-2, scale=scales[2])
    goal, phase, gating, damp = ref_states(s, ts)
    close(xs[:, dmp.PHASE], phase, "phase of step-by-step integration", atol=1e-2 if kink(s) else 1e-4)
    close(xs[:, dmp.GATING], gating, "gating of step-by-step integration", atol=2e-3)
    close(xs[:, dmp.GOAL], goal, "goal of step-by-step integration", atol=1e-4, rtol=0, scale=1)
    close(xs[:, dmp.DAMPING], damp, "damping of step-by-step integration", atol=1e-4)


SUBS = [
    Sub("parts", part_cases, run_parts, quick=700, thorough=20000, shards=3),
    Sub("converge", conv_cases, run_conv, quick=150, thorough=4000, shards=5),
]
