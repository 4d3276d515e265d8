"""C07: DMP movements are invariant to translation and time scaling, and scale with the distance to the goal."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, close
from vf.demos import demo_spec, demo_traj
from vf.checks.c05 import grids
from vf.dmps import TYPES, build_dmp, dmp_spec, eff, family, kink, movement_scale, sigmoid_gating
from vf.gen import log_real, real, sign, vec
from vf.systems import arr

RULE = (
    "A case is a DMP (all types and scalings, RBFN/LWR forcing terms with arbitrary weights, or trained on a demonstration), a "
    "time grid, a transformation (translation, change of tau, change of the distance to the goal), and whether the transformed "
    "DMP is newly built or reconfigured; non-trivial: the transformation is not the identity and the DMP has a forcing term"
)


def rollouts(dmp, ts, how):
    if how == "closed form":
        xs, xds, _, _ = dmp.analytical_solution(ts)
    elif how == "integrate":
        xs, xds = dmp.integrate(ts)
    else:
        x, xd = dmp.integrate_start()
        xs, xds = [x], [xd]
        for i in range(1, ts.size):
            step = dmp.integrate_step_euler if how == "euler" else dmp.integrate_step
            x, xd = step(ts[i] - ts[i - 1], x)
            xs.append(x)
            xds.append(xd)
        xs, xds = np.array(xs), np.array(xds)
    return dmp.states_as_trajectory(ts, xs, xds), xs


HOW = st.sampled_from(["closed form", "closed form", "integrate", "step", "euler"])


@st.composite
def near_one(draw):
    return 1.0 + draw(sign()) * draw(log_real(1e-4, 0.05))


def fine_grid(case, s):
    from vf.checks.c05 import refine

    ts = refine(arr(case["grid"]) * s["tau"], 0.02 * s["tau"] * min(1.0, 20.0 / eff(s)))[0]
    if case["how"] != "closed form" and kink(s):
        # The phase stops at the kink: whether a step that ends exactly there is before or after it is up to rounding
        for _ in range(20):
            q = np.concatenate((ts, 0.5 * (ts[1:] + ts[:-1]))) / kink(s)
            if np.min(np.abs(q - 1.0)) > 1e-7:
                break
            ts = ts * 1.00371
    return ts


def compare(a, b, s, tau_a, tau_b, scale, offset, M):
    """Trajectory b is a, with positions scaled around their own start and shifted, stretched in time."""
    W = eff(s)
    tol = 1e-7
    close(b.ts * tau_a, a.ts * tau_b, "times", rtol=1e-9)
    close(b.ys, offset + scale * a.ys, "positions", rtol=tol, scale=M)
    close(b.yds * tau_b, scale * a.yds * tau_a, "velocities", rtol=tol, scale=M * W)
    close(b.ydds * tau_b**2, scale * a.ydds * tau_a**2, "accelerations", rtol=tol, scale=M * W * W)


@st.composite
def offsets(draw, n):
    o = draw(vec(real(-10.0, 10.0), n))
    if draw(st.integers(0, 3)) == 0:
        o = [x * draw(log_real(1e-3, 0.1)) for x in o]
    if draw(st.integers(0, 3)) == 0:
        o = [0.0 if i else x for i, x in enumerate(o)]  # of one dimension only
    return o


@st.composite
def tr_cases(draw):
    s = draw(dmp_spec(via=True, custom=True))
    n = len(s["y_init"])
    return {"dmp": s, "grid": draw(grids(12)), "how": draw(HOW), "offset": draw(offsets(n)), "reconfigure": draw(st.booleans())}


def run_translation(case, ctx):
    s = case["dmp"]
    ts = fine_grid(case, s)
    o = arr(case["offset"])
    a, _ = rollouts(build_dmp(s), ts, case["how"])
    y0, g = arr(s["y_init"]) + o, arr(s["y_attr"]) + o
    if case["reconfigure"]:
        dmp = build_dmp(s)
        dmp.y_attr = g
        dmp.y_init = y0
    else:
        dmp = build_dmp(dict(s, y_init=list(map(float, y0)), y_attr=list(map(float, g))))
    b, _ = rollouts(dmp, ts, case["how"])
    compare(a, b, s, s["tau"], s["tau"], 1.0, o, movement_scale(s) + np.max(np.abs(o)) + np.max(np.abs(y0)))
    ctx.label(s["type"], case["how"], s["scaling"])
    ctx.nt(np.any(np.abs(o) > 1e-3) and s["fas"] is not None)


@st.composite
def tau_cases(draw):
    s = draw(dmp_spec(via=True, custom=True))
    return {"dmp": s, "grid": draw(grids(12)), "how": draw(HOW), "factor": draw(st.one_of(log_real(0.2, 5.0), log_real(0.2, 5.0), near_one())), "reconfigure": draw(st.booleans())}


def run_tau(case, ctx):
    s = case["dmp"]
    c = case["factor"]
    ts = fine_grid(case, s)
    a, _ = rollouts(build_dmp(s), ts, case["how"])
    # The rate of the sigmoid gating does not scale with tau: only the newly built DMP is scaled
    if case["reconfigure"] and not sigmoid_gating(s):
        dmp = build_dmp(s)
        dmp.tau = s["tau"] * c
        ctx.label("reconfigured")
    else:
        dmp = build_dmp(dict(s, tau=s["tau"] * c))
    b, _ = rollouts(dmp, ts * c, case["how"])
    compare(a, b, s, s["tau"], s["tau"] * c, 1.0, 0.0, movement_scale(s) + np.max(np.abs(s["y_init"])))
    ctx.label(s["type"], case["how"], "subsystems of the user" if "custom" in s else "default subsystems")
    ctx.nt(abs(c - 1) > 1e-4 and s["fas"] is not None)


@st.composite
def goal_cases(draw):
    s = draw(dmp_spec(scalings=["G_MINUS_Y0_SCALING", "G_MINUS_Y0_SCALING", "AMPLITUDE_SCALING"], min_dist=0.1, via=True, custom=True))
    n = len(s["y_init"])
    c = {"dmp": s, "grid": draw(grids(12)), "how": draw(HOW)}
    c["factor"] = draw(vec(st.one_of(real(0.3, 3.0), real(-3.0, -0.3)), n))
    if draw(st.integers(0, 3)) == 0:
        c["factor"] = draw(vec(near_one(), n))
    if draw(st.integers(0, 3)) == 0:
        c["factor"][1:] = [1.0] * (n - 1)
    c["change"] = draw(st.sampled_from(["new", "y_attr", "y_init"]))
    return c


def run_goal(case, ctx):
    s = case["dmp"]
    ts = fine_grid(case, s)
    f = arr(case["factor"])
    y0, g = arr(s["y_init"]), arr(s["y_attr"])
    a, _ = rollouts(build_dmp(s), ts, case["how"])
    change = case["change"]
    if s["scaling"] == "AMPLITUDE_SCALING":
        change = "new"
    new_y0, new_g = (g - f * (g - y0), g) if change == "y_init" else (y0, y0 + f * (g - y0))
    if change == "new":
        s2 = dict(s, y_init=list(map(float, new_y0)), y_attr=list(map(float, new_g)))
        if "amplitudes" in s:
            s2["amplitudes"] = [float(x) for x in f * arr(s["amplitudes"])]
        dmp = build_dmp(s2)
    else:
        dmp = build_dmp(s)
        setattr(dmp, change, new_y0 if change == "y_init" else new_g)
    b, _ = rollouts(dmp, ts, case["how"])
    M = movement_scale(s) * 3 + np.max(np.abs(y0)) + 10
    compare(a, b, s, s["tau"], s["tau"], f, new_y0 - f * y0, M)
    ctx.label(s["type"], case["how"], s["scaling"], change)
    ctx.nt(np.any(np.abs(f - 1) > 1e-4) and s["fas"] is not None)


@st.composite
def trained_cases(draw):
    d = draw(demo_spec(max_dims=2, n_min=40, n_max=60))
    n = len(d["y0"])
    return {
        "demo": d,
        "type": draw(st.sampled_from(TYPES)),
        "n_bfs": draw(st.integers(3, 12)),
        "fa": draw(st.sampled_from(["RBFN", "LWR"])),
        "factor": draw(vec(st.one_of(real(0.3, 2.5), real(-2.5, -0.3)), n)),
        "offset": draw(vec(real(-5.0, 5.0), n)),
        "c": draw(log_real(0.25, 4.0)),
    }


def run_trained(case, ctx):
    """Demonstrations that are shifted, scaled and stretched lead to movements that are, too."""
    from vf.checks.c06 import make_fas
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.dmps.Trajectory import Trajectory

    d = case["demo"]
    ref = demo_traj(d)
    n = ref.dim
    f, o, c = arr(case["factor"]), arr(case["offset"]), case["c"]
    new = Trajectory(ref.ts * c, o + f * ref.ys, f * ref.yds / c, f * ref.ydds / c**2)
    spec = [{"kind": case["fa"], "n": case["n_bfs"], "height": 0.6}] * n
    sc = "AMPLITUDE_SCALING" if case["n_bfs"] % 2 else "G_MINUS_Y0_SCALING"
    out = []
    for demo in (ref, new):
        dmp = Dmp.from_traj(demo, make_fas(spec), dmp_type=case["type"], forcing_term_scaling=sc)
        tr, _ = rollouts(dmp, demo.ts, "closed form")
        out.append((tr, dmp))
    a, b = out[0][0], out[1][0]
    M = np.max(np.abs(f)) * (np.max(np.abs(a.ys)) + np.max(np.abs(ref.ys))) + np.max(np.abs(o)) + 1
    close(b.ys, o + f * a.ys, "positions after training on the transformed demonstration", rtol=1e-4, scale=M)
    # Reconfiguring the first DMP is the same as training on the transformed demonstration
    if sc == "G_MINUS_Y0_SCALING":
        dmp = out[0][1]
        dmp.y_init = o + f * ref.ys[0]
        dmp.y_attr = o + f * ref.ys[-1]
        if family(case["type"]) != "kul":
            dmp.tau = float(new.ts[-1])
            tr, _ = rollouts(dmp, new.ts, "closed form")
        else:
            tr, _ = rollouts(dmp, ref.ts, "closed form")
        close(tr.ys, o + f * a.ys, "positions after reconfiguring the DMP", rtol=1e-5, scale=M)
    ctx.label(case["type"], sc)
    ctx.nt(bool(np.any(np.abs(f - 1) > 0.05)))


SUBS = [
    Sub("translation", tr_cases, run_translation, quick=200, thorough=6000, shards=2),
    Sub("tau", tau_cases, run_tau, quick=200, thorough=6000, shards=2),
    Sub("goal_distance", goal_cases, run_goal, quick=200, thorough=6000, shards=2),
    Sub("trained", trained_cases, run_trained, quick=200, thorough=6000, shards=2),
]
