"""C19: a contextual DMP reproduces each demonstration for its task parameters."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close
from vf.checks.c05 import grids
from vf.demos import demo_grid, demo_values
from vf.dmps import TYPES, eff
from vf.fas import make_fa
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import arr

RULE = (
    "A case is a set of 3-7 demonstrations with 1-2 task parameters, a DMP (types, scaling, RBFN/LWR forcing terms), the parameters to "
    "predict (with or without the goal), regressors and query task parameters; non-trivial: movements for different task parameters "
    "differ by more than 2% of the movement"
)
ASSUMPTIONS = [
    "as documented, all demonstrations have the same duration and initial state, and the same goal unless the goal is predicted",
    "amplitude scaling is excluded from the search (known finding)",
]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 2))
    p = draw(st.integers(1, 2))
    goal = draw(st.booleans())
    y0 = draw(vec(real(-1.0, 1.0), n))
    c = {
        "T": draw(log_real(0.3, 4.0)), "nt": draw(st.integers(30, 60)), "y0": y0,
        "dist": draw(vec(st.one_of(real(0.3, 1.5), real(-1.5, -0.3)), n)),
        "dgoal": draw(vec(vec(real(-0.25, 0.25), p), n)) if goal else None,
        "bump0": draw(vec(vec(real(-3.0, 3.0), 2), n)),
        "bump1": draw(vec(vec(vec(real(-3.0, 3.0), 2), n), p)),
        "quad": draw(st.sampled_from([0.0, 0.0, 0.5, 2.0])),
        "tps": draw(vec(vec(real(-1.0, 1.0), p), draw(size(2 + p, 7, 14)))),
        "type": draw(st.sampled_from(TYPES)),
        "scaling": draw(st.sampled_from(["NO_SCALING", "NO_SCALING", "G_MINUS_Y0_SCALING"])),
        "alpha": draw(st.sampled_from([20.0, 15.0, 30.0])),
        "fa": {"kind": draw(st.sampled_from(["RBFN", "RBFN", "LWR"])), "n_bfs": draw(st.integers(3, 8)), "height": 0.6, "reg": draw(st.sampled_from([1e-8, 1e-4]))},
        "ppf": draw(st.sampled_from(["WLS", "WLS", "GPR", "RBFN", "LWR"])),
        "extra": draw(st.booleans()),
        "how": draw(st.sampled_from(["from_trajs", "from_dmp", "train", "twice"])),
        "ppf_list": draw(st.booleans()), "save": draw(st.booleans()),
        "order": draw(seeds()),
        "queries": draw(vec(vec(real(-1.0, 1.0), p), 2)),
        "format": draw(st.sampled_from(["vector", "matrix", "scalar"])),
        "step_first": draw(st.booleans()),
        "ints": draw(st.integers(0, 2)) == 0,
        "vary_goal": draw(vec(vec(real(-0.2, 0.2), n), 14)) if draw(st.integers(0, 3)) == 0 else None,
        "vary": draw(vec(vec(real(-0.2, 0.2), n), 14)) if draw(st.integers(0, 3)) == 0 else None,
        "grid": draw(grids(12)), "y_init": draw(vec(real(-1.0, 1.0), n)) if draw(st.integers(0, 2)) == 0 else None,
    }
    return c


def demo(c, tp, offset=0.0, goal_offset=0.0):
    """Demonstration for task parameters tp (a linear function of tp if quad is 0), starting at another position."""
    from dmpbbo.dmps.Trajectory import Trajectory

    tp = arr(tp)
    g = arr(c["y0"]) + arr(c["dist"]) + goal_offset
    if c["dgoal"] is not None:
        g = g + arr(c["dgoal"]) @ tp
    bump = arr(c["bump0"]) + np.tensordot(tp, arr(c["bump1"]), axes=1) + c["quad"] * np.sum(tp**2)
    spec = {"T": c["T"], "n": c["nt"], "y0": list(arr(c["y0"]) + offset), "g": list(g), "bump": bump, "spacing": "uniform", "seed": 0, "end_moving": False}
    ts = demo_grid(spec)
    return Trajectory(ts, *demo_values(spec, ts))


def spread(tps):
    """Distinct task parameters: scrambled grid-like, well separated."""
    tps = np.asarray(tps, dtype=float)
    m, p = tps.shape
    base = np.linspace(-1.0, 1.0, m)
    if p == 1:
        return (base + 0.3 / m * tps[:, 0]).reshape(-1, 1)
    ang = np.arange(m) * 2.4
    r = np.sqrt((np.arange(m) + 0.5) / m)
    return np.array([r * np.cos(ang), r * np.sin(ang)]).T + 0.1 * tps


def make_ppf(c):
    p = len(c["tps"][0])
    k = c["ppf"]
    if k == "GPR":
        from dmpbbo.functionapproximators.FunctionApproximatorGPR import FunctionApproximatorGPR

        # with many samples on a line, a larger length would make the gram matrix numerically singular
        return FunctionApproximatorGPR(1.0, min(0.6, 4.0 / (len(c["tps"]) - 1)) if p == 1 else 0.6)
    conf = {"kind": k, "n_bfs": 2 if p > 1 else 3, "height": 0.5, "reg": 1e-6 if k != "WLS" else 0.0, "offset": True}
    return make_fa(conf)


def fmt(c, tp):
    if c["format"] == "scalar" and len(tp) == 1:
        return float(tp[0])
    if c["format"] == "matrix":
        return arr(tp).reshape(1, -1)
    return arr(tp)


def run(case, ctx):
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep as Contextual

    c = copy.deepcopy(case)
    n, T = len(c["y0"]), c["T"]
    TP = spread(c["tps"])
    m = TP.shape[0]
    if c["ints"]:
        TP[0] = np.round(TP[0])
    if c["dgoal"] is not None:
        c["vary_goal"] = None
    names = ["weights"] if c["fa"]["kind"] == "RBFN" else ["slopes", "offsets"]
    if c["extra"]:
        names = ["centers"] + names
    if c["dgoal"] is not None:
        names = names + ["goal"]
    fas = lambda: [make_fa(c["fa"]) for _ in range(n)]  # noqa
    kw = {"dmp_type": c["type"], "forcing_term_scaling": c["scaling"], "alpha_spring_damper": c["alpha"]}
    ctx.label(c["how"], c["type"], c["ppf"], c["scaling"], "goal" if c["dgoal"] else "no goal", f"{len(TP[0])} task parameters")

    def task(i):
        t = TP[i].astype(int) if c["ints"] and i == 0 else TP[i]
        return t[0].item() if c["format"] == "scalar" and len(t) == 1 else t

    def offset(k, i):
        return arr(c[k][i]) if c[k] else 0.0

    demos = [(task(i), demo(c, t, offset("vary", i), offset("vary_goal", i))) for i, t in enumerate(TP)]
    varied = bool(c["vary"] or c["vary_goal"])

    def plain(traj):
        d = Dmp.from_traj(traj, fas(), **kw)
        d.set_selected_param_names(names)
        return d

    trained = [plain(tr) for _, tr in demos]
    params = np.array([d.get_param_vector() for d in trained])
    K = params.shape[1]

    def contextual(demos):
        ppf = [make_ppf(c) for _ in range(K)] if c["ppf_list"] else make_ppf(c)
        args = (demos, fas(), names, ppf)
        if c["how"] == "from_dmp":
            d = Dmp(T, np.zeros(n), np.ones(n), fas(), **kw)
            return Contextual.from_dmp(demos, d, names, ppf, save_training_data=c["save"])
        if c["how"] == "from_trajs":
            return Contextual.from_trajs(*args, save_training_data=c["save"], **kw)
        ct = Contextual(T, np.zeros(n), np.ones(n), fas(), **kw)
        if c["how"] == "twice":
            ct.train([(tp, tr) for (tp, _), (_, tr) in zip(demos, demos[::-1])], names, make_ppf(c))
            for q in [c["queries"][0]] + c["queries"][::-1]:  # used before it is trained again
                ct.analytical_solution(fmt(c, q), arr(c["grid"]) * T)
        ct.train(demos, names, ppf)
        return ct

    ct = contextual(demos)
    check(ct.dim_dmp() == n, "dim_dmp", got=ct.dim_dmp())
    # Reference: regressors from task parameters to DMP parameters
    regs = [make_ppf(c) for _ in range(K)]
    for j in range(K):
        regs[j].train(TP, params[:, j])
    ref_dmp = plain(demos[0][1])
    if c["vary"]:
        ctx.label("different initial states")
        ref_dmp.y_init = np.mean([tr.ys[0] for _, tr in demos], axis=0)

    if c["vary_goal"]:
        ctx.label("different goals")
        ref_dmp.y_attr = np.mean([tr.ys[-1] for _, tr in demos], axis=0)

    ref_y_init = np.array(ref_dmp.y_init)

    def predicted(tp):
        return np.array([float(np.squeeze(r.predict(arr(tp).reshape(1, -1)))) for r in regs])

    ts = arr(c["grid"]) * T
    M = np.max(np.abs(arr(c["dist"]))) + np.max([np.ptp(tr.ys, axis=0).max() for _, tr in demos])

    def near(got, want, what, rtol=1e-6):
        close(got.ys, want.ys, what + ": positions", rtol=rtol, atol=0, scale=M)
        close(got.yds * T, want.yds * T, what + ": velocities", rtol=rtol, atol=0, scale=M * eff_(c))
        close(got.ydds * T**2, want.ydds * T**2, what + ": accelerations", rtol=rtol, atol=0, scale=M * eff_(c) ** 2)

    def eff_(c):
        return c["alpha"]

    def roll(d, ts):
        xs, xds = d.analytical_solution(ts)[:2]
        return d.states_as_trajectory(ts, xs, xds)

    queries = [("query", q) for q in c["queries"]] + [("demonstration", list(TP[i])) for i in (0, m // 2, m - 1)]
    first = {}
    outs = []
    for kind, q in queries:
        ref_dmp.set_param_vector(predicted(q))
        want = roll(ref_dmp, ts)
        if c["step_first"]:
            x, xd = ct.integrate_start(fmt(c, q))
            rx, rxd = ref_dmp.integrate_start()
            scale = np.maximum(np.abs(rx).max(), np.abs(rxd).max()) + M * eff_(c) ** 2 / min(T, 1.0)
            for _ in range(5):
                close(x, rx, f"states while integrating ({kind}), before any rollout", rtol=1e-7, atol=0, scale=scale)
                x, xd = ct.integrate_step_runge_kutta(0.02 * T, x)
                rx, rxd = ref_dmp.integrate_step_runge_kutta(0.02 * T, rx)
        xs, xds = ct.analytical_solution(fmt(c, q), ts)[:2]
        got = ct.states_as_trajectory(ts, xs, xds)
        near(got, want, f"rollout for the task parameters of a {kind} is not that of the predicted DMP parameters")
        outs.append(got)
        y, yd, ydd = ct.states_as_pos_vel_acc(xs[-1], xds[-1])
        for a, b in ((y, got.ys[-1]), (yd, got.yds[-1]), (ydd, got.ydds[-1])):
            close(np.asarray(a).reshape(-1), b, "position, velocity, acceleration of a state", rtol=1e-9, atol=1e-12)
        if c["step_first"]:  # (also the first call for these task parameters)
            a, b = ct.analytical_solution(fmt(c, q), ts, True), ref_dmp.analytical_solution(ts, True)
            near(ct.states_as_trajectory(ts, *a[:2]), ref_dmp.states_as_trajectory(ts, *b[:2]), "rollout without forcing term")
        first[tuple(q)] = got
        # step by step
        y_init = arr(c["y_init"]) if c["y_init"] is not None else None
        x, xd = ct.integrate_start(fmt(c, q), y_init) if y_init is not None else ct.integrate_start(fmt(c, q))
        rx, rxd = ref_dmp.integrate_start(y_init)
        rs = 1e-7
        scale = np.maximum(np.abs(rx).max(), np.abs(rxd).max()) + M * eff_(c) ** 2 / min(T, 1.0)
        for _ in range(6):
            close(x, rx, f"states while integrating ({kind})", rtol=rs, atol=0, scale=scale)
            close(xd, rxd, f"rates while integrating ({kind})", rtol=rs, atol=0, scale=scale)
            x, xd = ct.integrate_step(0.005 * T, x)
            rx, rxd = ref_dmp.integrate_step(0.005 * T, rx)
        if y_init is not None:
            y0 = ref_y_init
            ct.integrate_start(fmt(c, q), y0.copy())
            ref_dmp.integrate_start(y0.copy())
        # linear demonstrations, parameters and regression: the movement for any task parameters is known
        if kind == "query" and c["ppf"] == "WLS" and c["quad"] == 0.0 and c["scaling"] == "NO_SCALING" and not varied:
            near(got, roll(plain(demo(c, q)), ts), "movement for new task parameters (linear case)", rtol=1e-5)
            ctx.label("linear interpolation")
    diff = max(np.max(np.abs(o.ys - outs[0].ys)) for o in outs)
    ctx.nt(diff > 0.02 * M)
    # each demonstration is reproduced as by its own DMP, up to the regression error
    for i in range(m):
        tp = TP[i]
        err = np.abs(predicted(tp) - params[i])
        xs, xds = ct.analytical_solution(fmt(c, list(tp)), ts)[:2]
        got = ct.states_as_trajectory(ts, xs, xds)
        exact = np.max(err) <= 1e-7 * (1e-3 + np.max(np.abs(params)))
        if exact and not varied:
            ctx.label("exact regression")
            near(got, roll(trained[i], ts), f"movement for the task parameters of demonstration {i}", rtol=1e-4)
    # history and order do not matter
    for q, want in first.items():
        xs, xds = ct.analytical_solution(fmt(c, list(q)), ts)[:2]
        near(ct.states_as_trajectory(ts, xs, xds), want, "repeated rollout for the same task parameters", rtol=1e-9)
    perm = np.random.default_rng(c["order"]).permutation(m)
    ct2 = contextual([demos[i] for i in perm])
    for _, q in queries[:3]:
        xs, xds = ct2.analytical_solution(fmt(c, q), ts)[:2]
        near(ct2.states_as_trajectory(ts, xs, xds), first[tuple(q)], "order of the demonstrations", rtol=1e-4 if c["ppf"] in ("GPR", "RBFN", "LWR") else 1e-5)


def amplitude_scaling_still_wrong():
    """Demonstrations of different amplitudes with AMPLITUDE_SCALING: amplitudes of the last one are used for all."""
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep as Contextual
    from dmpbbo.dmps.Trajectory import Trajectory
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN as RBFN
    from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS

    ts = np.linspace(0, 1, 51)
    tr = lambda p: Trajectory.from_viapoint_polynomial(ts, np.zeros(1), np.array([p, 0.0, 0.0]), 0.5, np.array([0.5]))  # noqa
    demos = [(p, tr(p)) for p in (1.0, 2.0)]
    kw = {"dmp_type": "IJSPEERT_2002_MOVEMENT", "forcing_term_scaling": "AMPLITUDE_SCALING"}
    ct = Contextual.from_trajs(demos, [RBFN(8)], ["weights"], FunctionApproximatorWLS(), **kw)
    xs, xds = ct.analytical_solution(np.array([1.0]), ts)[:2]
    own = Dmp.from_traj(demos[0][1], [RBFN(8)], **kw)
    oxs, oxds = own.analytical_solution(ts)[:2]
    a, b = ct.states_as_trajectory(ts, xs, xds).ys, own.states_as_trajectory(ts, oxs, oxds).ys
    return np.max(np.abs(a - b)) > 0.01


KNOWN = {"C19-amplitudes": amplitude_scaling_still_wrong}
SUBS = [Sub("contextual", cases, run, quick=320, thorough=12000, shards=8)]
