"""C33: The tasks and simulations that come with the library evaluate rollouts as they are defined."""
import contextlib
import copy
import importlib
import os
import random
import sys

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.dmps import build_dmp, build_fa, dmp_spec, fa_spec
from vf.gen import log_real, real, seeds, size, vec
from vf.runner import REPO
from vf.systems import arr

RULE = (
    "A case is a task with random options and the variables of a rollout (viapoint), joint angles and link lengths or a DMP for the joints of an "
    "arm (arm), a DMP that throws a ball (throw), or a DMP with gain schedules in a force field (field). Non-trivial: at least two cost components "
    "differ from 0 (viapoint), at least two joints (arm), the ball is released (throw), the force field is not zero (field)"
)
ASSUMPTIONS = ["movements of DMPs are decided by C04-C08 and C18: here, a freshly built DMP with the same parameters is integrated"]


def costs_ok(task, costs, parts, what):
    """parts: list of expected cost components"""
    costs = np.asarray(costs, dtype=float)
    check(costs.shape == (1 + len(parts),), f"{what}: one total cost and its components", got=costs.shape)
    check(len(task.get_cost_labels()) == len(parts), f"{what}: one label for each cost component", got=task.get_cost_labels())
    for name, got, ref in zip(task.get_cost_labels(), costs[1:], parts):
        close(got, ref, f"{what}: cost '{name}'", rtol=1e-9, atol=1e-13 * max(1.0, float(np.sum(np.abs(parts)))))
    close(costs[0], np.sum(parts), f"{what}: the total cost is the sum of its components", rtol=1e-9, atol=0, scale=np.sum(np.abs(parts)))


# --- viapoint ----------------------------------------------------------------------------------


@st.composite
def task_options(draw, n_dims, n):
    """n: number of time steps"""
    o = {"viapoint": draw(vec(real(-2.0, 2.0), n_dims)), "via_at": draw(st.sampled_from(["closest", "closest", "on", "between"])), "i": draw(st.integers(1, n - 1)),
         "frac": draw(real(0.1, 0.9)), "goal": draw(st.one_of(st.just("default"), st.none(), vec(real(-2.0, 2.0), n_dims))), "i_goal": draw(st.integers(0, n - 1))}
    for k, hi in (("viapoint", 10.0), ("acceleration", 1.0), ("regularization", 1.0), ("goal", 5.0)):
        o[k + "_weight"] = draw(st.one_of(st.just("default"), st.just(0.0), log_real(0.001, hi), log_real(0.001, hi)))
    o["viapoint_radius"] = draw(st.one_of(st.just("default"), st.just(0.0), log_real(0.01, 3.0)))
    return o


def task_kwargs(o, ts):
    kw = {}
    if o["via_at"] != "closest":
        i = o["i"]
        kw["viapoint_time"] = float(ts[i] if o["via_at"] == "on" else ts[i - 1] + o["frac"] * (ts[i] - ts[i - 1]))
    for k in ("viapoint_radius", "viapoint_weight", "acceleration_weight", "regularization_weight", "goal_weight"):
        if o[k] != "default":
            kw[k] = o[k]
    if not isinstance(o["goal"], str):
        kw["goal"] = None if o["goal"] is None else arr(o["goal"])
    kw["goal_time"] = float(ts[o["i_goal"]])
    return kw


def weight(o, k, default):
    return default if o[k] == "default" else o[k]


def expected_costs(o, ts, ys, ydds, sample):
    """Reference, sample by sample."""
    n, n_dims = ys.shape
    via = o["viapoint"]
    dist = lambda i, p: sum((ys[i, d] - p[d]) ** 2 for d in range(n_dims)) ** 0.5  # noqa
    d_via = min(dist(i, via) for i in range(n)) if o["via_at"] == "closest" else dist(o["i"], via)
    d_via = max(0.0, d_via - weight(o, "viapoint_radius", 0.0))
    acc = sum(a * a for a in ydds.ravel()) / ydds.size
    goal = o["goal"]
    goal = [0.0] * n_dims if isinstance(goal, str) else goal
    d_goal = 0.0 if goal is None else sum(dist(i, goal) for i in range(o["i_goal"], n)) / (n - o["i_goal"])
    return [
        weight(o, "viapoint_weight", 1.0) * d_via,
        weight(o, "acceleration_weight", 0.0001) * acc,
        weight(o, "goal_weight", 0.0) * d_goal,
        weight(o, "regularization_weight", 0.0) * sum(s * s for s in sample) ** 0.5,
    ]


@st.composite
def viapoint_cases(draw):
    n_dims, n = draw(size(1, 3, 6)), draw(size(2, 30, 200))
    return {
        "dims": n_dims, "n": n, "options": draw(task_options(n_dims, n)), "t0": draw(st.sampled_from([0.0, 0.0, 1.5])), "dt": draw(log_real(0.002, 0.5)), "jitter": draw(st.booleans()),
        "amp": draw(log_real(0.1, 3.0)), "sample": draw(size(1, 6, 20)), "format": draw(st.sampled_from(["matrix", "frame", "wide", "wide frame"])), "seed": draw(seeds()), "shift": draw(real(-3.0, 3.0)),
        "hit": draw(st.integers(0, 5)) == 0,
    }


def run_viapoint(case, ctx):
    from demos.python.bbo_of_dmps.TaskViapoint import TaskViapoint
    from dmpbbo.dmps.Trajectory import Trajectory

    c, o = case, case["options"]
    n, D = c["n"], c["dims"]
    rng = np.random.default_rng(c["seed"])
    ts = c["t0"] + c["dt"] * np.cumsum(np.concatenate(([0.0], rng.uniform(0.5, 1.5, n - 1) if c["jitter"] else np.ones(n - 1))))
    ys = np.cumsum(c["amp"] * rng.normal(size=(n, D)) / 3, axis=0)
    yds, ydds = rng.normal(size=(n, D)), 5.0 * rng.normal(size=(n, D))
    via = arr(o["viapoint"])
    if c["hit"]:
        ys[o["i"]] = via  # the movement passes exactly through the viapoint
    sample = rng.normal(size=c["sample"])
    traj = Trajectory(ts, ys, yds, ydds)
    cost_vars = traj.as_dataframe() if "frame" in c["format"] else traj.as_matrix()
    if c["format"] == "wide frame":  # further variables, in any order: columns have names
        cost_vars["force"] = rng.normal(size=n)
        cost_vars["y_filtered0"] = rng.normal(size=n)
        cost_vars = cost_vars[list(rng.permutation(cost_vars.columns))]
    if c["format"] == "wide":  # there may be further variables
        cost_vars = np.column_stack((cost_vars, rng.normal(size=(n, 3))))
    kw = task_kwargs(o, ts)
    task = TaskViapoint(via.copy(), **kw)
    before = np.array(cost_vars), sample.copy()
    with contextlib.redirect_stdout(None):
        got = task.evaluate_rollout(cost_vars, sample)
        again = task.evaluate_rollout(cost_vars, sample)
    parts = expected_costs(o, ts, ys, ydds, sample)
    costs_ok(task, got, parts, "viapoint task")
    same(again, got, "costs of the same rollout")
    same(np.array(cost_vars), before[0], "the rollout was changed by evaluating it")
    same(sample, before[1], "the sample was changed by evaluating it")
    ctx.nt(sum(p > 0 for p in parts) >= 2)
    ctx.label(c["format"], "viapoint " + o["via_at"], f"{sum(p > 0 for p in parts)} costs > 0", "after goal" if parts[2] > 0 else "no goal")
    # Moving everything does not change anything
    moved = Trajectory(ts, ys + c["shift"], yds, ydds).as_matrix()
    kw2 = dict(kw)
    if kw2.get("goal", 0) is not None:
        kw2["goal"] = np.asarray(kw.get("goal", np.zeros(D))) + c["shift"]
    with contextlib.redirect_stdout(None):
        m = TaskViapoint(via + c["shift"], **kw2).evaluate_rollout(moved, sample)
    if o["via_at"] != "closest" or not c["hit"]:
        close(m, got, "costs after moving the movement, the viapoint and the goal", rtol=1e-9, atol=1e-9)


# --- arm ---------------------------------------------------------------------------------------


@st.composite
def arm_cases(draw):
    d = draw(dmp_spec(amp=100.0, max_dims=3, fas="yes"))
    n = len(d["y_init"])
    steps = draw(st.integers(3, 25))
    return {
        "dmp": d, "steps": steps, "rest": draw(st.sampled_from([0.3, 0.7])), "factor": draw(st.one_of(st.just(1.0), real(0.6, 1.6))),
        "links": draw(st.one_of(st.none(), st.just([]), vec(real(0.1, 1.5), n), vec(real(0.1, 1.5), n))), "links_as": draw(st.sampled_from(["list", "array"])),
        "angles": draw(size(1, 5, 12)), "n": draw(size(1, 8, 40)), "options": draw(task_options(2, steps + 1)), "seed": draw(seeds()), "n_samples": draw(st.integers(1, 3)),
    }


def arm_reference(angles, links):
    """End points of the links: sums of complex numbers."""
    p = np.cumsum(np.asarray(links) * np.exp(1j * np.cumsum(angles, axis=1)), axis=1)
    p = np.column_stack((np.zeros(angles.shape[0]), p))
    out = np.empty((p.shape[0], 2 * p.shape[1]))
    out[:, 0::2], out[:, 1::2] = p.real, p.imag
    return out


def run_arm(case, ctx):
    from demos.python.bbo_of_dmps.arm2D.TaskSolverDmpArm2D import TaskSolverDmpArm2D
    from demos.python.bbo_of_dmps.arm2D.TaskViapointArm2D import TaskViapointArm2D

    c, o = case, case["options"]
    rng = np.random.default_rng(c["seed"])
    angles = rng.uniform(-4, 4, size=(c["n"], c["angles"]))
    links = rng.uniform(0.1, 1.0, c["angles"])
    a0 = angles.copy()
    pos = TaskSolverDmpArm2D.angles_to_link_positions(angles, links)
    close(pos, arm_reference(a0, links), "positions of the links", rtol=0, atol=1e-12 * c["angles"])
    same(angles, a0, "the angles were changed")
    s = c["dmp"]
    D = len(s["y_init"])
    ctx.nt(D >= 2)
    lengths = c["links"]
    ctx.label(f"{D} joints", "default links" if not lengths else "given links")
    given = arr(lengths) if lengths is not None and c["links_as"] == "array" else lengths
    dmp = build_dmp(s)
    dmp.set_selected_param_names("goal")
    T = s["tau"] * c["factor"]
    args = () if lengths is None and c["links_as"] == "list" else (given,)
    solver = TaskSolverDmpArm2D(dmp, T / (c["steps"] + c["rest"]), c["factor"], *args)
    ref_links = lengths if lengths else [1.0 / D] * D
    ts = np.linspace(0.0, T, c["steps"] + 1)
    task = TaskViapointArm2D(D, arr(o["viapoint"]), **task_kwargs(o, ts))
    for k in range(c["n_samples"]):
        sample = arr(s["y_attr"]) + rng.normal(size=D) * 0.3
        given_sample = sample.copy()
        cv = solver.perform_rollout(given_sample)
        same(given_sample, sample, "the sample was changed by the rollout")
        fresh = build_dmp(s)
        fresh.set_selected_param_names("goal")
        fresh.set_param_vector(sample)
        xs, xds, _, _ = fresh.analytical_solution(ts)
        traj = fresh.states_as_trajectory(ts, xs, xds)
        ref = np.column_stack((ts, traj.ys, traj.yds, traj.ydds))
        check(cv.shape == (ts.size, 1 + 3 * D + 2 * (D + 1)), "size of the rollout of an arm", got=cv.shape)
        close(cv[:, : 1 + 3 * D], ref, "joint angles", rtol=1e-8, atol=0, scale=np.max(np.abs(ref), axis=0) + 1e-12)
        links_pos = cv[:, 1 + 3 * D :]
        tol = 1e-9 * (1 + np.max(np.abs(traj.ys))) * np.sum(ref_links)
        close(links_pos, arm_reference(cv[:, 1 : 1 + D], ref_links), "positions of the links of the arm", rtol=0, atol=tol)
        before = cv.copy()
        with contextlib.redirect_stdout(None):
            costs = task.evaluate_rollout(cv, sample)
        same(cv, before, "the rollout was changed by evaluating it")
        costs_ok(task, costs, expected_costs(o, ts, cv[:, -2:], cv[:, 1 + 2 * D : 1 + 3 * D], sample), "viapoint task for an arm")
        cv[:] = 0.0


# --- throwing a ball ---------------------------------------------------------------------------


def robot_module(name):
    path = os.path.join(REPO, "demos", "robot")
    if path not in sys.path:
        sys.path.append(path)
    return importlib.import_module(name)


def fly(ts, dts, hand, y_floor, release, tol=0.0):
    """Positions of the ball which is in the hand up to sample `release`, and the sample at which it lands (or None).

    A list: whether the ball lands may be decided by rounding errors (up to `tol`)."""
    ys, yds = hand
    ball = np.array(ys)
    p, v, out = np.array(ys[release]), np.array(yds[release]), []
    for i in range(release + 1, len(ts)):
        v = v + dts[i] * np.array([0.0, -9.81])
        p = p + dts[i] * v
        if p[1] < y_floor + tol:
            b = ball.copy()
            b[i:] = p[0], y_floor
            out.append((b, i))
            if p[1] < y_floor - tol:
                return out
        ball[i] = p
    return out + [(ball, None)]


@st.composite
def throw_cases(draw):
    from vf.dmps import TYPES

    d = draw(dmp_spec(types=TYPES, amp=draw(st.sampled_from([10.0, 100.0, 300.0])), fas=draw(st.sampled_from(["yes", "yes", None]))))
    for k in ("y_init", "y_attr", "amplitudes"):
        if k in d:
            d[k] = (d[k] * 2)[:2]
    if d["fas"] is not None:
        d["fas"] = (d["fas"] * 2)[:2]
    # (steps of 0.01 s are too large for the integration of faster movements)
    d["tau"] = draw(st.one_of(log_real(0.5 if d["type"].startswith("SCT") else 0.37, 3.0), st.sampled_from([0.5, 1.0, 2.0])))
    return {
        "dmp": d, "floor": draw(st.one_of(st.just("default"), real(-8.0, -0.1), real(-50.0, 3.0))), "x_goal": draw(real(-3.0, 3.0)), "margin": draw(st.one_of(st.just(0.0), log_real(0.001, 3.0))),
        "acc": draw(st.one_of(st.just("default"), st.just(0.0), log_real(1e-5, 1.0))), "twice": draw(st.booleans()), "use": draw(st.booleans()),
    }


def throw_costs(cost_vars, x_goal, margin, acc):
    n = cost_vars.shape[0]
    return [max(0.0, abs(cost_vars[-1, 7] - x_goal) - margin), acc * sum(a * a for a in cost_vars[:, 5:7].ravel()) / n]


def run_throw(case, ctx):
    mod = robot_module("TaskThrowBall")
    c, s = case, case["dmp"]
    dmp = build_dmp(s)
    kw = {} if c["floor"] == "default" else {"y_floor": c["floor"]}
    floor = kw.get("y_floor", -0.3)
    if c["use"]:
        dmp.integrate_start(arr([4.0, -5.0]))
        dmp.y_init = arr(s["y_init"])
    cv = mod.run_python_simulation(dmp, **kw)
    if c["twice"]:
        cv = mod.run_python_simulation(dmp, **kw)
    ts = np.arange(0, 1.5 * s["tau"], 0.01)
    n = ts.size
    check(cv.shape == (n, 9), "size of the rollout", got=cv.shape, expected=(n, 9))
    ref = np.zeros((n, 6))
    fresh = build_dmp(s)
    x, xd = fresh.integrate_start()
    for i in range(n):
        if i:
            x, xd = fresh.integrate_step(0.01, x)
        ref[i] = np.concatenate(fresh.states_as_pos_vel_acc(x, xd))
    close(cv[:, 0], ts, "times of the simulation", rtol=1e-12)
    scale = np.repeat(np.max(np.abs(ref).reshape(n, 3, 2), axis=(0, 2)), 2) + 1e-12
    close(cv[:, 1:7], ref, "positions, velocities and accelerations of the hand", rtol=1e-9, atol=0, scale=scale)
    ball = cv[:, 7:9]
    ball_ok(ctx, ball, ts, np.full(n, 0.01), (ref[:, :2], ref[:, 2:4]), floor, scale, ts)
    acc = 0.0001 if c["acc"] == "default" else c["acc"]
    task = mod.TaskThrowBall(c["x_goal"], c["margin"], floor, *([] if c["acc"] == "default" else [acc]))
    before = cv.copy()
    costs = task.evaluate_rollout(cv, np.zeros(3))
    same(cv, before, "the rollout was changed by evaluating it")
    costs_ok(task, costs, throw_costs(before, c["x_goal"], c["margin"], acc), "throwing a ball")
    ctx.label(s["type"])


def ball_ok(ctx, ball, ts, dts, hand, floor, scale, clock, rtol=1e-8, atol=0.0):
    """The ball is released in the first time step for which the clock is after 0.6 (up to rounding)."""
    after = [i for i in range(1, len(ts)) if clock[i] > 0.6 + 1e-9]
    release = [after[0]] if after else []
    maybe = [i for i in range(1, len(ts)) if abs(clock[i] - 0.6) <= 1e-9]
    tol = atol + rtol * (scale[0] + abs(floor) + scale[2] * max(dts[-1] * len(ts), 0) + 9.81 * (dts[-1] * len(ts)) ** 2)
    best = None
    for r in maybe + release + ([] if release else [len(ts) - 1]):
        for b, landed in fly(ts, dts, hand, floor, r, tol):
            err = np.max(np.abs(b - ball))
            if best is None or err < best[0]:
                best = (err, b, landed, r)
    err, b, landed, r = best
    ctx.nt(r < len(ts) - 1)
    ctx.label("never released" if r == len(ts) - 1 else "in the air" if landed is None else "landed")
    close(ball, b, "movement of the ball", rtol=0, atol=tol, released=r, landed=landed)


# --- force field -------------------------------------------------------------------------------


@st.composite
def field_cases(draw):
    d = draw(dmp_spec(amp=100.0, max_dims=2))
    d["tau"] = draw(st.one_of(st.just(1.0), log_real(0.2, 3.0)))
    n = len(d["y_init"])
    lo = draw(real(1.0, 30.0))
    return {
        "dmp": d, "sched": [draw(fa_spec(amp=300.0)) for _ in range(n)], "min": lo, "max": lo + draw(real(1.0, 400.0)), "steps": draw(st.integers(80, 120)), "rest": draw(st.sampled_from([0.3, 0.7])),
        "factor": draw(st.one_of(st.just(1.2), real(0.6, 1.6))), "strength": draw(st.one_of(st.just(0.0), real(-20.0, 20.0), real(-20.0, 20.0))), "max_time": draw(real(0.1, 1.2)),
        "stochastic": draw(st.booleans()), "seed": draw(seeds()), "i": draw(st.integers(1, 150)), "frac": draw(st.sampled_from([0.0, 0.4])), "via": draw(vec(real(-2.0, 2.0), n)),
        "weights": draw(vec(st.one_of(st.just(0.0), log_real(0.01, 10.0)), 3)), "defaults": draw(st.booleans()),
    }


def field(ts, strength, max_time):
    return strength * np.exp(-0.5 * (ts - max_time) ** 2 / (0.05 * max_time))


def track(ts, des, gains, push):
    """Movement of a PD-controller that tracks a movement, pushed by a force field. Its first state is the desired one."""
    y, yd = des[0][0].copy(), des[1][0].copy()
    out = [np.concatenate((y, yd, des[2][0]))]
    dt = ts[1] - ts[0]
    for i in range(1, len(ts)):
        ydd = des[2][i] - gains[i] * (y - des[0][i]) - np.sqrt(gains[i]) * (yd - des[1][i]) + push[i]
        yd = yd + dt * ydd
        y = y + dt * yd
        out.append(np.concatenate((y, yd, ydd)))
    return np.array(out)


def run_field(case, ctx):
    from demos.python.bbo_of_dmps.with_schedules import demo_bbo_of_dmps_with_gains as gains_demo
    from demos.python.bbo_of_dmps.with_schedules import force_field_simulator
    from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules

    c, s = case, case["dmp"]
    D = len(s["y_init"])
    tau = s["tau"]

    def make(sample=None):
        def cls(tau, y_init, y_attr, fas, **kw):
            return DmpWithSchedules(tau, y_init, y_attr, fas, [build_fa(f) for f in c["sched"]], **kw)

        d = build_dmp(s, cls=cls, min_schedules=c["min"], max_schedules=c["max"])
        d.set_selected_param_names("goal")
        if sample is not None:
            d.set_param_vector(sample)
        return d

    def desired(d, ts):
        x, xd, sch = d.integrate_start_sched()
        des, gains = [d.states_as_pos_vel_acc(x, xd)], [np.asarray(sch, dtype=float).reshape(-1)]
        for _ in ts[1:]:
            x, xd, sch = d.integrate_step_sched(ts[1] - ts[0], x)
            des.append(d.states_as_pos_vel_acc(x, xd))
            gains.append(np.asarray(sch, dtype=float).reshape(-1))
        return [np.array([q[k] for q in des]) for k in range(3)], np.array(gains)

    n = c["steps"] + 1
    T = tau * c["factor"]
    ts = np.linspace(0.0, T, n)
    strength, max_time = c["strength"], c["max_time"] * tau
    ctx.nt(strength != 0.0)
    ctx.label(s["type"], f"{D}-D", "stochastic" if c["stochastic"] else "constant")

    def compare(got, push, des, gains, what):
        """got: dictionary"""
        close(got["schedules"], gains, f"{what}: gains", rtol=1e-9)
        for k, v in enumerate(("ys_des", "yds_des", "ydds_des")):
            close(got[v], des[k], f"{what}: desired movement ({v})", rtol=1e-9, atol=0, scale=np.max(np.abs(des[k])) + 1e-12)
        ref = track(ts, des, gains, push)
        if not np.max(np.abs(ref)) < 1e20:
            ctx.label("movement diverges")
            return
        for k, v in enumerate(("ys_cur", "yds_cur", "ydds_cur")):
            r = ref[:, k * D : (k + 1) * D]
            # (the controller may amplify rounding errors, but then the movement grows as well)
            close(got[v], r, f"{what}: movement in the force field ({v})", rtol=1e-7, atol=0, scale=np.max(np.abs(r)) + np.max(np.abs(des[k])) + 1e-9)

    r = force_field_simulator.perform_rollout(make(), T, n, strength, max_time)
    push = field(ts, strength, max_time)
    push[0] = 0.0
    des, gains = desired(make(), ts)
    same(r["ts"], ts, "times of the simulation")
    close(np.asarray(r["fields"]).reshape(-1), push, "force field", rtol=1e-9, atol=0, scale=20.0)
    compare(r, push, des, gains, "simulation")

    # Task solver: samples are the parameters of the DMP with schedules
    rng = np.random.default_rng(c["seed"])
    dmp = make()
    solver = gains_demo.TaskSolverDmpWithGainsAndForceField(dmp, T / (c["steps"] + c["rest"]), c["factor"], c["stochastic"])
    dmp.tau = 3.0 * tau  # the DMP which was passed may be used for other things later
    max_time = 0.5 * tau
    ratios = []
    for k in range(3):
        sample = arr(s["y_attr"]) + rng.normal(size=D)
        given = sample.copy()
        random.seed(c["seed"] + k)
        cv = solver.perform_rollout(given)
        same(given, sample, "the sample was changed by the rollout")
        check(cv.shape == (n, 1 + 7 * D), "size of the rollout", got=cv.shape, expected=(n, 1 + 7 * D))
        names = ["ys_cur", "yds_cur", "ydds_cur", "schedules", "ys_des", "yds_des", "ydds_des"]
        got = {v: cv[:, 1 + i * D : 1 + (i + 1) * D] for i, v in enumerate(names)}
        close(cv[:, 0], ts, "times of the rollout", rtol=1e-12)
        des, gains = desired(make(sample), ts)
        if c["stochastic"]:
            # The strength of the field at the sample where it is strongest
            unit = field(ts, 1.0, max_time)
            i = 1 + int(np.argmax(unit[1:]))
            y, yd = got["ys_cur"][i - 1], got["yds_cur"][i - 1]
            without = des[2][i] - gains[i] * (y - des[0][i]) - np.sqrt(gains[i]) * (yd - des[1][i])
            size_ = np.max(np.abs(without)) + np.max(np.abs(gains[i] * y)) + np.max(np.abs(got["ydds_cur"][i])) + np.max(np.abs(des[2][i]))
            if unit[i] < 0.01 or size_ > 1e8:
                ctx.label("force field not seen")
                continue
            strength = float((got["ydds_cur"][i] - without)[0] / unit[i])
            check(abs(strength) <= 20.0 + 1e-6 * (1 + size_), "strength of the stochastic force field", got=strength)
            ratios.append(strength)
            if size_ > 1e4:
                continue
        else:
            strength = -20.0
        push = field(ts, strength, max_time)
        push[0] = 0.0
        if c["stochastic"]:  # the strength is known up to rounding errors only
            ref = track(ts, des, gains, push)
            if np.max(np.abs(ref)) > 1e5:
                continue
        compare(got, push, des, gains, "rollout")
        i = 1 + c["i"] % (n - 1)
        t_via = float(ts[i] - c["frac"] * (ts[i] - ts[i - 1]))
        w = c["weights"]
        kw = {"viapoint_weight": w[0], "acceleration_weight": w[1], "gain_weight": w[2]}
        if c["defaults"]:
            kw, w = {}, [1.0, 0.0001, 0.0]
        task = gains_demo.TaskViapointWithGains(arr(c["via"]), t_via, c["min"], c["max"], **kw)
        before = cv.copy()
        costs = task.evaluate_rollout(cv, sample)
        same(cv, before, "the rollout was changed by evaluating it")
        dist = sum((a - b) ** 2 for a, b in zip(got["ys_cur"][i], c["via"])) ** 0.5
        acc = sum(abs(a) for a in got["ydds_cur"].ravel()) / n
        gain = (sum(got["schedules"].ravel()) - c["min"]) / (n * c["max"])
        costs_ok(task, costs, [w[0] * dist, w[1] * acc, w[2] * gain], "viapoint task with gains")
    if len(ratios) > 1:
        check(len(set(np.round(ratios, 6))) == len(ratios), "the stochastic force field is the same for all rollouts", got=ratios)


SUBS = [
    Sub("viapoint", viapoint_cases, run_viapoint, quick=2400, thorough=60000, shards=4),
    Sub("arm", arm_cases, run_arm, quick=800, thorough=20000, shards=4),
    Sub("throw", throw_cases, run_throw, quick=320, thorough=9000, shards=8),
    Sub("field", field_cases, run_field, quick=280, thorough=8000, shards=8),
]
