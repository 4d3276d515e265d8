"""C35: plots show the data of what they plot, and plotting does not change it."""
import contextlib
import os
import shutil
import tempfile

os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np
from hypothesis import strategies as st

from vf.checks.c18 import bound_kwargs, bounds
from vf.checks.c21 import cases as updater_cases, make_updater
from vf.checks.c23 import make_distribution
from vf.core import Sub, check, close, same
from vf.demos import demo_spec, demo_traj
from vf.dmps import TYPES, build_dmp, build_fa, dmp_spec, fa_spec
from vf.fas import data_spec, fa_conf, make_fa, make_inputs, make_targets
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import build as build_system, dims, system_spec
from vf.trajs import build as build_traj, snapshot, traj_spec

RULE = (
    "A case is a trajectory, dynamical system, DMP (also with schedules, or contextual), trained function approximator or optimization session (in memory, from disk, step by step), and "
    "what to plot of it: passed axes or new ones, given data or data to be computed, options. Non-trivial: the plotted curves are not constant"
)
ASSUMPTIONS = ["figures are not rendered: the data of lines, surfaces and ellipses in the axes are inspected", "costs of sessions are arrays, as documented"]


@contextlib.contextmanager
def plotting():
    """Settings changed by plotting, and figures, are removed."""
    import matplotlib
    import matplotlib.pyplot as plt

    with matplotlib.rc_context():
        try:
            yield plt
        finally:
            plt.close("all")


def xy(ax):
    return [np.column_stack([np.asarray(v, dtype=float).reshape(-1) for v in l.get_data()]) for l in ax.get_lines()]


def is_line(M, x, y, rtol=1e-9):
    if M.shape[0] != x.size:
        return False
    sx, sy = np.max(np.abs(x)) + 1e-300, np.max(np.abs(y[np.isfinite(y)]), initial=0.0) + 1e-300
    return np.allclose(M[:, 0], x, rtol=0, atol=rtol * sx) and np.allclose(M[:, 1], y, rtol=0, atol=rtol * sy, equal_nan=True)


def columns(Y, n):
    Y = np.asarray(Y, dtype=float)
    return list(Y.reshape(n, -1).T)


def shows(ax, x, *series, what, only=True):
    """For each column of each series, a line is in the axes. Lines of that many points show nothing else."""
    x = np.asarray(x, dtype=float).reshape(-1)
    expected = [c for Y in series for c in columns(Y, x.size)]
    got = [M for M in xy(ax) if M.shape[0] == x.size]
    free = list(range(len(got)))
    for j, y in enumerate(expected):
        i = next((i for i in free if is_line(got[i], x, y)), None)
        check(i is not None, f"{what}: no line shows the values of column {j}", got=[g[:3].tolist() for g in got], expected=np.column_stack((x, y))[:3])
        free.remove(i)
    if only and x.size > 2:
        check(not free, f"{what}: a line shows other values", got=[got[i][:3].tolist() for i in free])
    return any(np.ptp(y) > 0 for y in expected)


def flat(h):
    out = []
    for e in h if isinstance(h, (list, tuple, np.ndarray)) else [h]:
        out.extend(flat(e) if isinstance(e, (list, tuple, np.ndarray)) else [e])
    return out


def handles_ok(h, axs, n, what):
    """n handles were returned, and are in the axes."""
    h = flat(h)
    check(len(h) == n, f"{what}: number of handles", got=len(h), expected=n)
    check(all(e.axes in list(axs) for e in h), f"{what}: handles of other axes")


def new_axes(plt, n, **kw):
    fig = plt.figure()
    return [fig.add_subplot(1, n, i + 1, **kw) for i in range(n)]


def elsewhere(plt):
    """Another figure with axes, which are the current ones."""
    return plt.figure().add_subplot()


def untouched(ax):
    check(not ax.get_lines() and not ax.collections and not ax.patches and ax.get_legend() is None and len(ax.figure.axes) == 1, "something was plotted in other axes or figures than those passed")


# --- trajectories ----------------------------------------------------------------------------------


@st.composite
def traj_cases(draw):
    return {"traj": draw(traj_spec(n_min=3)), "axes": draw(st.integers(0, 4)), "then": draw(st.lists(st.sampled_from(["crop", "append", "copy"]), max_size=1))}


def run_trajectories(case, ctx):
    t = build_traj(case["traj"])
    with plotting() as plt:
        n = case["axes"]
        axs = new_axes(plt, n) if n else None
        other = elsewhere(plt) if n else None
        before = snapshot(t)
        h, got = t.plot(axs)
        if other:
            untouched(other)
        if axs is None:
            check(len(got) == (4 if t.has_misc() else 3), "number of new axes", got=len(got))
            axs = got
        check(list(got) == list(axs), "the axes are not returned")
        data = [before["ys"], before["yds"], before["ydds"], before["misc"]]
        total = 0
        for ax, y, name in zip(axs, data, ("positions", "velocities", "accelerations", "misc")):
            if y is not None:
                ctx.nt(shows(ax, before["ts"], y, what=f"plot of a trajectory, {name}"))
                total += columns(y, before["ts"].size).__len__()
        handles_ok(h, axs, total, "plot of a trajectory")
        after = snapshot(t)
        for k in before:
            if before[k] is not None:
                same(after[k], before[k], f"plotting changes {k}")
        ctx.label(f"{n} axes", "misc" if t.has_misc() else "no misc")


# --- dynamical systems -----------------------------------------------------------------------------


@st.composite
def system_cases(draw):
    return {"sys": draw(system_spec()), "given": draw(st.booleans()), "axes": draw(st.sampled_from([0, 0, -1, 1, 2, 3])), "n": draw(st.integers(3, 15)), "end": draw(real(0.5, 2.0)), "late": draw(st.sampled_from([0.0, 0.0, 0.3])),
            "noise": draw(st.booleans()), "seed": draw(seeds())}


def run_systems(case, ctx):
    s = case["sys"]
    o = build_system(s)
    ts = np.linspace(case["late"] * s["tau"], case["end"] * s["tau"], case["n"])
    xs, xds = o.analytical_solution(ts)
    d = dims(s)
    spring = s["kind"] == "spring"
    if case["given"] and case["noise"]:  # whatever is passed is plotted
        rng = np.random.default_rng(case["seed"])
        xs, xds = rng.normal(size=xs.shape), rng.normal(size=xs.shape)
    given = (xs.copy(), xds.copy()) if case["given"] else (None, None)
    ctx.label(s["kind"], "given" if case["given"] else "computed")
    with plotting() as plt:
        n = case["axes"]
        want = 3 if spring else 2
        kw = {}
        other = None
        if n > 0:
            kw["axs"] = new_axes(plt, min(n, want))
            other = elsewhere(plt)
        elif n < 0:
            kw["fig"] = plt.figure()
            other = elsewhere(plt)
        if case["given"]:
            h, axs = o.plot(ts, given[0], given[1], **kw)
            same(given[0], xs, "plotting changes the states")
            same(given[1], xds, "plotting changes the rates of change")
        else:
            h, axs = o.plot(ts, None, None, **kw)
        if other:
            untouched(other)
        if n > 0:
            check(list(axs) == kw["axs"], "the axes are not returned")
        else:
            check(len(axs) == want, "number of new axes", got=len(axs), expected=want)
            if n < 0:
                check(all(a.figure is kw["fig"] for a in axs), "the axes are not in the figure passed")
        data = [xs[:, :d], xds[:, :d], xds[:, d:] / s["tau"]] if spring else [xs, xds]
        for ax, y, name in zip(axs, data, ("states", "rates of change", "accelerations")):
            ctx.nt(shows(ax, ts, y, what=f"plot of a system ({s['kind']}), {name}"))
        handles_ok(h, axs, d * len(axs), "plot of a system")
    ref = build_system(s).analytical_solution(ts)
    now = o.analytical_solution(ts)
    for a, b in zip(now, ref):
        close(a, b, "plotting changes the system", rtol=1e-12)


# --- DMPs ------------------------------------------------------------------------------------------


@st.composite
def dmp_cases(draw):
    s = draw(dmp_spec(max_dims=2, amp=100.0, big=7))
    n = len(s["y_init"])
    c = {"dmp": s, "n": draw(st.integers(3, 20)), "end": draw(real(0.5, 2.0)), "late": draw(st.sampled_from([0.0, 0.0, 0.3])), "demo": draw(demo_spec(n=n, n_min=25, n_max=40)),
         "train": draw(st.booleans()), "xs": draw(st.sampled_from(["computed", "computed", "given", "given with outputs", "training times"])), "compact": draw(st.integers(0, 4)) == 0,
         "own_axes": draw(st.booleans()), "no_forcing": draw(st.booleans()), "show_demo": draw(st.booleans()), "tau_line": draw(st.booleans()),
         "what": draw(st.sampled_from(["plot", "plot", "plot", "comparison", "sched"])), "noise": draw(st.integers(0, 3)) == 0, "seed": draw(seeds())}
    if draw(st.integers(0, 2)) == 0:
        k = draw(st.integers(1, 2))
        c["sched"] = [draw(fa_spec(amp=100.0)) for _ in range(k)]
        c["bounds"] = draw(bounds(k))
    return c


def behaviour(dmp, ts):
    xs, xds, f, fa = dmp.analytical_solution(ts)
    return [np.array(v) for v in (xs, xds, f, fa, dmp.get_param_vector(), [dmp.tau], dmp.y_init, dmp.y_attr)]


def as_before(a, b, what):
    names = ("states", "rates of change", "forcing terms", "outputs of the function approximators", "parameters", "tau", "initial state", "goal")
    for x, y, n in zip(a, b, names):
        close(x, y, f"{what} changes the {n} of the DMP", rtol=1e-12)


def run_dmps(case, ctx):
    from dmpbbo.dmps.Dmp import Dmp

    s, sched = case["dmp"], case.get("sched")
    n, tau = len(s["y_init"]), s["tau"]
    if sched:
        from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules

        def cls(tau, y_init, y_attr, fas, **kw):
            return DmpWithSchedules(tau, y_init, y_attr, fas, [build_fa(f) for f in sched], **kw)

        dmp = build_dmp(s, cls=cls, **bound_kwargs(case["bounds"]))
    else:
        dmp = build_dmp(s)
    demo = demo_traj(dict(case["demo"], T=tau))
    what = case["what"] if sched or case["what"] != "sched" else "plot"
    trained = case["train"] and s["fas"] is not None and not sched
    if trained:
        dmp.train(demo)
    ts = np.linspace(case["late"] * dmp.tau, case["end"] * dmp.tau, case["n"])
    how = case["xs"]
    if how == "training times" and (not trained or what != "plot"):
        how = "computed"
    times = demo.ts if how == "training times" else ts
    if what == "comparison":
        times = demo.ts if case["own_axes"] else ts
    before = behaviour(dmp, times)
    xs, xds, forcing, fa_out = [np.array(v) for v in before[:4]]
    if "given" in how and case["noise"] and what != "comparison":
        rng = np.random.default_rng(case["seed"])
        xs, xds = rng.normal(size=xs.shape), rng.normal(size=xs.shape)
    ctx.label(s["type"], what, how, "compact" if case["compact"] and what == "plot" else "full")
    shape = lambda: dmp.states_as_trajectory(times, xs, xds)  # noqa
    demo_before = snapshot(demo)
    with plotting() as plt:
        if what == "comparison":
            kw = {} if case["own_axes"] else {"ts": ts}
            if case["no_forcing"]:
                kw["axs"] = new_axes(plt, 1 + case["seed"] % 3)
                other = elsewhere(plt)
            h, axs = dmp.plot_comparison(demo, **kw)
            if case["no_forcing"]:
                untouched(other)
            tr = shape()
            for ax, a, b, name in zip(axs, (demo.ys, demo.yds, demo.ydds), (tr.ys, tr.yds, tr.ydds), ("positions", "velocities", "accelerations")):
                if times.size == demo.ts.size and is_line(np.column_stack((times, times)), demo.ts, times):
                    shows(ax, demo.ts, a, b, what=f"comparison, {name}")
                else:
                    shows(ax, demo.ts, a, what=f"comparison, demonstration, {name}")
                    shows(ax, times, b, what=f"comparison, reproduced, {name}")
            # told apart by their labels
            for label, x, y in (("demonstration", demo.ts, demo.ys), ("reproduced", times, tr.ys)):
                for l in [l for l in axs[0].get_lines() if l.get_label() == label]:
                    M = np.column_stack(l.get_data())
                    check(any(is_line(M, x, c) for c in columns(y, x.size)), f"comparison: line labelled '{label}' shows something else")
                check(sum(l.get_label() == label for l in axs[0].get_lines()) == n, f"comparison: lines labelled '{label}'")
            ctx.nt()
        else:
            compact = case["compact"] and what == "plot"
            kw = {"plot_tau": case["tau_line"]} if not case["tau_line"] else {}
            if compact:
                kw["plot_compact"] = True
            other = None
            if case["own_axes"] and what == "plot":
                kw["axs"] = Dmp.get_dmp_axes(plot_compact=True) if compact else Dmp.get_dmp_axes()
                check(len(kw["axs"]) == (5 if compact else 8), "number of axes")
                other = elsewhere(plt)
            if case["no_forcing"]:
                kw["plot_no_forcing_term_also"] = True
            if case["show_demo"]:
                kw["plot_demonstration"] = demo
            outputs = True
            a, b = xs.copy(), xds.copy()
            if what == "sched":
                S = np.random.default_rng(case["seed"]).normal(size=(times.size, len(sched)))
                h, axs = dmp.plot_sched(times, a, b, S, **kw)
                outputs = False
                check(len(axs) == 11 or len(axs) == 10, "axes of a plot with schedules", got=len(axs))
                # the last axes are the ones with the schedules
                check(all(x.figure is axs[0].figure for x in axs), "schedules are plotted in another figure")
                shows(axs[-1], times, S, what="plot with schedules, schedules")
            elif how == "given":
                h, axs = dmp.plot(times, a, b, **kw)
                outputs = False
            elif how == "given with outputs":
                h, axs = dmp.plot(times, a, b, forcing_terms=forcing, fa_outputs=fa_out, **kw)
            elif how == "training times":
                h, axs = dmp.plot(**kw)
            else:
                h, axs = dmp.plot(times, **kw)
            same(a, xs, "plotting changes the states passed")
            same(b, xds, "plotting changes the rates passed")
            if other:
                untouched(other)
            tr = shape()
            extra = [[], [], []]
            if case["no_forcing"]:
                nxs, nxds = dmp.analytical_solution(times, True)[:2]
                q = dmp.states_as_trajectory(times, nxs, nxds)
                extra = [[q.ys], [q.yds], [q.ydds]]
            same_times = demo.ts.size == times.size
            demo_data = [demo.ys, demo.yds, demo.ydds] if case["show_demo"] else [None] * 3
            others = xs[:, 2 * n:]
            goal, phase, gating = others[:, :n], others[:, n], others[:, n + 1]
            if compact:
                where = {"spring": axs[0:3], "goal": axs[0], "phase": None, "gating": axs[4], "fa": axs[3], "forcing": axs[3]}
            else:
                where = {"spring": axs[1:4], "goal": axs[0], "phase": axs[4], "gating": axs[6], "fa": axs[5], "forcing": axs[7]}
            for i, (ax, y, name) in enumerate(zip(where["spring"], (tr.ys, tr.yds, tr.ydds), ("positions", "velocities", "accelerations"))):
                series = [y] + extra[i]
                if compact and i == 0:
                    series.append(goal)
                if demo_data[i] is not None:
                    if not same_times:
                        shows(ax, demo.ts, demo_data[i], what=f"plot of a DMP, {name} of the demonstration")
                    elif np.allclose(demo.ts, times, rtol=0, atol=1e-12 * tau):
                        series.append(demo_data[i])
                only = not (same_times and demo_data[i] is not None)
                ctx.nt(shows(ax, times, *series, what=f"plot of a DMP, {name}", only=only))
            if not compact:
                rates = xds[:, 2 * n:]
                shows(where["goal"], times, goal, what="plot of a DMP, goal")
                shows(where["phase"], times, phase, what="plot of a DMP, phase")
                del rates
            shows(where["gating"], times, gating, what="plot of a DMP, gating")
            f = forcing if outputs else np.empty((times.size, 0))
            o = fa_out if outputs else np.empty((times.size, 0))
            if compact:
                shows(where["fa"], times, f, o, what="plot of a DMP, forcing terms and outputs of function approximators")
            else:
                shows(where["fa"], times, o, what="plot of a DMP, outputs of function approximators")
                shows(where["forcing"], times, f, what="plot of a DMP, forcing terms")
            if case["tau_line"]:
                for ax in axs if what == "plot" else axs[:10]:
                    v = [M for M in xy(ax) if M.shape[0] == 2 and M[0, 0] == M[1, 0]]
                    check(any(abs(M[0, 0] - dmp.tau) <= 1e-9 * dmp.tau for M in v), "plot of a DMP: no line at tau")
            check(all(e.axes in axs for e in flat(h)), "plot of a DMP: handles of other axes")
    as_before(behaviour(dmp, times), before, "plotting")
    after = snapshot(demo)
    for k in after:
        if after[k] is not None:
            same(after[k], demo_before[k], f"plotting changes the demonstration ({k})")


# --- contextual DMPs -------------------------------------------------------------------------------


@st.composite
def contextual_cases(draw):
    n = draw(st.integers(1, 2))
    return {
        "n": n, "demos": draw(st.integers(3, 5)), "demo": draw(demo_spec(n=n, n_min=25, n_max=35, end_moving=False)), "fas": draw(st.integers(1, 4)),
        "ppf": draw(st.sampled_from(["WLS", "RBFN", "LWR", "GPR"])), "type": draw(st.sampled_from(TYPES)), "own_axes": draw(st.booleans()), "functions": draw(st.booleans()),
        "p": draw(st.integers(1, 2)), "query": draw(vec(real(0.0, 1.0), 2)), "used": draw(st.booleans()), "goal": draw(st.booleans()),
        "scalar": draw(st.booleans()), "save": draw(st.integers(0, 3)) > 0,
    }


def run_contextual(case, ctx):
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.dmps.DmpContextualTwoStep import DmpContextualTwoStep
    from dmpbbo.functionapproximators.FunctionApproximatorGPR import FunctionApproximatorGPR
    from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
    from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS

    n, p, T = case["n"], case["p"], case["demo"]["T"]

    def demo(tp):
        d = dict(case["demo"], seed=0)
        d["bump"] = [[b * (1 + tp[0] + 0.5 * tp[-1] ** 2) for b in bb] for bb in d["bump"]]
        return demo_traj(d)

    def task(tp):
        return float(tp[0]) if p == 1 and case["scalar"] else np.array(tp)

    tps = [np.array([i / (case["demos"] - 1), ((i * 7) % 5) / 4.0][:p]) for i in range(case["demos"])]
    demos = [(task(tp), demo(tp)) for tp in tps]
    ppf = {"WLS": FunctionApproximatorWLS(regularization=1e-6), "RBFN": FunctionApproximatorRBFN(3, 0.7, 1e-6), "LWR": FunctionApproximatorLWR(2, 0.5, 1e-6), "GPR": FunctionApproximatorGPR(1.0, 0.5)}[case["ppf"]]
    fas = [FunctionApproximatorRBFN(case["fas"] + 2, 0.7) for _ in range(n)]
    names = ["weights", "goal"] if case["goal"] else ["weights"]
    ct = DmpContextualTwoStep.from_trajs(demos, fas, names, ppf, dmp_type=case["type"], save_training_data=case["save"])
    q = np.array(case["query"][:p])
    ts = np.linspace(0.0, 1.2 * T, 9)
    if case["used"]:
        ct.analytical_solution(q, ts)
    ctx.label(case["type"], case["ppf"], "functions" if case["functions"] else "movements", f"{p} task parameters")

    def rollout(tp):
        xs, xds = ct.analytical_solution(np.array(tp), ts)[:2]
        t = ct.states_as_trajectory(ts, xs, xds)
        return np.column_stack((t.ys, t.yds, t.ydds))

    before = [rollout(tp) for tp in [*tps, q]]
    with plotting() as plt:
        if case["functions"]:
            hs, axs = ct.plot_policy_parameter_function()
            params = []
            for tp, tr in demos:
                d = Dmp.from_traj(tr, [FunctionApproximatorRBFN(case["fas"] + 2, 0.7) for _ in range(n)], dmp_type=case["type"])
                d.set_selected_param_names(names)
                params.append(d.get_param_vector())
            params = np.array(params)
            check(len(axs) >= params.shape[1], "axes for each parameter", got=len(axs))
            for j in range(params.shape[1] if case["save"] else 0):
                if p == 1:
                    check(any(is_line(M, np.array(tps)[:, 0], params[:, j], 1e-6) for M in xy(axs[j]) if M.shape[0] == len(demos)), f"parameter {j} of the demonstrations is not shown")
                else:
                    want = np.column_stack((np.array(tps), params[:, j]))
                    got = [np.array(l.get_data_3d(), dtype=float).T for l in axs[j].get_lines()]
                    tol = 1e-6 * (1e-6 + np.max(np.abs(params[:, j])))
                    check(any(M.shape == want.shape and np.allclose(M, want, rtol=0, atol=tol) for M in got), f"parameter {j} of the demonstrations is not shown")
            ctx.nt(np.max(np.ptp(params, axis=0)) > 0)
        else:
            kw = {}
            if case["own_axes"]:
                kw["axs"] = Dmp.get_dmp_axes()
                other = elsewhere(plt)
            hs, axs = ct.plot(demos, **kw)
            if case["own_axes"]:
                untouched(other)
                check(list(axs) == list(kw["axs"]), "the axes are not returned")
            for i, name in enumerate(("positions", "velocities", "accelerations")):
                shown = [M for M in xy(axs[1 + i]) if M.shape[0] > 2]
                for tp, tr in demos:
                    for y in columns((tr.ys, tr.yds, tr.ydds)[i], tr.ts.size):
                        check(any(is_line(M, tr.ts, y) for M in shown), f"{name} of a demonstration are not shown")
            # movements: for the task parameters of each demonstration, as long as it, from its initial to its final state
            shown = [M for M in xy(axs[1]) if M.shape[0] > 2 and M.shape[0] != demos[0][1].ts.size]
            for (tp, tr), P in zip(demos, tps):
                d = DmpContextualTwoStep.from_trajs(demos, [FunctionApproximatorRBFN(case["fas"] + 2, 0.7) for _ in range(n)], names, ppf, dmp_type=case["type"])
                ref_tr = None
                for M in shown:
                    t = M[:, 0]
                    if ref_tr is None or ref_tr.shape[0] != t.size:
                        xs, xds = d.analytical_solution(P, t)[:2]
                        ref_tr = d.states_as_trajectory(t, xs, xds).ys
                if shown:
                    for k in range(n):
                        good = [M for M in shown if np.allclose(M[:, 1], ref_tr[:, k], rtol=0, atol=1e-5 * (1e-3 + np.ptp(ref_tr)))]
                        check(good, "the movement for a demonstration is not shown")
            ctx.nt()
    for tp, b in zip([*tps, q], before):
        close(rollout(tp), b, "plotting changes the contextual DMP", rtol=1e-9)


# --- function approximators ------------------------------------------------------------------------


@st.composite
def fa_cases(draw):
    data = draw(data_spec())
    return {
        "data": data, "fa": draw(fa_conf(data["dims"], data=data, max_bfs=6)), "save": draw(st.booleans()), "what": draw(st.sampled_from(["plot", "plot", "predictions", "grid", "parameters"])),
        "inputs": draw(st.sampled_from(["none", "own", "own"])), "n": draw(size(2, 50, 60)), "targets": draw(st.booleans()), "residuals": draw(st.sampled_from([None, True, False])),
        "with_params": draw(st.booleans()), "own_axes": draw(st.booleans()), "one_d": draw(st.booleans()), "seed": draw(seeds()),
    }


def points3(h):
    """Points of a wireframe."""
    return np.vstack([np.asarray(s, dtype=float) for s in h._segments3d])


def grid_ok(ax, fa, lo, hi, D, what, h):
    """The predictions over the whole range are shown."""
    if D == 1:
        h = flat(h)
        check(len(h) == 1 and h[0].axes is ax, f"{what}: handle of the predictions")
        M = np.column_stack([np.asarray(v, dtype=float).reshape(-1) for v in h[0].get_data()])
    else:
        M = points3(flat(h)[0])
        check(flat(h)[0].axes is ax, f"{what}: surface in other axes")
    X, y = M[:, :D], M[:, D]
    close(np.min(X, axis=0), lo, f"{what}: smallest inputs", rtol=1e-9, scale=np.max(np.abs([lo, hi])))
    close(np.max(X, axis=0), hi, f"{what}: largest inputs", rtol=1e-9, scale=np.max(np.abs([lo, hi])))
    ref = fa.predict(np.array(X))
    close(y, np.ravel(ref), f"{what}: predictions", rtol=1e-6)
    check(np.unique(np.round((X - lo) / (np.asarray(hi) - lo + 1e-300), 6), axis=0).shape[0] >= 20 or np.all(np.asarray(lo) == hi), f"{what}: too few points")


def run_approximators(case, ctx):
    data = case["data"]
    D = data["dims"]
    X = make_inputs(data)
    y = make_targets(data, X)
    fa = make_fa(case["fa"], data)
    fa.train(X.copy(), y.copy(), save_training_data=True) if case["save"] else fa.train(X.copy(), y.copy())
    Z = make_inputs(data, seed=case["seed"], n=case["n"], margin=0.1)
    Z[0] += 0.01 * (np.asarray(data["hi"]) - np.asarray(data["lo"]))
    v = make_targets(dict(data, seed=data["seed"] + 5), Z)
    flat_inputs = D == 1 and case["one_d"] and case["fa"]["kind"] != "GPR"
    P = Z[:, 0] if flat_inputs else Z
    probe = make_inputs(data, seed=case["seed"] + 1, n=7)
    before, params = np.array(fa.predict(probe.copy())), fa.get_param_vector().copy()
    what = case["what"]
    ctx.label(case["fa"]["kind"], what, f"{D} inputs", "training data" if case["save"] else "no training data")
    lo, hi = Z.min(axis=0), Z.max(axis=0)
    with plotting() as plt:
        kw, other = {}, None
        if case["own_axes"]:
            kw["ax"] = new_axes(plt, 1, **({"projection": "3d"} if D == 2 else {}))[0]
            other = elsewhere(plt)
        passed = (P.copy(), v.copy())
        targets = None
        inputs = Z
        if what == "grid":
            h, ax = fa.plot_predictions_grid(lo, hi, **kw)
            grid_ok(ax, fa, lo, hi, D, "plot of predictions on a grid", h)
        elif what == "parameters":
            h, ax = fa.plot_model_parameters(lo, hi, **kw)
            parameters_ok(ax, fa, case, D, lo, hi)
        else:
            if case["targets"]:
                targets = v
                kw["targets"] = passed[1]
            if case["residuals"] is not None:
                kw["plot_residuals"] = case["residuals"]
            if what == "predictions":
                h, ax = fa.plot_predictions(passed[0], **kw)
            else:
                if case["with_params"]:
                    kw["plot_model_parameters"] = True
                own = case["inputs"] == "own"
                if not own:
                    kw.pop("targets", None)
                    targets = None
                if not own and not case["save"]:
                    h, ax = fa.plot(**kw)
                    check(h is None and ax is None, "plot without data")
                    if other:
                        untouched(other)
                    return
                if own:
                    if targets is None and case["save"]:
                        # (targets are those of the training)
                        kw["targets"] = passed[1]
                        targets = v
                    h, ax = fa.plot(passed[0], **kw)
                else:
                    h, ax = fa.plot(**kw)
                    inputs, targets = X, y
                grid_ok(ax, fa, inputs.min(axis=0), inputs.max(axis=0), D, "plot of a function approximator", h)
            outputs = np.ravel(fa.predict(np.array(inputs)))
            lines = [np.column_stack([np.asarray(q, dtype=float).reshape(-1) for q in (l.get_data() if D == 1 else l.get_data_3d())]) for l in ax.get_lines()]
            m = inputs.shape[0]
            series = [("predictions", outputs)] + ([("targets", targets)] if targets is not None else [])
            scale = np.max(np.abs([s for _, s in series])) + 1e-300
            sx = np.max(np.abs(inputs))
            for name, s in series:
                ok = any(M.shape[0] == m and np.allclose(M[:, :D], inputs, rtol=0, atol=1e-9 * sx) and np.allclose(M[:, D], s, rtol=0, atol=1e-9 * scale) for M in lines)
                check(ok, f"plot of a function approximator: {name} are not shown")
            if targets is not None and m > 2:
                short = [M for M in lines if M.shape[0] == 2]
                if case["residuals"] is not False:
                    for i in range(0, m, max(1, m // 5)):
                        ok = any(np.allclose(M[:, :D], inputs[i], rtol=0, atol=1e-9 * sx) and np.allclose(np.sort(M[:, D]), np.sort([targets[i], outputs[i]]), rtol=0, atol=1e-9 * scale) for M in short)
                        check(ok, f"plot of a function approximator: residual {i} is not shown")
                else:
                    check(not short, "plot of a function approximator: residuals are shown")
        if other:
            untouched(other)
            check(ax is kw["ax"], "the axes are not returned")
        same(passed[0], P, "plotting changes the inputs")
        same(passed[1], v, "plotting changes the targets")
        ctx.nt(np.ptp(before) > 0)
    close(fa.predict(probe.copy()), before, "plotting changes the predictions", rtol=1e-12)
    close(fa.get_param_vector(), params, "plotting changes the parameters", rtol=1e-12)


def parameters_ok(ax, fa, case, D, lo, hi):
    k = case["fa"]["kind"]
    if D == 1:
        lines = [M for M in xy(ax)]
    else:
        lines = [points3(c) for c in ax.collections]
    if k == "WLS":
        return
    check(len(lines) > 0, "plot of model parameters: nothing is shown")
    X = lines[0][:, :D]
    close(np.min(X, axis=0), lo, "plot of model parameters: smallest inputs", scale=np.max(np.abs([lo, hi])))
    close(np.max(X, axis=0), hi, "plot of model parameters: largest inputs", scale=np.max(np.abs([lo, hi])))
    if D == 2 and k == "LWR":
        lines = lines[: len(lines) // 2]
    V = np.array([M[:, D] for M in lines])
    if k in ("RBFN", "GPR"):
        close(V.sum(axis=0), np.ravel(fa.predict(np.array(X))), "plot of model parameters: the weighted basis functions do not add up to the predictions", rtol=1e-7,
              scale=np.max(np.sum(np.abs(V), axis=0)))
    else:
        n = V.shape[0] if D == 2 else V.shape[0] // 2
        close(V[:n].sum(axis=0), np.ones(X.shape[0]), "plot of model parameters: activations do not add up to one", rtol=1e-9)
        if D == 1:
            # line segments, where basis functions are active
            for M, a in zip(V[n:], V[:n]):
                ok = np.isfinite(M)
                if ok.sum() >= 3:
                    close(np.diff(M[ok], 2), np.zeros(ok.sum() - 2), "plot of model parameters: line segments are not straight", rtol=1e-7, scale=np.max(np.abs(M[ok]))) if np.all(np.diff(np.flatnonzero(ok)) == 1) else None
            # where only one basis function is active, the prediction is on its line
            best = np.argmax(V[:n], axis=0)
            sure = V[:n].max(axis=0) > 1 - 1e-9
            pred = np.ravel(fa.predict(np.array(X)))
            for i in np.flatnonzero(sure):
                close(V[n + best[i], i], pred[i], "plot of model parameters: line segment of the active basis function", rtol=1e-5, scale=np.max(np.abs(V[n:][np.isfinite(V[n:])])))


# --- sessions --------------------------------------------------------------------------------------


@st.composite
def session_cases(draw):
    c = draw(updater_cases())
    return {
        "u": c, "seed": draw(seeds()), "n_updates": draw(size(1, 6, 30, 6)), "n_samples": draw(size(2, 8, 40, 5)), "fmt": draw(st.sampled_from(["one", "list", "array"])),
        "labels": draw(st.booleans()), "disk": draw(st.booleans()), "kind": draw(st.sampled_from(["task", "cost", "none"])), "gains": draw(vec(log_real(0.1, 10.0), c["n"])), "T": draw(st.integers(3, 6)),
        "own_axes": draw(st.booleans()), "samples": draw(st.booleans()), "max_updates": draw(st.sampled_from([None, 2, 3, 20])), "which": draw(st.integers(0, 30)),
    }


def ellipse_ok(e, d, what):
    """An ellipse shows mean and covariance (one standard deviation) of the first two dimensions."""
    m, C = d.mean[:2], d.covar[:2, :2]
    close(e.get_center(), m, f"{what}: center of the ellipse", rtol=1e-9, atol=1e-300)
    a = np.radians(e.angle)
    R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    S = R @ np.diag([(e.width / 2) ** 2, (e.height / 2) ** 2]) @ R.T
    close(S, C, f"{what}: the ellipse is not that of the covariance matrix", rtol=1e-7, atol=1e-300)


def distributions_ok(ax, s, updates, what):
    from matplotlib.patches import Ellipse

    es = [p for p in ax.patches if isinstance(p, Ellipse)]
    check(len(es) == 2 * len(updates), f"{what}: number of ellipses", got=len(es), expected=2 * len(updates))
    lines = xy(ax)
    for j, i in enumerate(updates):
        old, new = s.ask("distribution", i), s.ask("distribution_new", i)
        ellipse_ok(es[2 * j], old, f"{what}, update {i}, before")
        ellipse_ok(es[2 * j + 1], new, f"{what}, update {i}, after")
        for d in (old, new):
            check(any(M.shape == (1, 2) and np.allclose(M[0], d.mean[:2], rtol=1e-12, atol=0) for M in lines), f"{what}: mean of update {i} is not shown")
        link = np.array([old.mean[:2], new.mean[:2]])
        check(any(M.shape == (2, 2) and np.allclose(M, link, rtol=1e-12, atol=0) for M in lines), f"{what}: change of the mean in update {i} is not shown")


def update_lines_ok(ax, x, what):
    """Vertical lines are at numbers of samples at which updates were made."""
    v = [M for M in xy(ax) if M.shape[0] == 2 and M[0, 0] == M[1, 0] and M[0, 1] != M[1, 1]]
    for M in v:
        check(np.min(np.abs(x - M[0, 0])) <= 1e-9 * (1 + np.max(x)), f"{what}: line at an update that was not made", got=M[0, 0], expected=x)


def learning_ok(ax, s, labels, what):
    k = int(s.ask("n_samples_per_update"))
    N = s.get_n_updates()
    curve = np.array(s.get_learning_curve()[0])
    all_costs = np.concatenate([np.array(s.get_sample_costs(i)).reshape(k, -1)[:, 0] for i in range(N)])
    dots = [M for M in xy(ax) if M.shape[0] == N * k and np.array_equal(M[:, 0], np.arange(N * k))]
    check(any(np.allclose(M[:, 1], all_costs, rtol=1e-12, atol=0) for M in dots), f"{what}: costs of samples are not shown")
    found = [M for M in xy(ax) if M.shape[0] == N]
    for j in range(1, curve.shape[1]):
        check(any(is_line(M, curve[:, 0], curve[:, j], 1e-12) for M in found), f"{what}: column {j} of the learning curve is not shown", got=found, expected=curve)
    if labels is None:
        check(ax.get_legend() is None, f"{what}: legend without labels")
    else:
        leg = ax.get_legend()
        check(leg is not None, f"{what}: no legend in the axes")
        got = [t.get_text() for t in leg.get_texts()]
        want = (["total cost"] + list(labels))[: curve.shape[1] - 1]
        check(got == want, f"{what}: labels", got=got, expected=want)
        # the label is that of the line
        handles = leg.legend_handles if hasattr(leg, "legend_handles") else leg.legendHandles
        for j, hd in enumerate(handles):
            mine = [l for l in ax.get_lines() if is_line(np.column_stack(l.get_data()), curve[:, 0], curve[:, j + 1], 1e-12)]
            check(any(l.get_color() == hd.get_color() for l in mine), f"{what}: label '{got[j]}' is not at the line of this cost")
    update_lines_ok(ax, curve[:, 0], what)


def exploration_ok(ax, s, what):
    k, N = int(s.ask("n_samples_per_update")), s.get_n_updates()
    y = np.sqrt([np.max(np.linalg.eigvalsh(s.ask("distribution", i).covar)) for i in range(N)])
    x = k * np.arange(N)
    check(any(M.shape[0] == N and is_line(M, x, y, 1e-6) for M in xy(ax)), f"{what}: exploration is not shown", got=xy(ax)[:1], expected=y)
    update_lines_ok(ax, x, what)


def rollouts_ok(ax, s, most, what):
    N = s.get_n_updates()
    all_ = [np.asarray(s.ask("cost_vars", i, "eval"), dtype=float) for i in range(N)]
    T = all_[0].shape[0]
    lines = [M for M in xy(ax)]

    def shown(i):
        return all(any(is_line(M, np.arange(T), y) for M in lines) for y in all_[i].T)

    check(shown(0), f"{what}: rollout of the first update is not shown")
    count = sum(shown(i) for i in range(N))
    check(count >= (N if N <= most else min(most, N) - 1), f"{what}: rollouts are not shown", got=count, updates=N)
    for M in lines:
        check(any(is_line(M, np.arange(T), y) for A in all_ for y in A.T), f"{what}: something else is shown")


def run_sessions(case, ctx):
    from dmpbbo.bbo.LearningSession import LearningSession
    from dmpbbo.bbo.run_optimization import run_optimization
    from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
    from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task
    from vf import bbo

    c = case["u"]
    n, N, k = c["n"], case["n_updates"], case["n_samples"]
    rng = np.random.default_rng(case["seed"])
    np.random.seed(case["seed"] % 2**32)
    dist = make_distribution(c, rng)
    target = rng.normal(size=n) * 3 * c["scale"]
    kind = case["kind"]
    comps = 0 if case["fmt"] == "one" else n + (kind == "task")
    labels = [f"cost {j}" for j in range(comps)] if case["labels"] else None
    top = tempfile.mkdtemp(dir=ctx.scratch)
    d = os.path.join(top, "s") if case["disk"] else None
    ctx.label(kind, "disk" if d else "memory", f"{min(n, 3)} dimensions", "many updates" if N > 20 else "few updates")
    try:
        if kind == "task":
            task = bbo.RecordingTask(target, case["gains"], case["fmt"], labels, 0.1)
            s = run_optimization_task(task, bbo.RecordingSolver(case["T"]), dist, make_updater(c), N, k, d)
            cls = LearningSessionTask
        else:
            cost = bbo.RecordingCost(target, case["gains"], case["fmt"], labels)
            s = run_optimization(cost, dist, make_updater(c), N, k, d)
            cls = LearningSession
            if kind == "none":  # without cost function, evaluations, or both
                t = LearningSession(k, os.path.join(top, "t") if d else None)
                for i in range(N):
                    if case["labels"]:
                        t.add_eval(i, s.ask("eval_sample", i), s.ask("eval_cost", i))
                    t.add_update(i, *[s.ask(q, i) for q in ("distribution", "samples", "costs", "weights", "distribution_new")])
                s, labels = t, []
                d = os.path.join(top, "t") if d else None
        sessions = [s] + ([cls.from_dir(d)] if d else [])
        for q in sessions:
            inspect_plots(q, case, labels, ctx)
    finally:
        del bbo.CALLS[:]
        shutil.rmtree(top, ignore_errors=True)


def inspect_plots(q, case, labels, ctx):
    N, n, task = q.get_n_updates(), q.ask("distribution", 0).mean.size, q.exists("task")

    def contents():
        out = [np.array(q.get_learning_curve()[0], dtype=float)]
        for i in range(N):
            for x in ("distribution", "distribution_new"):
                out += [q.ask(x, i).mean, q.ask(x, i).covar]
            out += [q.ask("samples", i), np.array(q.ask("weights", i))]
        return out, q.get_learning_curve()[1]

    before = contents()
    with plotting() as plt:
        for what in ("learning", "exploration", "distributions", "update", "rollouts", "rollouts of an update", "all"):
            plt.close("all")
            ax, other = None, None
            if case["own_axes"]:
                ax = new_axes(plt, 1)[0]
                other = elsewhere(plt)
            if what == "learning":
                h, a = q.plot_learning_curve(ax) if ax else q.plot_learning_curve()
                learning_ok(a, q, labels, "learning curve")
            elif what == "exploration":
                h, a = q.plot_exploration_curve(ax) if ax else q.plot_exploration_curve()
                exploration_ok(a, q, "exploration curve")
            elif what == "distributions":
                h, a = q.plot_distribution_updates(ax) if ax else q.plot_distribution_updates()
                if n >= 2:
                    distributions_ok(a, q, range(N), "distribution updates")
            elif what == "update":
                if n < 2:
                    continue
                i = case["which"] % N
                h, a = q.plot_distribution_update(i, ax, plot_samples=case["samples"])
                distributions_ok(a, q, [i], "distribution update")
                if case["samples"]:
                    X = q.ask("samples", i)[:, :2]
                    check(any(M.shape == X.shape and np.allclose(M, X, rtol=1e-12, atol=0) for M in xy(a)), "samples of the update are not shown")
            elif what == "rollouts":
                if not task:
                    continue
                h, a = q.plot_rollouts(ax, case["max_updates"]) if case["max_updates"] else q.plot_rollouts(ax)
                rollouts_ok(a, q, case["max_updates"] or 20, "rollouts")
            elif what == "rollouts of an update":
                if not task:
                    continue
                i = case["which"] % N
                k = int(q.ask("n_samples_per_update"))
                kw = {"ax": ax} if ax else {}
                if case["samples"]:
                    kw["plot_samples"] = True
                h, a = q.plot_rollouts_update(i, **kw)
                want = [np.asarray(q.ask("cost_vars", i, j), dtype=float) for j in ["eval"] * q.exists("cost_vars", i, "eval") + list(range(k)) * case["samples"]]
                lines = xy(a)
                for A in want:
                    check(all(any(is_line(M, np.arange(A.shape[0]), y) for M in lines) for y in A.T), "rollouts of an update: a rollout is not shown")
                for M in lines:
                    check(any(is_line(M, np.arange(A.shape[0]), y) for A in want for y in A.T), "rollouts of an update: something else is shown")
            else:
                fig = ax.figure if ax else None
                if fig:
                    fig.clf()
                got = q.plot(fig) if fig else q.plot()
                check(not fig or got is fig, "plot of a session: the figure is not returned")
                axs = got.axes
                check(len(axs) == (4 if task else 3), "plot of a session: axes", got=len(axs))
                if n >= 2:
                    distributions_ok(axs[0], q, range(N), "plot of a session")
                if task:
                    rollouts_ok(axs[1], q, 20, "plot of a session")
                exploration_ok(axs[-2], q, "plot of a session")
                learning_ok(axs[-1], q, labels, "plot of a session")
                a = None
            if other:
                untouched(other)
                check(a is None or a is ax or what == "all", f"{what}: the axes are not returned")
        after = contents()
        check(after[1] == before[1], "plotting changes the labels of the costs", got=after[1], expected=before[1])
        for x, y in zip(after[0], before[0]):
            same(x, y, "plotting changes the session")
        ctx.nt(N >= 2)


SUBS = [
    Sub("trajectories", traj_cases, run_trajectories, quick=150, thorough=4000),
    Sub("systems", system_cases, run_systems, quick=150, thorough=4000),
    Sub("dmps", dmp_cases, run_dmps, quick=240, thorough=6000, shards=2),
    Sub("contextual", contextual_cases, run_contextual, quick=60, thorough=1500, shards=2),
    Sub("approximators", fa_cases, run_approximators, quick=240, thorough=6000, shards=1),
    Sub("sessions", session_cases, run_sessions, quick=120, thorough=3000, shards=2),
]
