"""C25: DMP rollouts depend only on the sample; stepwise runs equal direct runs."""
import contextlib
import copy
import itertools
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf.checks.c21 import cases as updater_cases, make_updater
from vf.core import Sub, check, close, same
from vf.demos import demo_spec, demo_traj
from vf.dmps import TYPES, build_dmp, build_fa, dmp_spec, fa_spec, movement_scale
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import arr

RULE = (
    "A case is a DMP with selected parameters, a time step and a sequence of samples (rollouts), or a trained DMP, a task, an updater and "
    "1-3 updates done directly and step by step with reloads in between. Non-trivial: different samples, one of which is repeated later "
    "(rollouts); at least two samples per update and a reload between two steps (steps)"
)
ASSUMPTIONS = ["tasks and task solvers are deterministic, and the random number generator continues when a session is reloaded"]


@st.composite
def selections(draw, spec):
    kinds = {f["kind"] for f in spec["fas"]}
    names = ["goal", "centers"]
    names += {"RBFN": ["weights"], "LWR": ["offsets", "slopes"], "LWRRBFN": []}["".join(sorted(kinds))]
    sel = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True))
    return sel


@st.composite
def rollout_cases(draw):
    s = draw(dmp_spec(fas="yes", amp=100.0))
    return {
        "dmp": s, "sel": draw(selections(s)), "steps": draw(st.integers(4, 60)), "rest": draw(st.sampled_from([0.3, 0.7])),
        "factor": draw(st.one_of(st.just(1.0), real(0.5, 2.0))), "frame": draw(st.booleans()),
        "seeds": draw(st.lists(st.integers(0, 3), min_size=2, max_size=5)), "seed": draw(seeds()),
        "dmp_changed": draw(st.booleans()), "copy": draw(st.booleans()),
    }


def run_rollouts(case, ctx):
    from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp

    s = case["dmp"]
    tau = s["tau"]
    dmp = build_dmp(s)
    dmp.set_selected_param_names(case["sel"])
    v0 = dmp.get_param_vector().copy()
    T = tau * case["factor"]
    dt = T / (case["steps"] + case["rest"])
    solver = TaskSolverDmp(dmp, dt, case["factor"], case["frame"])
    if case["copy"]:
        solver = copy.deepcopy(solver)
    if case["dmp_changed"]:  # the DMP that was passed may be used for other things later
        dmp.tau = tau * 2
        dmp.y_attr = dmp.y_attr + 1.0
        ctx.label("original DMP changed later")
    ts = np.linspace(0.0, T, case["steps"] + 1)
    D = len(s["y_init"])
    earlier = {}
    for k in case["seeds"]:
        sample = v0 if k == 0 else v0 + np.random.default_rng([case["seed"], k]).normal(size=v0.size) * (0.1 + 0.05 * np.abs(v0))
        given = sample.copy()
        out = solver.perform_rollout(given)
        same(given, sample, "the sample was changed by the rollout")
        if case["frame"]:
            check(type(out).__name__ == "DataFrame", "a data frame was requested", got=type(out))
        M = np.array(out, dtype=float)
        fresh = build_dmp(s)
        fresh.set_selected_param_names(case["sel"])
        fresh.set_param_vector(sample)
        xs, xds, _, _ = fresh.analytical_solution(ts)
        traj = fresh.states_as_trajectory(ts, xs, xds)
        ref = np.column_stack((ts, traj.ys, traj.yds, traj.ydds))
        check(M.shape == ref.shape, "size of the rollout", got=M.shape, expected=ref.shape)
        sc = np.max(np.abs(ref), axis=0) + 1e-12
        close(M[:, 0], ts, "times of the rollout", rtol=1e-12)
        close(M, ref, f"rollout of sample {k} is not the movement of the DMP with these parameters", rtol=1e-8, atol=0, scale=sc)
        if k in earlier:
            close(M, earlier[k], "rollout depends on earlier rollouts", rtol=1e-12, atol=0, scale=sc)
            ctx.nt(len(set(case["seeds"])) > 1)
        earlier[k] = M.copy()
        # what was returned belongs to the caller
        if case["frame"]:
            out.iloc[:, :] = 0.0
        else:
            out[:] = 0.0
        given += 1.0
    ctx.label(s["type"], *case["sel"])


@st.composite
def step_cases(draw):
    n = draw(st.integers(1, 2))
    t = draw(st.sampled_from(TYPES))
    fas = [draw(fa_spec(max_bfs=5, amp=1.0, big=5)) for _ in range(n)]
    return {
        "demo": draw(demo_spec(n=n, n_min=25, n_max=40)), "type": t, "fas": fas, "sel": draw(selections({"fas": fas})),
        "u": draw(updater_cases()), "seed": draw(seeds()), "n_updates": draw(size(1, 4, 11, 12)), "n_samples": draw(size(1, 5, 13, 15)),
        "fmt": draw(st.sampled_from(["one", "list", "array"])), "traj": draw(st.booleans()), "steps": draw(st.integers(8, 25)),
        "reloads": draw(st.lists(st.booleans(), min_size=12, max_size=12)), "external": draw(st.booleans()), "frame": draw(st.booleans()),
        "spread": draw(log_real(0.01, 0.3)), "rollout_by": draw(st.sampled_from(["dmp", "dmp", "sample"])),
    }


def comparable_updates(session, n_updates):
    """Number of updates up to which samples are determined by the distribution up to rounding errors.

    Samples are drawn along the eigenvectors of the covariance matrix: if its (non-zero) eigenvalues coincide, other
    eigenvectors, and thus other samples, may be the result of rounding errors.
    """
    for i in range(1, n_updates):
        e = np.linalg.eigvalsh(session.ask("distribution", i).covar)[::-1]
        e = np.append(e[e > 1e-9 * e[0]] / e[0], 0.0)
        if e.size == 1 or np.min(-np.diff(e)[: e.size - 2], initial=1.0) < 1e-3:
            return i
    return n_updates


def compare_sessions(a, b, n, what, tol):
    """Two sessions hold the same updates."""
    for i in range(n):
        close(a.ask("samples", i), b.ask("samples", i), f"{what}: samples of update {i}", rtol=tol, atol=0)
        for d in ("distribution", "distribution_new"):
            p, q = a.ask(d, i), b.ask(d, i)
            close(p.mean, q.mean, f"{what}: {d} of update {i}: mean", rtol=tol, atol=0)
            close(p.covar, q.covar, f"{what}: {d} of update {i}: covariance", rtol=tol * 10, atol=0)
        close(a.ask("weights", i), b.ask("weights", i), f"{what}: weights of update {i}", rtol=tol * 100)


def run_steps(case, ctx):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
    from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task
    from dmpbbo.bbo_of_dmps.step_by_step_optimization import prepare_optimization, update_step
    from dmpbbo.bbo_of_dmps.TaskSolverDmp import TaskSolverDmp
    from dmpbbo.dmps.Dmp import Dmp
    from vf import bbo

    traj = demo_traj(case["demo"])
    D = traj.dim
    dmp = Dmp.from_traj(traj, [build_fa(f) for f in case["fas"]], dmp_type=case["type"])
    dmp.set_selected_param_names(case["sel"])
    v0 = dmp.get_param_vector().copy()
    n = v0.size
    rng = np.random.default_rng(case["seed"])
    sd = case["spread"] * (0.1 + np.abs(v0))
    dist = lambda: DistributionGaussian(v0.copy(), np.diag(sd**2))  # noqa
    N, k = case["n_updates"], case["n_samples"]
    T = traj.ts[-1] * 1.2
    make_solver = lambda: TaskSolverDmp(dmp, T / (case["steps"] + 0.5), 1.2, case["frame"])  # noqa
    target = rng.normal(size=1 + 3 * D)
    make_task = lambda: bbo.RecordingTask(target, np.abs(target) + 0.1, case["fmt"], None, 0.01)  # noqa
    upd_spec = dict(case["u"])
    upd_spec["n"] = n
    for q in ("min", "max"):  # limits are for another number of dimensions
        if isinstance(upd_spec.get(q), dict):
            upd_spec[q] = float(min(upd_spec[q]["v"]) if q == "min" else max(upd_spec[q]["v"]))
    seed = case["seed"] % 2**32
    ctx.nt(k >= 2 and any(case["reloads"]))
    ctx.label(case["type"], "1-D search space" if n == 1 else "n-D search space", "1 sample" if k == 1 else "several samples", *case["sel"])
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        np.random.seed(seed)
        direct = run_optimization_task(make_task(), make_solver(), dist(), make_updater(upd_spec), N, k)

        def stepwise(directory, reloads):
            np.random.seed(seed)
            it = itertools.cycle(reloads)
            s = prepare_optimization(directory, make_task(), make_solver(), dist(), k, make_updater(upd_spec), dmp, case["traj"])
            for i in range(N):
                if next(it):
                    s = LearningSessionTask.from_dir(directory)
                for j in list(range(k)) + ["eval"]:
                    if next(it) and j == k // 2:
                        s = LearningSessionTask.from_dir(directory)
                        ctx.label("reload between rollouts")
                    solver = s.ask("task_solver")
                    d = s.ask("dmp", i, j)
                    ref = s.ask("distribution", i).mean if j == "eval" else s.ask("samples", i)[j]
                    close(d.get_param_vector(), ref, f"parameters of the DMP for rollout {j} of update {i}", rtol=1e-12, atol=0)
                    if case["rollout_by"] == "dmp":
                        cost_vars = solver.perform_rollout_dmp(d)
                    else:
                        cost_vars = solver.perform_rollout(ref)
                    if case["traj"]:
                        tm = s.ask("traj", i, j)
                        xs, xds, _, _ = d.analytical_solution(traj.ts)
                        tr = d.states_as_trajectory(traj.ts, xs, xds)
                        close(tm, np.column_stack((traj.ts, tr.ys, tr.yds, tr.ydds)), "saved trajectory of a sample", rtol=1e-9)
                    if case["external"] and not case["frame"]:
                        # written by another program, e.g. on a robot
                        np.savetxt(os.path.join(directory, f"update{i:05d}", ("eval" if j == "eval" else "%03d" % j) + "_cost_vars.txt"), cost_vars)
                    else:
                        s.tell(cost_vars, "cost_vars", i, j)
                if next(it):
                    s = LearningSessionTask.from_dir(directory)
                    ctx.label("reload before an update")
                check(s.get_n_updates() == i, "number of updates before the update", got=s.get_n_updates(), expected=i)
                with contextlib.redirect_stdout(None):
                    update_step(s, i, case["traj"])
                check(s.get_n_updates() == i + 1, "number of updates after the update", got=s.get_n_updates(), expected=i + 1)
            return s

        d1, d2 = os.path.join(top, "interrupted"), os.path.join(top, "uninterrupted")
        with contextlib.redirect_stdout(None):
            s1 = stepwise(d1, case["reloads"])
            s2 = stepwise(d2, [False])
        s1 = LearningSessionTask.from_dir(d1)
        tol = 1e-7  # covariances may be singular: square roots of rounding errors show up in the samples
        n_cmp = comparable_updates(direct, N)
        ctx.label("all updates compared" if n_cmp == N else "updates compared until eigenvalues coincide")
        compare_sessions(s1, s2, n_cmp, "interrupted and uninterrupted", tol)
        compare_sessions(s1, direct, n_cmp, "step by step and direct", tol)
        compare_sessions(s2, direct, n_cmp, "step by step (without reloads) and direct", tol)
        task, solver = make_task(), make_solver()
        # the source code of the task is saved, too
        space = dict(vars(bbo))
        space.pop("RecordingTask")
        with open(os.path.join(d1, "task.py")) as f:
            exec(f.read(), space)
        saved = space["RecordingTask"](task.target, task.gains, task.fmt, None, 0.01)
        cv = solver.perform_rollout(v0)
        same(saved.evaluate_rollout(cv, v0), task.evaluate_rollout(cv, v0), "costs of the task whose source code was saved")
        for i in range(n_cmp):
            X = direct.ask("samples", i)
            for j in list(range(k)) + ["eval"]:
                x = direct.ask("distribution", i).mean if j == "eval" else X[j]
                cv = np.array(solver.perform_rollout(x), dtype=float)
                c = np.atleast_1d(bbo.cost_in_format(task.expected(cv, x), case["fmt"]))
                sc = np.max(np.abs(cv), axis=0) + 1e-9
                for q, name in ((direct, "direct"), (s1, "step by step"), (s2, "step by step without reloads")):
                    got = np.array(q.ask("cost_vars", i, j), dtype=float)
                    close(got, cv, f"{name}: rollout {j} of update {i}", rtol=tol, atol=0, scale=sc)
                    cost = np.atleast_1d(q.ask("cost" if q is direct else "costs", i, j))
                    close(cost, c, f"{name}: cost {j} of update {i}", rtol=tol * 10)
        # all updates of the steps follow from what is stored, also those that cannot be compared with the direct run
        for i in range(N):
            old, new = s1.ask("distribution", i), s1.ask("distribution_new", i)
            costs = [float(np.atleast_1d(s1.ask("costs", i, j))[0]) for j in range(k)]
            want, w = make_updater(upd_spec).update_distribution(old, np.atleast_2d(s1.ask("samples", i)), costs)
            close(new.mean, want.mean, f"step by step: mean after update {i}", rtol=1e-9)
            close(new.covar, want.covar, f"step by step: covariance after update {i}", rtol=1e-9)
            close(s1.ask("weights", i), w, f"step by step: weights of update {i}", rtol=1e-9)
            close(np.array(s1.get_sample_costs(i)).reshape(k, -1)[:, 0], costs, f"step by step: costs of the samples of update {i}", rtol=1e-12)
            nxt = s1.ask("distribution", i + 1)
            close(nxt.mean, new.mean, f"step by step: mean before update {i + 1}", rtol=1e-12, atol=0)
            close(nxt.covar, new.covar, f"step by step: covariance before update {i + 1}", rtol=1e-12, atol=0)
        # the learning curve of the steps: costs of the evaluations, as in the direct run
        curve, direct_curve = s1.get_learning_curve()[0], direct.get_learning_curve()[0]
        check(len(curve) == N, "rows of the learning curve", got=len(curve))
        for i in range(N):
            want = np.concatenate(([i * k], np.atleast_1d(s1.ask("costs", i, "eval"))))
            close(curve[i], want, "learning curve of the steps", rtol=1e-9)
            if i < n_cmp:
                close(curve[i], direct_curve[i], "learning curve step by step and direct", rtol=tol * 10)
        # the same files
        files = [sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs) for d in (d1, d2)]
        check(files[0] == files[1], "interrupted and uninterrupted runs have different files", diff=set(files[0]) ^ set(files[1]))
        same(dmp.get_param_vector(), v0, "parameters of the initial DMP were changed")
    finally:
        del bbo.CALLS[:]
        shutil.rmtree(top, ignore_errors=True)


SUBS = [
    Sub("rollouts", rollout_cases, run_rollouts, quick=1200, thorough=40000, shards=4),
    Sub("steps", step_cases, run_steps, quick=240, thorough=6000, shards=8),
]
