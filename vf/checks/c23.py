"""C23: an optimization run records exactly what it evaluated and improves."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf.checks.c21 import cases as updater_cases, make_updater, random_covar
from vf.core import Sub, check, close, same
from vf.gen import log_real, real, seeds, size, vec

RULE = (
    "A case is a cost function or task (1-6 dimensions; scalar, single or several cost components), an initial distribution, an updater with "
    "its settings, 0-6 updates of 1-30 samples, with or without a directory; the session is inspected in memory and reloaded from disk. "
    "Non-trivial: at least two updates with at least two samples (records); every case (improves)"
)
ASSUMPTIONS = ["cost functions are deterministic", "improvement: convex quadratic costs with a condition number up to 4, initial mean 3 standard deviations away, 12 samples per dimension"]


@st.composite
def cases(draw):
    c = draw(updater_cases())
    return {
        "u": c, "seed": draw(seeds()), "n_updates": draw(size(0, 6, 13)), "n_samples": draw(size(1, 30, 120)),
        "fmt": draw(st.sampled_from(["scalar", "one", "list", "array", "array"])), "labels": draw(st.booleans()),
        "disk": draw(st.booleans()), "task": draw(st.booleans()), "gains": draw(vec(log_real(0.1, 10.0), c["n"])),
        "T": draw(st.integers(2, 6)), "plot": draw(st.integers(0, 9)) == 0, "twice": draw(st.booleans()),
    }


def sorted_rows(rows):
    M = np.array(rows)
    return M[np.lexsort(M.T[::-1])] if len(M) else M


def make_distribution(c, rng):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded

    n = c["n"]
    mean, covar = rng.normal(size=n) * c["scale"], random_covar(rng, n, c["scale"]) + 1e-3 * c["scale"] ** 2 * np.eye(n)
    if c["bounded"]:
        return DistributionGaussianBounded(mean, covar, np.full(n, -1e9), np.full(n, 1e9))
    return DistributionGaussian(mean, covar)


def inspect(s, case, first, problem, tol):
    """Check everything that is in the session. Returns the distributions."""
    from dmpbbo.bbo.LearningSession import LearningSession  # noqa

    c = case["u"]
    N, k, n = case["n_updates"], case["n_samples"], c["n"]
    check(s.get_n_updates() == N, "number of updates of the session", got=s.get_n_updates(), expected=N)
    check(int(s.ask("n_samples_per_update")) == k, "n_samples_per_update")
    total = lambda x: np.atleast_1d(np.asarray(x, dtype=float))[0]  # noqa
    prev = first
    curve_ref, rollouts = [], []
    for i in range(N):
        d = s.ask("distribution", i)
        close(d.mean, prev.mean, f"distribution of update {i}: mean", rtol=tol, atol=0)
        close(d.covar, prev.covar, f"distribution of update {i}: covariance", rtol=tol, atol=0)
        check(type(d) is type(first), "type of the distribution")
        X = s.ask("samples", i)
        check(X.shape == (k, n), f"samples of update {i}: shape", got=X.shape)
        rollouts.append(X)
        z = np.abs(X - d.mean) / np.sqrt(np.diag(d.covar) + 1e-12 * np.max(np.abs(X)) ** 2 + 1e-30)
        check(np.max(z) < 8, f"samples of update {i} are not from its distribution", z=z)
        costs = s.ask("costs", i)
        ref = [problem(x) for x in X]
        close(np.array([np.atleast_1d(x) for x in costs], dtype=float).reshape(k, -1), np.array([np.atleast_1d(r) for r in ref]), f"costs of update {i}", rtol=1e-10, atol=1e-300)
        close(np.array(s.get_sample_costs(i)).reshape(k, -1), np.array([np.atleast_1d(r) for r in ref]), f"get_sample_costs({i})", rtol=1e-10, atol=1e-300)
        w = s.ask("weights", i)
        new, w_ref = make_updater(c).update_distribution(d, X.copy(), costs)
        close(w, w_ref, f"weights of update {i}", rtol=1e-9)
        dn = s.ask("distribution_new", i)
        close(dn.mean, new.mean, f"distribution after update {i} is not the result of the updater: mean", rtol=1e-9, atol=0, scale=np.max(np.abs(X)))
        close(dn.covar, new.covar, f"distribution after update {i} is not the result of the updater: covariance", rtol=1e-8, atol=0,
              scale=max(np.max(np.abs(new.covar)), np.max(np.abs(X - d.mean)) ** 2, 1e-300))
        e = s.ask("eval_sample", i)
        close(e, d.mean, f"sample for the evaluation of update {i}", rtol=tol, atol=0)
        ec = np.atleast_1d(s.ask("eval_cost", i))
        ec_ref = np.atleast_1d(problem(d.mean))
        close(ec, ec_ref, f"cost of the evaluation of update {i}", rtol=1e-10, atol=1e-300)
        curve_ref.append(np.concatenate(([i * k], ec_ref)))
        ce, at = s.get_eval_costs(i)
        close(np.atleast_1d(ce), ec_ref, f"get_eval_costs({i})", rtol=1e-10, atol=1e-300)
        check(at == i * k, f"number of samples before update {i}", got=at, expected=i * k)
        prev = dn
    curve, labels = s.get_learning_curve()
    check(len(curve) == N, "number of rows of the learning curve", got=len(curve), expected=N)
    if N:
        close(np.array(curve), np.array(curve_ref), "learning curve", rtol=1e-10, atol=1e-300)
        before, after = s.get_eval_cost_before_after()
        close(np.atleast_1d(before), curve_ref[0][1:], "cost before the optimization", rtol=1e-10, atol=1e-300)
        close(np.atleast_1d(after), curve_ref[-1][1:], "cost after the optimization", rtol=1e-10, atol=1e-300)
        if case["fmt"] != "scalar" and curve_ref[0][1] > 1e-200:
            close(s.get_cost_ratio(), curve_ref[-1][1] / curve_ref[0][1], "cost ratio", rtol=1e-9)
    check(labels == (LABELS if case["labels"] else None), "cost labels", got=labels)
    return rollouts, curve_ref


LABELS = ["first", "second"]


def plots(s, case, curve_ref):
    import matplotlib.pyplot as plt

    try:
        ax = plt.figure().add_subplot()
        s_labels = s.get_learning_curve()[1]
        lines, _ = s.plot_learning_curve(ax)
        close(np.array(lines[0].get_xydata()), np.array(curve_ref)[:, :2], "plotted learning curve", rtol=1e-9)
        check(s.get_learning_curve()[1] == s_labels, "plotting changes the cost labels")
        line, _ = s.plot_exploration_curve(plt.figure().add_subplot())
        N = case["n_updates"]
        ref = [[i * case["n_samples"], np.sqrt(np.max(np.linalg.eigvalsh(s.ask("distribution", i).covar)))] for i in range(N)]
        close(np.array(line[0].get_xydata()), ref, "plotted exploration", rtol=1e-6)
    finally:
        plt.close("all")


def run(case, ctx):
    from dmpbbo.bbo.LearningSession import LearningSession
    from dmpbbo.bbo.run_optimization import run_optimization
    from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
    from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task
    from vf import bbo

    c = case["u"]
    n, N, k = c["n"], case["n_updates"], case["n_samples"]
    rng = np.random.default_rng(case["seed"])
    np.random.seed(case["seed"] % 2**32)
    dist = make_distribution(c, rng)
    m0, C0 = dist.mean.copy(), dist.covar.copy()
    first = make_distribution(c, np.random.default_rng(case["seed"]))
    target = rng.normal(size=n) * 3 * c["scale"]
    labels = LABELS if case["labels"] else None
    top = tempfile.mkdtemp(dir=ctx.scratch)
    d = os.path.join(top, "a", "b") if case["disk"] else None
    ctx.label("task" if case["task"] else "cost function", case["fmt"], "disk" if d else "memory", c["updater"])
    ctx.nt(N >= 2 and k >= 2)
    try:
        if case["task"]:
            task = bbo.RecordingTask(target, case["gains"], case["fmt"], labels, 0.1)
            solver = bbo.RecordingSolver(case["T"])
            problem = lambda x: bbo.cost_in_format(task.expected(solver.rollout(x), x), case["fmt"])  # noqa
        else:
            cost = bbo.RecordingCost(target, case["gains"], case["fmt"], labels)
            problem = lambda x: bbo.cost_in_format(bbo.quadratic(x, target, cost.gains), case["fmt"])  # noqa
        updater = make_updater(c)
        for run_no in range(2 if case["twice"] and not d else 1):  # also with an updater and problem that were used before
            del bbo.CALLS[:]
            if case["task"]:
                s = run_optimization_task(task, solver, dist, updater, N, k, d)
            else:
                s = run_optimization(cost, dist, updater, N, k, d)
            calls = list(bbo.CALLS)
            del bbo.CALLS[:]
            same(dist.mean, m0, "the initial distribution was changed (mean)")
            same(dist.covar, C0, "the initial distribution was changed (covariance)")
            rollouts, curve = inspect(s, case, first, problem, 1e-12)
        # exactly the samples and the means were evaluated
        want = [x for X in rollouts for x in X] + [s.ask("distribution", i).mean for i in range(N)]
        for what in ("rollout", "evaluate") if case["task"] else ("evaluate",):
            got = [x[-1] for x in calls if x[0] == what]
            check(len(got) == N * (k + 1), f"number of calls of {what}", got=len(got), expected=N * (k + 1))
            if N:
                same(sorted_rows(got), sorted_rows(want), f"the parameters for {what} are not the samples and means")
        sessions = [s]
        if d:
            cls = LearningSessionTask if case["task"] else LearningSession
            sessions.append(cls.from_dir(d))
            inspect(sessions[1], case, first, problem, 1e-12)
            # the source code of the cost function or task is saved, too
            kind = "RecordingTask" if case["task"] else "RecordingCost"
            space = dict(vars(bbo))
            space.pop(kind)
            name = "task.py" if case["task"] else "cost_function.py"
            check(os.path.isfile(os.path.join(d, name)), f"{name} was not saved")
            with open(os.path.join(d, name)) as f:
                exec(f.read(), space)
            x = first.mean
            if case["task"]:
                saved = space[kind](task.target, task.gains, task.fmt, None, task.regularization)
                same(saved.evaluate_rollout(solver.rollout(x), x), task.evaluate_rollout(solver.rollout(x), x), "costs of the task whose source code was saved")
            else:
                same(space[kind](cost.target, cost.gains, cost.fmt).evaluate(x), cost.evaluate(x), "costs of the cost function whose source code was saved")
            del bbo.CALLS[:]
        for q in sessions:
            if case["task"]:
                for i in range(N):
                    e = q.ask("eval_sample", i)
                    close(q.ask("eval_cost_vars", i), solver.rollout(e), "variables of the evaluation rollout", rtol=1e-12)
                    for j in range(k):
                        x = q.ask("sample", i, j)
                        close(x, rollouts[i][j], f"sample {j} of update {i}", rtol=1e-12)
                        cv = q.ask("cost_vars", i, j)
                        close(cv, solver.rollout(x), f"rollout {j} of update {i}", rtol=1e-12)
                        close(np.atleast_1d(q.ask("cost", i, j)), np.atleast_1d(problem(x)), f"cost {j} of update {i}", rtol=1e-10, atol=1e-300)
        if case["plot"] and N and case["fmt"] != "scalar":
            plots(sessions[-1], case, curve)
            ctx.label("plots")
    finally:
        shutil.rmtree(top, ignore_errors=True)


@st.composite
def mean_cases(draw):
    """Sessions without evaluations: the learning curve has the averages of the samples."""
    return {"n_updates": draw(size(1, 5, 13)), "n_samples": draw(size(1, 12, 110)), "n_costs": draw(size(1, 4, 8)), "seed": draw(seeds()),
            "scale": draw(log_real(1e-3, 1e3)), "disk": draw(st.booleans()), "per_sample": draw(st.lists(st.booleans(), min_size=5, max_size=5)),
            "as_list": draw(st.booleans()), "evals": draw(st.sampled_from([False, False, True])), "numpy_index": draw(st.booleans()), "reload": draw(st.booleans())}


def run_means(case, ctx):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo.LearningSession import LearningSession

    N, k, m = case["n_updates"], case["n_samples"], case["n_costs"]
    rng = np.random.default_rng(case["seed"])
    d = tempfile.mkdtemp(dir=ctx.scratch) if case["disk"] else None
    try:
        s = LearningSession(k, d)
        costs = case["scale"] * rng.normal(size=(N, k, m))
        evals = case["scale"] * rng.normal(size=(N, m))
        for i in range(N):
            check(s.get_n_updates() == i, "number of updates so far", got=s.get_n_updates(), expected=i)
            u = np.int64(i) if case["numpy_index"] else i
            if case["evals"]:
                s.add_eval(u, rng.normal(size=2), evals[i].copy())
            dist = DistributionGaussian(np.zeros(2), np.eye(2))
            c = [list(map(float, x)) for x in costs[i]] if case["as_list"] else costs[i].copy()
            if case["per_sample"][i % 5] and d:  # only directories: in memory, updates are counted by add_update
                # One item for each sample
                for j in range(k):
                    s.tell(c[j], "costs", u, j)
                s.tell(dist, "distribution", u)
                s.tell(np.ones(k) / k, "weights", u)
            else:
                s.add_update(u, dist, np.zeros((k, 2)), c, np.ones(k) / k)
        if case["disk"] and case["reload"]:
            s = LearningSession.from_dir(d)
        curve, _ = s.get_learning_curve()
        check(s.get_n_updates() == N and len(curve) == N, "number of updates", got=s.get_n_updates(), curve=len(curve))
        for i in range(N):
            close(s.get_sample_costs(i), costs[i], f"sample costs of update {i}", rtol=1e-12, atol=0)
            want = evals[i] if case["evals"] else costs[i].mean(axis=0)
            at = i * k if case["evals"] else (i + 0.5) * k
            ce, n = s.get_eval_costs(i)
            close(np.atleast_1d(ce), want, f"costs of update {i}", rtol=1e-12, atol=0, scale=case["scale"] * 4)
            close(n, at, f"number of samples of update {i}", rtol=1e-12)
            close(curve[i], np.concatenate(([at], want)), f"learning curve of update {i}", rtol=1e-12, atol=0, scale=np.concatenate(([at + 1], 4 * case["scale"] * np.ones(m))))
        before, after = s.get_eval_cost_before_after()
        close(np.atleast_1d(before), evals[0] if case["evals"] else costs[0].mean(axis=0), "cost before", rtol=1e-12, scale=4 * case["scale"], atol=0)
        close(np.atleast_1d(after), evals[-1] if case["evals"] else costs[-1].mean(axis=0), "cost after", rtol=1e-12, scale=4 * case["scale"], atol=0)
        ctx.label("evaluations" if case["evals"] else "averages", "disk" if d else "memory", f"{m} costs")
        ctx.nt(N >= 2 and k >= 2)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


@st.composite
def improve_cases(draw):
    n = draw(st.integers(1, 4))
    return {"n": n, "seed": draw(seeds()), "gains": draw(vec(real(0.5, 2.0), n)), "scale": draw(log_real(0.01, 100.0)),
            "method": draw(st.sampled_from(["PI-BB", "CEM", "CMA-ES"])), "updater": draw(st.sampled_from(["mean", "decay", "adapt"])),
            "task": draw(st.booleans()), "fmt": draw(st.sampled_from(["scalar", "list", "array"]))}


def run_improve(case, ctx):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo.run_optimization import run_optimization
    from dmpbbo.bbo.updaters import UpdaterCovarAdaptation, UpdaterCovarDecay, UpdaterMean
    from dmpbbo.bbo_of_dmps.run_optimization_task import run_optimization_task
    from vf import bbo

    n, sc = case["n"], case["scale"]
    rng = np.random.default_rng(case["seed"])
    np.random.seed(case["seed"] % 2**32)
    k = 12 * n
    kw = {"eliteness": 10 if case["method"] == "PI-BB" else max(2, k // 3), "weighting_method": case["method"]}
    upd = {
        "mean": lambda: UpdaterMean(**kw), "decay": lambda: UpdaterCovarDecay(covar_decay_factor=0.9, **kw),
        "adapt": lambda: UpdaterCovarAdaptation(diagonal_max=1.5 * sc, diagonal_min=0.1 * sc, learning_rate=0.5, **kw),
    }[case["updater"]]()
    mean = rng.normal(size=n) * sc
    u = rng.normal(size=n)
    target = mean + u / np.linalg.norm(u) * 3 * sc * np.sqrt(n)
    dist = DistributionGaussian(mean, np.eye(n) * sc**2)
    if case["task"]:
        # with two time steps the solver ends at the sample, and the average is half of it: y = sample
        s = run_optimization_task(bbo.RecordingTask(target, case["gains"], case["fmt"]), bbo.RecordingSolver(2), dist, upd, 15, k)
    else:
        s = run_optimization(bbo.RecordingCost(target, case["gains"], case["fmt"]), dist, upd, 15, k)
    del bbo.CALLS[:]
    curve = np.array(s.get_learning_curve()[0])[:, 1]
    ctx.nt()
    ctx.label(case["method"], case["updater"])
    check(np.mean(curve[-4:]) < 0.25 * curve[0], "the cost does not decrease on a convex cost function", curve=curve)


SUBS = [
    Sub("records", cases, run, quick=1200, thorough=30000, shards=5),
    Sub("averages", mean_cases, run_means, quick=600, thorough=20000, shards=2),
    Sub("improves", improve_cases, run_improve, quick=300, thorough=6000, shards=3),
]
