"""C21: distribution updates are reward-weighted averages within limits."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.checks.c20 import formatted, ref_weights
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import arr

RULE = (
    "A case is a distribution (1-6 dimensions, bounded or not), an updater with its settings and a sequence of 1-5 updates with own "
    "samples and costs; non-trivial: covariance adaptation in which some limit is active or the learning rate is below 1, or a decay, with different costs"
)
ASSUMPTIONS = ["the minimum level is not above the maximum level"]


@st.composite
def levels(draw, n):
    k = draw(st.sampled_from(["none", "none", "scalar", "array", "list"]))
    if k == "none":
        return None
    if k == "scalar":
        return draw(log_real(0.05, 5.0))
    return {"kind": k, "v": draw(vec(log_real(0.05, 5.0), n))}


def level_arg(l):
    if isinstance(l, dict):
        return arr(l["v"]) if l["kind"] == "array" else list(l["v"])
    return l


def level_vec(l, n):
    return arr(l["v"]) if isinstance(l, dict) else np.full(n, l)


@st.composite
def cases(draw):
    n = draw(size(1, 6, 14))
    u = draw(st.sampled_from(["mean", "decay", "adapt", "adapt", "adapt"]))
    m = draw(st.sampled_from(["PI-BB", "CEM", "CMA-ES"]))
    c = {
        "n": n, "seed": draw(seeds()), "updater": u, "method": m,
        "elite": draw(st.integers(1, 20)), "defaults": draw(st.integers(0, 9)) == 0,
        "bounded": draw(st.booleans()), "scale": draw(log_real(0.01, 100.0)),
        "n_samples": draw(vec(size(1, 30, 200), draw(size(1, 5, 15)))),
        "format": draw(st.sampled_from(["vector", "list", "matrix", "list of arrays"])),
        "degenerate": draw(st.integers(0, 5)) == 0,
    }
    if u == "decay":
        c["decay"] = draw(real(0.05, 1.2))
    if u == "adapt":
        c["lr"] = draw(st.one_of(st.just(1.0), real(0.0, 1.0)))
        c["diag"] = draw(st.booleans())
        c["max"] = draw(levels(n))
        c["min"] = draw(levels(n))
        if c["max"] is not None and c["min"] is not None:
            lo = float(np.min(level_vec(c["max"], n)))
            f = lambda x: min(x, lo)  # noqa
            c["min"] = {"kind": c["min"]["kind"], "v": [f(x) for x in c["min"]["v"]]} if isinstance(c["min"], dict) else f(c["min"])
    return c


def make_updater(c):
    from dmpbbo.bbo.updaters import UpdaterCovarAdaptation, UpdaterCovarDecay, UpdaterMean

    kw = {} if c["defaults"] else {"eliteness": c["elite"], "weighting_method": c["method"]}
    if c["updater"] == "mean":
        return UpdaterMean(**kw)
    if c["updater"] == "decay":
        return UpdaterCovarDecay(covar_decay_factor=c["decay"], **kw)
    for k, name in (("max", "diagonal_max"), ("min", "diagonal_min")):
        if c[k] is not None:
            kw[name] = level_arg(c[k])
    if c["lr"] != 1.0:
        kw["learning_rate"] = c["lr"]
    if c["diag"]:
        kw["diag_only"] = True
    return UpdaterCovarAdaptation(**kw)


def random_covar(rng, n, scale):
    A = rng.normal(size=(n, n + 2))
    C = A @ A.T / n * scale**2
    return (C + C.T) / 2


def ref_update(c, mean, covar, X, costs):
    n = mean.size
    w = ref_weights(costs, "PI-BB", 10) if c["defaults"] else ref_weights(costs, c["method"], c["elite"])
    mean_new = w @ X
    hit = False
    if c["updater"] == "mean":
        C = covar.copy()
    elif c["updater"] == "decay":
        C = c["decay"] ** 2 * covar
        hit = True
    else:
        E = X - mean
        C = sum(w[i] * np.outer(E[i], E[i]) for i in range(len(w)))
        if c["diag"]:
            C = C * np.eye(n)
        C = (1 - c["lr"]) * covar + c["lr"] * C
        hit = c["lr"] < 1
        if c["max"] is not None:
            top = level_vec(c["max"], n) ** 2
            d = np.diag(C).copy()
            f = np.where(d > top, np.sqrt(top / np.where(d > 0, d, 1.0)), 1.0)
            hit = hit or bool(np.any(d > top))
            C = C * f[:, None] * f[None, :]  # limited without changing correlations
        if c["min"] is not None:
            low = level_vec(c["min"], n) ** 2
            d = np.diag(C).copy()
            hit = hit or bool(np.any(d < low))
            C = C - np.diag(d) + np.diag(np.maximum(d, low))
    return mean_new, C, w, hit


def snapshot(d):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(d).items()}


def run(case, ctx):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded

    c = case
    n = c["n"]
    rng = np.random.default_rng(c["seed"])
    mean, covar = rng.normal(size=n) * 3 * c["scale"], random_covar(rng, n, c["scale"])
    lb, ub = np.full(n, -1e9), np.full(n, 1e9)
    dist = DistributionGaussianBounded(mean, covar, lb, ub) if c["bounded"] else DistributionGaussian(mean, covar)
    upd = make_updater(c)
    ctx.label(c["updater"], "defaults" if c["defaults"] else c["method"])
    m, C = mean.copy(), covar.copy()
    for i, k in enumerate(c["n_samples"]):
        X = m + rng.normal(size=(k, n)) * np.sqrt(np.maximum(np.diag(C), 1e-12))
        if c["degenerate"]:
            X = m + rng.normal(size=(k, 1)) * np.ones((1, n))  # samples on a line: rank one
        costs = rng.permutation(np.arange(1, k + 1) * rng.uniform(0.5, 2) + rng.uniform(0, 0.4, k))
        data = formatted(costs, c["format"], extra_seed=i)
        data0 = copy.deepcopy(data)
        X0, before = X.copy(), snapshot(dist)
        new, w = upd.update_distribution(dist, X, data)
        # inputs unchanged
        same(X, X0, "samples were changed")
        check(all(np.array_equal(a, b) for a, b in zip(data, data0)), "costs were changed")
        for a, v in before.items():
            same(getattr(dist, a), v, f"the distribution that was passed was changed ({a})")
        rm, rC, rw, hit = ref_update(c, m, C, X, costs)
        ctx.nt(hit and k > 1)
        if hit:
            ctx.label("limit/decay/rate active")
        close(w, rw, "weights", rtol=1e-9)
        S = np.max(np.abs(X)) + np.max(np.abs(m))
        close(new.mean, rm, "mean is not the weighted average of the samples", rtol=1e-9, atol=0, scale=S)
        cs = max(np.max(np.abs(rC)), np.max(np.abs(X - m)) ** 2, 1e-300)
        close(new.covar, rC, f"covariance after update {i}", rtol=1e-8, atol=0, scale=cs)
        close(new.covar, new.covar.T, "covariance is not symmetric", rtol=1e-12, atol=0, scale=cs)
        ev = np.linalg.eigvalsh((new.covar + new.covar.T) / 2)
        check(ev[0] >= -1e-9 * cs, "covariance is not positive semi-definite", eigenvalues=ev, covar=new.covar)
        check(type(new) is type(dist), "type of the distribution", got=type(new))
        if c["bounded"]:
            same(new.lower_bound, lb, "lower bound of the distribution")
            same(new.upper_bound, ub, "upper bound of the distribution")
        # equivariance to the order of samples
        p = rng.permutation(k)
        new2, w2 = make_updater(c).update_distribution(dist, X[p], formatted(costs[p], c["format"], extra_seed=100 + i))
        close(new2.mean, new.mean, "mean depends on the order of samples, or on cost components", rtol=1e-9, atol=0, scale=S)
        close(new2.covar, new.covar, "covariance depends on the order of samples", rtol=1e-8, atol=0, scale=cs)
        close(w2, w[p], "weights depend on the order of samples", rtol=1e-9)
        # later changes of the result do not affect the old distribution
        keep = copy.deepcopy(new)
        new2.mean += 1.0
        new2.covar *= 2.0
        X += 1.0
        for a, v in before.items():
            same(getattr(dist, a), v, f"changing the result changes the distribution that was passed ({a})")
        same(new.mean, keep.mean, "the mean of the result aliases the samples")
        dist, m, C = new, new.mean.copy(), new.covar.copy()


@st.composite
def bad_cases(draw):
    return {"lr": draw(st.one_of(real(1.001, 5.0), real(-5.0, -0.001)))}


def run_bad(case, ctx):
    from dmpbbo.bbo.updaters import UpdaterCovarAdaptation
    from vf.core import raises

    ctx.nt()
    raises(ValueError, lambda: UpdaterCovarAdaptation(learning_rate=case["lr"]), "learning rate outside of [0,1]")


SUBS = [
    Sub("updates", cases, run, quick=2500, thorough=80000, shards=4),
    Sub("rejects", bad_cases, run_bad, quick=20, thorough=200),
]
