"""C22: samples follow the distribution and respect its bounds."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, raises, same
from vf.checks.c21 import random_covar
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import arr

RULE = (
    "A case is a distribution (1-6 dimensions, random positive definite covariance over many scales), bounds (none, one-sided, scalar or "
    "per dimension) and a number of samples; statistics of 4000 samples are compared with thresholds of more than 6 standard errors; "
    "non-trivial: correlated covariance (statistics), or bounds that cut off some but not all samples (bounds)"
)
ASSUMPTIONS = ["numpy's global random number generator is seeded per case, so that cases are reproducible", "lower bounds are not above upper bounds"]
N = 4000


@st.composite
def stat_cases(draw):
    n = draw(size(1, 6, 14))
    return {"n": n, "seed": draw(seeds()), "scale": draw(log_real(1e-3, 1e3)), "offset": draw(real(-100.0, 100.0)), "bounded": draw(st.booleans()),
            "n1": draw(st.integers(1, 5)), "scalar": draw(st.booleans()), "copy": draw(st.booleans())}


def run_stats(case, ctx):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded

    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    s = case["scale"]
    mean = rng.normal(size=n) * s + case["offset"] * s
    covar = random_covar(rng, n, s) + 0.05 * s**2 * np.eye(n)
    if n == 1 and case["scalar"]:
        mean, covar = float(mean[0]), float(covar[0, 0])
        ctx.label("scalar mean and covariance")
    np.random.seed(case["seed"] % 2**32)
    d = DistributionGaussianBounded(mean, covar) if case["bounded"] else DistributionGaussian(mean, covar)
    if case["copy"]:
        d = copy.deepcopy(d)
    mean, covar = np.atleast_1d(mean).astype(float), np.atleast_2d(covar)
    same(d.mean, mean, "mean of the distribution")
    same(d.covar, covar, "covariance of the distribution")
    one = d.generate_samples()
    check(one.shape == (1, n), "shape of a single sample", got=one.shape)
    few = d.generate_samples(case["n1"])
    check(few.shape == (case["n1"], n), "shape of the samples", got=few.shape)
    X = d.generate_samples(N)
    check(X.shape == (N, n), "shape of the samples", got=X.shape)
    same(d.mean, mean, "sampling changed the mean")
    same(d.covar, covar, "sampling changed the covariance")
    check(not np.array_equal(X[: case["n1"]], few), "samples are repeated in different calls")
    close(d.max_eigen_value(), np.max(np.linalg.eigvalsh(covar)), "max_eigen_value", rtol=1e-9, atol=0)
    # whitened samples must be independent standard normal
    L = np.linalg.cholesky(covar)
    Z = np.linalg.solve(L, (X - mean).T).T
    corr = covar / np.sqrt(np.outer(np.diag(covar), np.diag(covar)))
    ctx.nt(n > 1 and np.max(np.abs(corr - np.eye(n))) > 0.3)
    ctx.label(f"{n} dimensions")
    k = 7.0  # standard errors
    close(Z.mean(axis=0), np.zeros(n), "mean of the samples", atol=k / np.sqrt(N))
    C = Z.T @ Z / N
    off = C - np.diag(np.diag(C))
    close(off, np.zeros((n, n)), "correlation of the samples", atol=k / np.sqrt(N))
    close(np.diag(C), np.ones(n), "variance of the samples", atol=k * np.sqrt(2.0 / N))
    close((Z**3).mean(axis=0), np.zeros(n), "skewness of the samples", atol=k * np.sqrt(15.0 / N))
    close((Z**4).mean(axis=0), np.full(n, 3.0), "kurtosis of the samples", atol=k * np.sqrt(96.0 / N))
    close((Z[1:] * Z[:-1]).mean(axis=0), np.zeros(n), "successive samples are correlated", atol=k / np.sqrt(N - 1))
    for t, p in ((0.0, 0.5), (1.0, 0.15865525), (2.0, 0.02275013)):
        close((Z > t).mean(axis=0), np.full(n, p), f"fraction of samples above {t} standard deviations", atol=k * np.sqrt(p * (1 - p) / N))


@st.composite
def bound_cases(draw):
    n = draw(size(1, 5, 12))
    return {
        "n": n, "seed": draw(seeds()), "scale": draw(log_real(1e-2, 1e2)),
        "lower": draw(st.sampled_from(["none", "scalar", "array", "list"])),
        "upper": draw(st.sampled_from(["none", "scalar", "array", "list"])),
        "a": draw(vec(real(-2.5, 2.5), n)), "b": draw(vec(real(-2.5, 2.5), n)),
        "n_samples": draw(size(1, 40, 300)), "diag": draw(st.booleans()), "copy": draw(st.booleans()),
    }


def run_bounds(case, ctx):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded

    n, s = case["n"], case["scale"]
    rng = np.random.default_rng(case["seed"])
    mean = rng.normal(size=n) * s
    covar = np.diag(rng.uniform(0.3, 2.0, n)) * s**2 if case["diag"] else random_covar(rng, n, s)
    sd = np.sqrt(np.diag(covar))
    lo = np.minimum(arr(case["a"]), arr(case["b"])) * sd + mean
    hi = np.maximum(arr(case["a"]), arr(case["b"])) * sd + mean
    if case["lower"] == "scalar":
        lo = np.full(n, lo.min())
    if case["upper"] == "scalar":
        hi = np.full(n, hi.max())

    def arg(kind, v):
        return {"none": None, "scalar": float(v[0]), "array": v.copy(), "list": [float(x) for x in v]}[kind]

    d = DistributionGaussianBounded(mean, covar, arg(case["lower"], lo), arg(case["upper"], hi))
    if case["copy"]:
        d = copy.deepcopy(d)
    ctx.label(case["lower"] + "-" + case["upper"])
    free = DistributionGaussian(mean.copy(), covar.copy())
    k = case["n_samples"]
    seed = case["seed"] % 2**32
    np.random.seed(seed)
    X = d.generate_samples(k)
    check(X.shape == (k, n), "shape of the samples", got=X.shape)
    L = lo if case["lower"] != "none" else np.full(n, -np.inf)
    H = hi if case["upper"] != "none" else np.full(n, np.inf)
    check(np.all(X >= L) and np.all(X <= H), "a sample lies outside of the bounds", samples=X, lower=L, upper=H)
    np.random.seed(seed)
    U = free.generate_samples(k)
    np.random.seed(seed)
    if np.array_equal(U, free.generate_samples(k)):  # reproducible by seeding
        ctx.label("reproducible")
        inside = (U >= L) & (U <= H)
        close(X[inside], U[inside], "samples inside of the bounds were modified", rtol=1e-12, atol=0, scale=np.max(np.abs(U)))
        same(X, np.clip(U, L, H), "samples outside of the bounds are not set to the nearest bound")
        ctx.nt(np.any(inside) and not np.all(inside))
    else:
        ctx.nt()
    if case["lower"] != "none":
        same(np.broadcast_to(arr(d.lower_bound), (n,)), lo, "sampling changed the lower bound")
    if case["upper"] != "none":
        same(np.broadcast_to(arr(d.upper_bound), (n,)), hi, "sampling changed the upper bound")
    same(d.mean, mean, "sampling changed the mean")
    # copies are independent
    e = copy.deepcopy(d)
    e.mean += 1.0
    e.covar *= 2.0
    same(d.mean, mean, "changing a copy changes the mean")
    same(d.covar, covar, "changing a copy changes the covariance")


@st.composite
def bad_cases(draw):
    return {"m": draw(st.integers(1, 6)), "k": draw(st.integers(1, 6)), "bounded": draw(st.booleans())}


def run_bad(case, ctx):
    from dmpbbo.bbo.DistributionGaussian import DistributionGaussian
    from dmpbbo.bbo.DistributionGaussianBounded import DistributionGaussianBounded

    m, k = case["m"], case["k"]
    make = lambda: (DistributionGaussianBounded if case["bounded"] else DistributionGaussian)(np.zeros(m), np.eye(k))  # noqa
    ctx.nt(m != k)
    if m == k:
        make()
    else:
        raises(ValueError, make, "mean and covariance of different sizes")


SUBS = [
    Sub("statistics", stat_cases, run_stats, quick=400, thorough=8000, shards=2),
    Sub("bounds", bound_cases, run_bounds, quick=2000, thorough=60000, shards=2),
    Sub("rejects", bad_cases, run_bad, quick=100, thorough=500),
]
