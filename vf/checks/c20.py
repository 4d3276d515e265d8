"""C20: costs map to normalized weights that favour low costs."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close
from vf.gen import real, seeds, size, vec
from vf.systems import arr

RULE = (
    "A case is a vector of costs (1-60 samples; arbitrary, integer-valued with ties, tiny ranges, huge magnitudes; as vector, list, "
    "matrix or list of lists with cost components), a method and an eliteness; non-trivial: at least two different costs"
)
ASSUMPTIONS = ["costs and their range are finite numbers; eliteness is >= 1 for rank-based methods and >= 0 for PI-BB"]


@st.composite
def costs_st(draw):
    n = draw(size(1, 60, 400, 20))
    kind = draw(st.sampled_from(["any", "ties", "distinct", "tiny range", "huge", "equal", "denormal", "log", "small", "ints", "ints"]))
    if kind == "any":
        c = draw(vec(real(-100.0, 100.0), n))
    elif kind == "ties":
        c = [float(x) for x in draw(vec(st.integers(-3, 3), n))]
    elif kind == "distinct":
        c = [float(x) / 8 for x in draw(st.lists(st.integers(-10000, 10000), min_size=n, max_size=n, unique=True))]
    elif kind == "tiny range":
        b = draw(real(-1000.0, 1000.0))
        c = [b + x * 1e-12 for x in draw(vec(st.integers(0, 100), n))]
    elif kind == "huge":
        c = draw(vec(st.floats(-1e150, 1e150), n))
    elif kind == "denormal":
        c = draw(vec(st.floats(0.0, 1e-300), n))
    elif kind == "small":
        u = 10.0 ** draw(st.integers(-200, -5))
        c = [x * u for x in draw(vec(real(-100.0, 100.0), n))]
    elif kind == "ints":  # of type int
        c = [float(x) for x in draw(vec(st.integers(-50, 50), n))]
    elif kind == "log":
        c = [10.0**x for x in draw(vec(real(-12.0, 12.0), n))]
    else:
        c = [draw(real(-1e6, 1e6))] * n
    return {"kind": kind, "c": c}


@st.composite
def cases(draw):
    m = draw(st.sampled_from(["PI-BB", "CEM", "CMA-ES"]))
    return {
        "costs": draw(costs_st()), "method": m,
        "elite": draw(size(1, 80, 500)) if m != "PI-BB" else draw(st.one_of(st.integers(0, 40), real(0.0, 40.0))),
        "format": draw(st.sampled_from(["vector", "list", "matrix", "column", "list of lists", "list of arrays"])),
        "ints": draw(st.booleans()), "perm": draw(seeds()), "shift": draw(st.integers(-1000, 1000)), "scale": draw(st.integers(-8, 8)),
    }


def formatted(c, fmt, extra_seed=0, ints=False):
    n = c.size
    rng = np.random.default_rng(extra_seed)
    comps = rng.normal(size=(n, 2)) * 10
    if ints and np.array_equal(c, np.round(c)) and np.max(np.abs(c)) < 1e9:
        c, comps = c.astype(int), np.round(comps).astype(int)
        if fmt in ("list", "list of lists"):
            c, comps = c.tolist(), comps.tolist()
            return list(c) if fmt == "list" else [[x, *y] for x, y in zip(c, comps)]
    if fmt == "vector":
        return c.copy()
    if fmt == "list":
        return [float(x) for x in c]
    if fmt == "column":
        return c.reshape(-1, 1).copy()
    if fmt == "matrix":
        return np.column_stack((c, comps))
    if fmt == "list of lists":
        return [[float(x)] + list(map(float, y)) for x, y in zip(c, comps)]
    return [np.concatenate(([x], y)) for x, y in zip(c, comps)]


def ref_weights(c, method, elite):
    n = c.size
    if method == "PI-BB":
        r = c.max() - c.min()
        w = np.ones(n) if r == 0 else np.exp(-elite * ((c - c.min()) / r))
    else:
        rank = np.argsort(np.argsort(c, kind="stable"), kind="stable")
        if method == "CEM":
            w = (rank < elite) * 1.0
        else:
            w = np.where(rank < elite, np.log(elite + 0.5) - np.log(rank + 1.0), 0.0)
    return w / w.sum()


def run(case, ctx):
    from dmpbbo.bbo.updaters import costs_to_weights

    c = arr(case["costs"]["c"])
    n = c.size
    m, e = case["method"], case["elite"]
    ints = case["ints"] and case["costs"]["kind"] in ("ints", "ties", "equal")
    data = formatted(c, case["format"], ints=ints)
    copy = formatted(c, case["format"], ints=ints)
    w = costs_to_weights(data, m, e)
    ctx.label(m, case["format"], case["costs"]["kind"])
    distinct = np.unique(c).size
    ctx.nt(distinct > 1)
    check(isinstance(w, np.ndarray) and w.shape == (n,), "shape of the weights", got=w)
    check(np.all(np.isfinite(w)) and np.all(w >= 0), "weights are not non-negative numbers", weights=w)
    close(np.sum(w), 1.0, "weights do not sum to one", rtol=1e-12)
    check(all(np.array_equal(a, b) for a, b in zip(data, copy)), "costs were changed")
    # monotone: a lower cost never has a lower weight
    order = np.argsort(c, kind="stable")
    cs, ws = c[order], w[order]
    for i in range(n - 1):
        if cs[i] < cs[i + 1]:
            check(np.min(ws[: i + 1]) >= np.max(ws[i + 1 :]) * (1 - 1e-13), "a sample with a lower cost has a lower weight", costs=cs, weights=ws)
    # the weights themselves: sorted weights are determined also when there are ties
    ref = ref_weights(c, m, e)
    if m == "PI-BB":
        if case["costs"]["kind"] != "denormal":
            close(w, ref, "PI-BB weights", rtol=1e-6 if case["costs"]["kind"] == "tiny range" else 1e-9, atol=0)
        if distinct == 1:
            close(w, np.full(n, 1.0 / n), "PI-BB weights for equal costs", rtol=1e-12)
            ctx.label("all equal")
    else:
        close(np.sort(w), np.sort(ref), f"{m} weights", rtol=1e-9, atol=0)
        if distinct == n:
            close(w, ref, f"{m} weights per sample", rtol=1e-9, atol=0)
        if e > n:
            ctx.label("eliteness larger than the number of samples")
    if distinct < n:
        ctx.label("ties")
    # permutations
    if m == "PI-BB" or distinct == n:
        p = np.random.default_rng(case["perm"]).permutation(n)
        close(costs_to_weights(formatted(c[p], case["format"], ints=ints), m, e), w[p], "not equivariant to permuting the samples", rtol=1e-9, atol=1e-300)
    # shift and scale (exact in floating point: multiples of 1/8 and powers of two)
    if case["costs"]["kind"] in ("ties", "distinct"):
        w2 = costs_to_weights(formatted((c + case["shift"]) * 2.0 ** case["scale"], case["format"], ints=ints), m, e)
        if m == "PI-BB" or distinct == n:
            close(w2, w, "not invariant to shifting and scaling the costs", rtol=1e-9, atol=0)
        # monotone transformation: only ranks matter
        if m != "PI-BB" and distinct == n:
            w3 = costs_to_weights(formatted(np.arctan(c / 100.0) * 50 + c**3 * 1e-6, case["format"], ints=ints), m, e)
            close(w3, w, "rank-based weights depend on more than the ranking", rtol=1e-12, atol=0)
    # cost components do not matter
    if case["format"] in ("matrix", "list of lists", "list of arrays"):
        w4 = costs_to_weights(formatted(c, case["format"], extra_seed=9, ints=ints), m, e)
        close(w4, w, "weights depend on the cost components", rtol=1e-15, atol=0)


SUBS = [Sub("weights", cases, run, quick=6000, thorough=300000, shards=4)]
