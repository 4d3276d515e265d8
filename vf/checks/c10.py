"""C10: basis functions cover the input space as specified."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.fas import ref_acts, ref_centers_widths
from vf.gen import log_real, real, size, vec
from vf.systems import arr

RULE = (
    "A case is a set of Gaussians (1-3 input dimensions, arbitrary centres and widths, or derived from an input range) and inputs "
    "(on centres, between them, outside, far away); non-trivial: at least two basis functions"
)


@st.composite
def act_cases(draw):
    d = draw(size(1, 3, 5))
    n = draw(size(1, 6, 30))
    return {
        "centers": draw(vec(vec(real(-5.0, 5.0), d), n)),
        "widths": draw(vec(vec(log_real(0.05, 5.0), d), n)),
        "inputs": draw(st.lists(vec(st.one_of(real(-8.0, 8.0), real(-20.0, 20.0), real(-200.0, 200.0)), d), min_size=1, max_size=draw(size(8, 8, 60)))),
        "flat": draw(st.booleans()), "ints": draw(st.integers(0, 4)) == 0, "unit": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-6, 1e-9, 1e6])),
    }


def run_act(case, ctx):
    from dmpbbo.functionapproximators.basis_functions import Gaussian

    C, W, X = arr(case["centers"]), arr(case["widths"]), arr(case["inputs"])
    if case["ints"]:
        X = np.round(X)
        C = np.round(C)
    elif case["unit"] != 1.0:
        C, W, X = C * case["unit"], W * case["unit"], X * case["unit"]
    X = np.vstack((X, C))  # the centres, too
    n, d = C.shape
    if case["ints"]:  # of type int
        X = X.astype(int)
        C = C.astype(int)
    c, w, x = (C, W, X) if d > 1 or not case["flat"] else (C.ravel(), W.ravel(), X.ravel())
    copies = [v.copy() for v in (c, w, x)]
    a = Gaussian.activations(x, centers=c, widths=w, normalized=False)
    b = Gaussian.activations(x, centers=c, widths=w, normalized=True)
    for u, v in zip((c, w, x), copies):
        same(u, v, "an argument was changed")
    check(a.shape == (X.shape[0], n) and b.shape == a.shape, "shape of activations", got=a.shape)
    check(np.all(a >= 0) and np.all(a <= 1) and np.all(b >= 0) and np.all(b <= 1 + 1e-12), "activation outside of [0,1]", a=a, b=b)
    ra = ref_acts(X, C, W, False)
    close(a, ra, "activations are not those of the Gaussian", rtol=1e-10, atol=1e-280, scale=ra)
    for i in range(n):
        check(abs(a[X.shape[0] - n + i, i] - 1.0) < 1e-12, "activation at the centre is not 1", i=i)
    close(b.sum(axis=1), np.ones(X.shape[0]), "normalized activations do not sum to one", rtol=1e-9)
    s = ra.sum(axis=1)
    ok = s > 1e-250
    rb = ra[ok] / s[ok, None]
    close(b[ok], rb, "normalized activations are not proportional to the activations", rtol=1e-9, atol=1e-25, scale=rb)
    if np.any(s == 0.0):
        ctx.label("far away from all basis functions")
    # default is not normalized; one input at a time gives the same
    same(Gaussian.activations(x, centers=c, widths=w), a, "default activations")
    for i in range(X.shape[0]):
        close(Gaussian.activations(x[i : i + 1], centers=c, widths=w, normalized=True)[0], b[i], "activations of a single input", rtol=1e-12, atol=1e-12)
    ctx.nt(n > 1)


@st.composite
def grid_cases(draw):
    d = draw(size(1, 3, 4))
    hi = {1: draw(size(12, 12, 60)), 2: 5, 3: 3, 4: 3}[d]
    lo = draw(vec(real(-10.0, 10.0), d))
    rng_ = draw(vec(log_real(0.1, 20.0), d))
    u = draw(st.sampled_from([1.0] * 5 + [1e-7, 1e-4, 1e5]))
    lo, rng_ = [a * u for a in lo], [a * u for a in rng_]
    return {
        "lo": lo,
        "hi": [a + b for a, b in zip(lo, rng_)],
        "n_bfs": draw(st.one_of(st.integers(1, hi), vec(st.integers(1, hi), d))),
        "height": draw(real(0.02, 0.95)),
        "inside": draw(st.lists(vec(real(0.0, 1.0), d), max_size=6)),
        "fa": draw(st.sampled_from(["none", "RBFN", "LWR"])),
        "as_array": draw(st.booleans()),
    }


def run_grid(case, ctx):
    from dmpbbo.functionapproximators.basis_functions import Gaussian

    lo, hi = arr(case["lo"]), arr(case["hi"])
    d = lo.size
    inside = arr(case["inside"]).reshape(-1, d)
    X = np.vstack((lo + inside * (hi - lo), hi, lo))
    n = case["n_bfs"]
    ns = n if isinstance(n, list) else [n] * d
    h = case["height"]
    arg = np.array(n) if case["as_array"] else n
    C, W = Gaussian.get_centers_and_widths(X, arg, h)
    mn, mx = X.min(axis=0), X.max(axis=0)
    RC, RW = ref_centers_widths(mn, mx, ns, h)
    close(C, RC, "centres are not a regular grid over the input range", rtol=1e-12)
    close(W, RW, "widths", rtol=1e-9)
    ctx.label(f"{d} dimensions", case["fa"])
    # Neighbours intersect at the specified height
    if d == 1 and ns[0] > 1:
        mid = 0.5 * (C[1:] + C[:-1])
        a = Gaussian.activations(mid, centers=C, widths=W)
        for i in range(ns[0] - 1):
            close(a[i, i : i + 2], np.full(2, h), "neighbours do not intersect at the specified height", rtol=1e-7)
    if case["fa"] != "none":
        from vf.fas import make_fa

        fa = make_fa({"kind": case["fa"], "n_bfs": n, "height": h, "reg": 0.1})
        rng = np.random.default_rng(1)
        X2 = np.vstack((X, lo + rng.uniform(size=(30, d)) * (hi - lo)))
        fa.train(X2, rng.normal(size=X2.shape[0]))
        fa.set_selected_param_names("centers")
        close(fa.get_param_vector(), RC.ravel(), "centres of the function approximator", rtol=1e-12)
        fa.set_selected_param_names("widths")
        close(fa.get_param_vector(), RW.ravel(), "widths of the function approximator", rtol=1e-9)
    ctx.nt(np.prod(ns) > 1)


SUBS = [
    Sub("activations", act_cases, run_act, quick=1500, thorough=40000, shards=4),
    Sub("centers_widths", grid_cases, run_grid, quick=1500, thorough=40000, shards=4),
]
