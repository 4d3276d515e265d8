"""Specifications (JSON) of function approximators and their training data, and independent reference models."""
import numpy as np
from hypothesis import strategies as st

from vf.gen import real, seeds, size, vec
from vf.systems import arr

NAMES = {
    "WLS": ["slope", "offset"],
    "RBFN": ["centers", "widths", "weights"],
    "LWR": ["centers", "widths", "slopes", "offsets"],
    "GPR": ["gram_inv_targets"],
}


@st.composite
def data_spec(draw, max_dims=2, n_min=12, n_max=40, dims=None):
    d = dims or draw(st.integers(1, max_dims))
    lo = draw(vec(real(-4.0, 3.0), d))
    width = draw(vec(real(0.5, 5.0), d))
    if draw(st.integers(0, 3)) == 0:
        unit = 10.0 ** draw(st.integers(-4, -1))  # (single basis functions have a width of 1)
        lo, width = [a * unit for a in lo], [a * unit for a in width]
    return {
        "dims": d,
        "n": draw(size(n_min, n_max, 5 * n_max, 15)) * (3 if d > 1 else 1),
        "lo": lo,
        "hi": [a + b for a, b in zip(lo, width)],
        "layout": draw(st.sampled_from(["grid", "random"])),
        "order": draw(st.sampled_from(["", "", "", "descending"])),
        "func": draw(st.sampled_from(["smooth", "smooth", "linear", "noise", "constant"])),
        "amp": draw(real(0.1, 50.0)) * draw(st.sampled_from([1.0, 1.0, 1.0, 1e-5, 1e4])),
        "seed": draw(seeds()),
    }


def make_inputs(c, seed=None, n=None, margin=0.0):
    rng = np.random.default_rng(c["seed"] if seed is None else seed)
    lo, hi = arr(c["lo"]), arr(c["hi"])
    lo, hi = lo - margin * (hi - lo), hi + margin * (hi - lo)
    n, d = n or c["n"], c["dims"]
    if c["layout"] == "grid" and d == 1 and seed is None:
        X = np.linspace(lo[0], hi[0], n).reshape(-1, 1)
        return X[::-1].copy() if c.get("order") else X
    X = rng.uniform(0.0, 1.0, (n, d))
    if seed is None:
        X[0], X[1] = 0.0, 1.0  # the range is covered
        if c.get("order"):
            X = X[np.argsort(-X[:, 0])]
    return lo + X * (hi - lo)


def make_targets(c, X):
    rng = np.random.default_rng(c["seed"] + 1)
    U = (X - arr(c["lo"])) / (arr(c["hi"]) - arr(c["lo"]))
    a, b = rng.uniform(-1, 1, c["dims"]), rng.uniform(-1, 1)
    if c["func"] == "constant":
        y = np.full(X.shape[0], b)
    else:
        y = U @ a + b
    if c["func"] in ("smooth", "noise"):
        y = y + np.sin(U @ rng.uniform(1, 6, c["dims"]) + rng.uniform(0, 6)) * rng.uniform(0.3, 1)
    if c["func"] == "noise":
        y = y + 0.2 * rng.normal(size=y.size)
    return c["amp"] * y


@st.composite
def fa_conf(draw, dims, kinds=("WLS", "RBFN", "LWR", "GPR"), max_bfs=9, data=None):
    """data: specification of the training data; local regressions then have samples."""
    k = draw(st.sampled_from(kinds))
    c = {"kind": k}
    if k in ("RBFN", "LWR"):
        hi = {1: max_bfs, 2: 4, 3: 3}.get(dims, 2)
        if dims > 1 and draw(st.booleans()):
            c["n_bfs"] = draw(vec(st.integers(1, hi), dims))
        else:
            c["n_bfs"] = draw(size(1, hi, 25 if dims == 1 else hi, 15))
        c["height"] = draw(st.sampled_from([0.2, 0.35, 0.5, 0.6, 0.7, 0.8]))
        c["reg"] = draw(st.sampled_from([0.0, 0.0, 1e-6, 0.01, 0.5]))
        if data is not None and dims == 1 and (k == "LWR" or c["reg"] == 0.0):
            most = data["n"] // (2 if data["layout"] == "grid" else 3)
            c["n_bfs"] = [min(b, most) for b in c["n_bfs"]] if isinstance(c["n_bfs"], list) else min(c["n_bfs"], most)
    elif k == "WLS":
        c["offset"] = draw(st.booleans())
        c["reg"] = draw(st.sampled_from([0.0, 0.0, 0.01, 0.5]))
    else:
        c["max_covariance"] = draw(real(0.2, 20.0))
        # relative to the typical distance of samples
        c["length"] = draw(vec(real(0.3, 1.0), dims)) if draw(st.booleans()) else draw(real(0.3, 1.0))
    return c


def make_fa(c, data=None):
    from dmpbbo.functionapproximators.FunctionApproximatorGPR import FunctionApproximatorGPR
    from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
    from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS

    k = c["kind"]
    # Documented default values are not passed
    kw = {"regularization": c["reg"]} if c.get("reg") else {}
    if k == "RBFN":
        if c["height"] == 0.7:
            return FunctionApproximatorRBFN(c["n_bfs"], **kw)
        return FunctionApproximatorRBFN(c["n_bfs"], c["height"], **kw)
    if k == "LWR":
        if c["height"] == 0.5:
            return FunctionApproximatorLWR(c["n_bfs"], **kw)
        return FunctionApproximatorLWR(c["n_bfs"], c["height"], **kw)
    if k == "WLS":
        if c["offset"]:
            return FunctionApproximatorWLS(**kw)
        return FunctionApproximatorWLS(c["offset"], **kw)
    return FunctionApproximatorGPR(c["max_covariance"], gpr_length(c, data))


def gpr_length(c, data):
    l = np.array(c["length"]) * gpr_distance(data)
    return float(l) if l.ndim == 0 else l


def gpr_distance(data):
    w = float(np.mean(arr(data["hi"]) - arr(data["lo"])))
    return w / max(1.0, data["n"] ** (1.0 / data["dims"]))


def names_of(c):
    n = NAMES[c["kind"]]
    return n[:1] if c["kind"] == "WLS" and not c["offset"] else list(n)


def n_bfs_per_dim(c, dims):
    n = c["n_bfs"]
    return list(n) if isinstance(n, list) else [n] * dims


# --- reference model ---------------------------------------------------------------------------


def ref_centers_widths(lo, hi, n_bfs, height):
    """Regular grid over [lo,hi] (last dimension varies fastest) and widths."""
    per_c, per_w = [], []
    for a, b, n in zip(lo, hi, n_bfs):
        cs = np.linspace(a, b, n)
        w = (b - a) / (n - 1) / np.sqrt(-8.0 * np.log(height)) if n > 1 else 1.0
        per_c.append(cs)
        per_w.append(np.full(n, w))
    C = np.array(np.meshgrid(*per_c, indexing="ij")).reshape(len(lo), -1).T
    W = np.array(np.meshgrid(*per_w, indexing="ij")).reshape(len(lo), -1).T
    return C, W


def ref_acts(X, C, W, normalized):
    X = np.asarray(X, dtype=float).reshape(-1, C.shape[1])
    if normalized and C.shape[0] == 1:
        return np.ones((X.shape[0], 1))
    q = -0.5 * np.sum(((X[:, None, :] - C[None, :, :]) / W[None, :, :]) ** 2, axis=2)
    if not normalized:
        return np.exp(q)
    a = np.exp(q)
    s = a.sum(axis=1, keepdims=True)
    return np.where(s > 0, a / np.where(s > 0, s, 1.0), 1.0 / C.shape[0])


def ridge(X, y, reg, w=None):
    """Minimiser of sum_i w_i (X_i b - y_i)^2 + reg |b|^2."""
    w = np.ones(X.shape[0]) if w is None else w
    s = np.sqrt(w)
    A = np.vstack((X * s[:, None], np.sqrt(reg) * np.eye(X.shape[1])))
    r = np.concatenate((y * s, np.zeros(X.shape[1])))
    beta, _, rank, sv = np.linalg.lstsq(A, r, rcond=None)
    return beta, (sv[0] / sv[-1]) if sv[-1] > 0 else np.inf


class RefModel:
    """Reference function approximator trained on (X, y)."""

    def __init__(self, c, X, y, data=None, weights=None):
        self.c = c
        self.cond = 1.0
        d = X.shape[1]
        k = c["kind"]
        one = np.ones((X.shape[0], 1))
        if k == "WLS":
            A = np.hstack((X, one)) if c["offset"] else X
            b, self.cond = ridge(A, y, c["reg"], weights)
            self.slope, self.offset = (b[:-1], b[-1]) if c["offset"] else (b, 0.0)
        elif k in ("RBFN", "LWR"):
            self.C, self.W = ref_centers_widths(X.min(axis=0), X.max(axis=0), n_bfs_per_dim(c, d), c["height"])
            if k == "RBFN":
                self.weights, self.cond = ridge(ref_acts(X, self.C, self.W, False), y, c["reg"])
            else:
                acts = ref_acts(X, self.C, self.W, True)
                A = np.hstack((X, one))
                self.slopes, self.offsets = [], []
                for i in range(self.C.shape[0]):
                    b, cond = ridge(A, y, c["reg"], acts[:, i])
                    self.cond = max(self.cond, cond)
                    self.slopes.append(b[:-1])
                    self.offsets.append(b[-1])
                self.slopes, self.offsets = np.array(self.slopes), np.array(self.offsets)
        else:
            self.X, self.l = X, gpr_length(c, data)
            K = self.kernel(X, X)
            self.cond = np.linalg.cond(K)
            self.git = np.linalg.solve(K, y)

    def kernel(self, A, B):
        d2 = np.sum(((A[:, None, :] - B[None, :, :]) / self.l) ** 2, axis=2)
        return self.c["max_covariance"] * np.exp(-0.5 * d2)

    def predict(self, X):
        k = self.c["kind"]
        if k == "WLS":
            return X @ self.slope + self.offset
        if k == "RBFN":
            return ref_acts(X, self.C, self.W, False) @ self.weights
        if k == "LWR":
            a = ref_acts(X, self.C, self.W, True)
            return np.sum(a * (X @ self.slopes.T + self.offsets), axis=1)
        return self.kernel(X, self.X) @ self.git
