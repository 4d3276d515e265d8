"""C11: training yields the (weighted, regularized) least-squares fit."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.fas import RefModel, data_spec, fa_conf, make_fa, make_inputs, make_targets, ref_acts, ref_centers_widths, n_bfs_per_dim
from vf.gen import real, seeds, vec
from vf.systems import arr

RULE = (
    "A case is a function approximator (WLS with and without offset, RBFN, LWR; 1-4 inputs; any number of basis functions, "
    "intersection height, regularization) and training data; non-trivial: the fit is well-conditioned (the solution is unique up "
    "to 1e-4), so that it is compared with a reference solver, and the targets are not constant"
)


@st.composite
def cases(draw):
    data = draw(data_spec(max_dims=draw(st.sampled_from([2, 2, 4]))))
    return {
        "data": data,
        "fa": draw(fa_conf(data["dims"], data=data, kinds=("WLS", "RBFN", "LWR"))),
        "weights": draw(st.booleans()),
        "first": draw(st.booleans()),
        "seed": draw(seeds()),
    }


def run(case, ctx):
    data, conf = case["data"], case["fa"]
    X = make_inputs(data)
    y = make_targets(data, X)
    rng = np.random.default_rng(case["seed"])
    kw = {}
    if case["weights"] and conf["kind"] == "WLS":
        kw["weights"] = rng.uniform(0.05, 3.0, X.shape[0])
        ctx.label("weights")
    fa = make_fa(conf, data)
    if case["first"]:
        other = dict(data, seed=case["seed"])
        Xo = make_inputs(other) * 1.7 + 0.3
        fa.train(Xo, make_targets(other, Xo))
        ctx.label("retrained")
    X0, y0 = X.copy(), y.copy()
    fa.train(X, y, **kw)
    same(X, X0, "training changes the inputs")
    same(y, y0, "training changes the targets")
    ref = RefModel(conf, X, y, data, kw.get("weights"))
    XP = np.vstack((X, make_inputs(data, seed=data["seed"] + 5, n=15, margin=0.1)))
    pred, exp = fa.predict(XP), ref.predict(XP)
    ctx.label(conf["kind"], data["func"], "regularized" if conf["reg"] else "not regularized")
    tol = ref.cond**2 * 1e-13 + 1e-9
    if conf["kind"] == "RBFN" and 2 * ref.C.shape[0] > X.shape[0]:
        # nearly (or more than) as many basis functions as samples: large weights that cancel
        tol = tol * 30 if conf["reg"] >= 0.01 or ref.C.shape[0] < X.shape[0] else np.inf
    scale = np.max(np.abs(y)) + np.max(np.abs(exp))
    perm = rng.permutation(X.shape[0])
    fb = make_fa(conf, data)
    kwp = {"weights": kw["weights"][perm]} if kw else {}
    fb.train(X[perm], y[perm], **kwp)
    if tol < 1e-3:
        close(pred, exp, "prediction is not that of the least-squares fit", rtol=tol, atol=0, scale=scale)
        close(fb.predict(XP), pred, "the fit depends on the order of the samples", rtol=tol, atol=0, scale=scale)
        ctx.nt(data["func"] != "constant")
        ctx.label("well-conditioned")
    # The flat form of one-dimensional inputs is the same
    if data["dims"] == 1:
        fc = make_fa(conf, data)
        fc.train(X.ravel(), y, **kw)
        same(fc.predict(XP.ravel()), pred, "training with a vector of inputs")
    fd = make_fa(conf, data)
    fd.train(X, y, **kw)
    same(fd.predict(XP), pred, "the fit depends on earlier trainings, or is not deterministic")


@st.composite
def exact_cases(draw):
    data = draw(data_spec(max_dims=draw(st.sampled_from([2, 2, 4]))))
    conf = draw(fa_conf(data["dims"], data=data, kinds=("WLS", "RBFN", "LWR"), max_bfs=6))
    conf["reg"] = 0.0
    if conf["kind"] != "WLS":
        conf["height"] = min(conf["height"], 0.5)
    d = data["dims"]
    return {"data": data, "fa": conf, "slope": draw(vec(real(-10.0, 10.0), d)), "offset": draw(real(-20.0, 20.0)), "seed": draw(seeds())}


def run_exact(case, ctx):
    """Functions the model can represent exactly are reproduced exactly, also between and outside of the samples."""
    data, conf = case["data"], case["fa"]
    X = make_inputs(data)
    XP = make_inputs(data, seed=data["seed"] + 5, n=20)
    d = data["dims"]
    if conf["kind"] == "RBFN":
        ns = n_bfs_per_dim(conf, d)
        C, W = ref_centers_widths(X.min(axis=0), X.max(axis=0), ns, conf["height"])
        w = np.random.default_rng(case["seed"]).uniform(-10, 10, C.shape[0])
        f = lambda Z: ref_acts(Z, C, W, False) @ w  # noqa
        cond = np.linalg.cond(ref_acts(X, C, W, False)) if C.shape[0] <= X.shape[0] else np.inf
    else:
        off = case["offset"] if conf["kind"] == "LWR" or conf["offset"] else 0.0
        f = lambda Z: Z @ arr(case["slope"]) + off  # noqa
        cond = RefModel(conf, X, f(X), data).cond
    y = f(X)
    fa = make_fa(conf, data)
    fa.train(X, y)
    tol = cond**2 * 1e-14 + 1e-9
    if tol < 1e-4:
        close(fa.predict(X), y, "function is not reproduced on the samples", rtol=tol, scale=np.max(np.abs(y)) + 1)
        close(fa.predict(XP), f(XP), "function is not reproduced between the samples", rtol=tol, scale=np.max(np.abs(y)) + 1)
        ctx.nt(True)
    ctx.label(conf["kind"])


@st.composite
def reg_cases(draw):
    data = draw(data_spec(max_dims=draw(st.sampled_from([2, 2, 4]))))
    conf = draw(fa_conf(data["dims"], data=data, kinds=("WLS", "RBFN"), max_bfs=6))
    return {"data": data, "fa": conf, "regs": sorted(draw(st.lists(st.sampled_from([1e-6, 1e-3, 0.1, 1.0, 10.0, 1000.0]), min_size=2, max_size=3, unique=True)))}


def run_reg(case, ctx):
    """More regularization: smaller parameters, larger squared error (no reference solver involved)."""
    data, conf = case["data"], case["fa"]
    X = make_inputs(data)
    y = make_targets(data, X)
    norms, errs = [], []
    for r in case["regs"]:
        fa = make_fa(dict(conf, reg=r), data)
        fa.train(X, y)
        if conf["kind"] == "WLS":
            fa.set_selected_param_names(["slope", "offset"] if conf["offset"] else ["slope"])
        else:
            fa.set_selected_param_names("weights")
        norms.append(float(np.sum(fa.get_param_vector() ** 2)))
        errs.append(float(np.sum((fa.predict(X) - y) ** 2)))
    s = np.sum(y**2)
    for i in range(len(norms) - 1):
        check(norms[i + 1] <= norms[i] * (1 + 1e-6) + 1e-12, "more regularization yields larger parameters", norms=norms, regs=case["regs"])
        check(errs[i + 1] >= errs[i] - 1e-6 * s - 1e-12, "more regularization yields a smaller error", errors=errs, regs=case["regs"])
    check(errs[-1] <= s * (1 + 1e-9), "the fit is worse than predicting zero", errors=errs)
    ctx.nt(norms[-1] < 0.999 * norms[0])


SUBS = [
    Sub("fit", cases, run, quick=900, thorough=25000, shards=4),
    Sub("exact", exact_cases, run_exact, quick=500, thorough=10000, shards=2),
    Sub("regularization", reg_cases, run_reg, quick=400, thorough=10000, shards=2),
]
