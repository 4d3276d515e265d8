"""C13: Gaussian process regression predictions equal the GP posterior mean."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.fas import RefModel, data_spec, gpr_length, make_fa, make_inputs, make_targets
from vf.gen import log_real, real, seeds, vec
from vf.systems import arr

RULE = (
    "A case is training data (1-4 inputs), a covariance function (maximum, one length or one per dimension) and query inputs; "
    "non-trivial: the Gram matrix is well-conditioned (solution unique up to 1e-4) and has off-diagonal elements above 1% of the diagonal"
)
ASSUMPTIONS = ["distinct training inputs; Gram matrices of condition number above 1e9 are not compared with the reference"]


@st.composite
def cases(draw):
    data = draw(data_spec(n_min=3, n_max=30, max_dims=draw(st.sampled_from([2, 2, 4]))))
    d = data["dims"]
    return {
        "data": data,
        "fa": {"kind": "GPR", "max_covariance": draw(log_real(0.05, 50.0)), "length": draw(st.one_of(real(0.2, 1.6), vec(real(0.2, 1.6), d)))},
        "shift": draw(real(-10.0, 10.0)),
        "factor": draw(real(-5.0, 5.0)),
        "retrain": draw(st.booleans()),
    }


def run(case, ctx):
    data, conf = case["data"], case["fa"]
    d = data["dims"]
    X = make_inputs(data)
    y = make_targets(data, X)
    fa = make_fa(conf, data)
    if case["retrain"]:
        other = dict(data, seed=data["seed"] + 77)
        fa.train(make_inputs(other)[: data["n"] // 2 + 1] + 0.1, make_targets(other, make_inputs(other))[: data["n"] // 2 + 1])
    fa.train(X, y)
    ref = RefModel(conf, X, y, data)
    XP = make_inputs(data, seed=data["seed"] + 5, n=25, margin=0.4)
    tol = ref.cond * 1e-13 + 1e-10
    if tol > 1e-4:
        return
    W = np.max(np.abs(ref.git)) * conf["max_covariance"] + np.max(np.abs(y))
    close(fa.predict(XP), ref.predict(XP), "prediction is not the posterior mean", rtol=tol, atol=0, scale=W)
    close(fa.predict(X), y, "posterior mean does not interpolate the data", rtol=tol, atol=0, scale=W)
    fa.set_selected_param_names("gram_inv_targets")
    close(fa.get_param_vector(), ref.git, "gram_inv_targets", rtol=tol, atol=0, scale=np.max(np.abs(ref.git)))
    # Far away from the data: the prior mean
    l = np.max(gpr_length(conf, data))
    far = arr(data["hi"]) + 40 * l
    close(fa.predict(far.reshape(1, -1)), np.zeros(1), "prediction far away does not return to zero", atol=1e-9 * W)
    # Independent of the maximum of the covariance function; linear in the targets; shift invariant; order invariant
    fb = make_fa(dict(conf, max_covariance=conf["max_covariance"] * 3.7), data)
    fb.train(X, y)
    close(fb.predict(XP), fa.predict(XP), "noise-free posterior mean depends on the maximum of the covariance function", rtol=tol, atol=0, scale=W)
    y2 = np.random.default_rng(data["seed"]).normal(size=y.size)
    fc = make_fa(conf, data)
    fc.train(X, case["factor"] * y + y2)
    fd = make_fa(conf, data)
    fd.train(X, y2)
    W2 = 6 * W + conf["max_covariance"] * np.max(np.abs(RefModel(conf, X, y2, data).git))
    close(fc.predict(XP), case["factor"] * fa.predict(XP) + fd.predict(XP), "posterior mean is not linear in the targets", rtol=tol, atol=0, scale=W2)
    fe = make_fa(conf, data)
    fe.train(X + case["shift"], y)
    close(fe.predict(XP + case["shift"]), fa.predict(XP), "posterior mean is not invariant to shifting all inputs", rtol=ref.cond * 1e-11 + 1e-8, atol=0, scale=W)
    perm = np.random.default_rng(data["seed"] + 2).permutation(X.shape[0])
    fp = make_fa(conf, data)
    fp.train(X[perm], y[perm])
    close(fp.predict(XP), fa.predict(XP), "posterior mean depends on the order of the samples", rtol=tol, atol=0, scale=W)
    K = ref.kernel(X, X) / conf["max_covariance"]
    ctx.nt(np.max(K - np.eye(X.shape[0])) > 0.01)
    ctx.label(f"{d} dimensions", "length per dimension" if isinstance(conf["length"], list) else "one length")


SUBS = [Sub("posterior", cases, run, quick=1000, thorough=30000, shards=8)]
