"""C12: function approximator predictions are pure and per-sample."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, raises, same
from vf.fas import data_spec, fa_conf, make_fa, make_inputs, make_targets, names_of
from vf.gen import seeds, size

RULE = (
    "A case is a trained function approximator (WLS, RBFN, LWR, GPR; 1-4 inputs) and a history of batches of inputs (slices, "
    "permutations, single samples, vectors, non-contiguous and repeated inputs, far outside of the training range, rejected inputs); "
    "non-trivial: some batch has at least two samples and its prediction is not constant"
)


@st.composite
def cases(draw):
    data = draw(data_spec(max_dims=draw(st.sampled_from([2, 2, 4]))))
    conf = draw(fa_conf(data["dims"], data=data))
    ops = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "op": st.sampled_from(["slice", "permute", "single", "vector", "strided", "repeat", "fortran", "int", "bad_dims", "far", "with_far", "with_far", "in place"]),
                    "seed": seeds(),
                }
            ),
            min_size=3, max_size=8,
        )
    )
    return {"data": data, "fa": conf, "ops": ops, "n": draw(size(2, 25, 250))}


def run(case, ctx):
    data, conf = case["data"], case["fa"]
    d = data["dims"]
    fa = make_fa(conf, data)
    X = make_inputs(data)
    y = make_targets(data, X)
    XP = make_inputs(data, seed=data["seed"] + 3, n=case["n"], margin=0.3)
    check(not fa.is_trained(), "untrained function approximator claims to be trained")
    raises(ValueError, lambda: fa.predict(XP), "prediction of an untrained function approximator")
    raises(ValueError, lambda: fa.train(X, y[:-1]), "more inputs than targets")
    raises(ValueError, lambda: fa.train(X[:-1], y), "more targets than inputs")
    check(not fa.is_trained(), "rejected training data makes the function approximator trained")
    fa.train(X, y)
    check(fa.is_trained() and fa.dim_input() == d, "dimensionality of the trained function approximator")
    raises(ValueError, lambda: fa.train(X, np.append(y, 1.0)), "more targets than inputs")
    names = names_of(conf)

    def params():
        c = copy.deepcopy(fa)
        c.set_selected_param_names(names)
        return np.array(c.get_param_vector())

    p0 = params()
    X0 = XP.copy()
    base = fa.predict(XP)
    check(np.shape(base) == (XP.shape[0],) and np.all(np.isfinite(base)), "predictions", got=base)
    scale = np.max(np.abs(base)) + 1e-3 * np.max(np.abs(p0)) + 1e-9
    ctx.label(conf["kind"])
    for i, op in enumerate(case["ops"]):
        rng = np.random.default_rng(op["seed"])
        k = op["op"]
        ctx.label(k)
        n = XP.shape[0]
        idx = None
        if k == "slice":
            a = rng.integers(0, n)
            idx = np.arange(a, rng.integers(a, n) + 1)
            Z = XP[idx]
        elif k == "permute":
            idx = rng.permutation(n)
            Z = XP[idx]
        elif k == "single":
            idx = np.array([rng.integers(0, n)])
            Z = XP[idx]
        elif k == "vector":
            idx = np.arange(n)
            Z = XP.ravel() if d == 1 else XP
        elif k == "strided":
            idx = np.arange(0, n, 2)
            Z = XP[::2]
        elif k == "repeat":
            idx = np.array([rng.integers(0, n)] * 3)
            Z = XP[idx]
        elif k == "fortran":
            idx = np.arange(n)
            Z = np.asfortranarray(XP)
        elif k == "int":
            Zi = np.round(XP).astype(int)
            close(fa.predict(Zi), fa.predict(Zi.astype(float)), "inputs of type int", rtol=1e-12, scale=scale)
            continue
        elif k == "in place":
            # The caller uses one array for several batches
            Z = XP[rng.permutation(n)]
            fa.predict(Z)
            idx = rng.permutation(n)
            keep = rng.uniform(size=n) < 0.5
            for j in np.flatnonzero(keep):
                idx[j] = int(np.flatnonzero((XP == Z[j]).all(axis=1))[0])
            Z[:] = XP[idx]
        elif k == "bad_dims":
            before = fa.predict(XP)
            raises(ValueError, lambda: fa.predict(np.zeros((4, d + 1))), "inputs of the wrong dimensionality")
            same(fa.predict(XP), before, "rejected inputs change the predictions")
            continue
        elif k == "far":
            Zf = XP * 50.0
            same(fa.predict(Zf), fa.predict(Zf), "prediction far away is not deterministic")
            check(np.all(np.isfinite(fa.predict(Zf))), "prediction far away is not finite")
            continue
        elif k == "with_far":
            # Some samples are so far away that nothing is active there
            idx = np.sort(rng.choice(n, rng.integers(1, n + 1), replace=False))
            far = XP[rng.integers(0, n, size=idx.size)] + rng.choice([-1.0, 1.0], size=(idx.size, d)) * np.ptp(X, axis=0) * 10.0 ** rng.integers(1, 6)
            Z = np.empty((2 * idx.size, d))
            Z[::2], Z[1::2] = XP[idx], far
            if rng.integers(2):
                Z = np.vstack((far[:1], Z))
            near = np.array([bool((XP == z).all(axis=1).any()) for z in Z])
            Zc = Z.copy()
            out = fa.predict(Z)
            same(Z, Zc, f"batch {i} ({k}): inputs are changed")
            close(out[near], base[idx], f"batch {i} ({k}): prediction depends on the batch", rtol=1e-10, atol=0, scale=scale)
            for j in np.flatnonzero(~near)[:3]:
                close(out[j], fa.predict(Z[j : j + 1])[0], f"batch {i} ({k}): prediction far away depends on the batch", rtol=1e-9, atol=0, scale=max(scale, abs(out[j])))
            continue
        Zc = np.array(Z)
        out = fa.predict(Z)
        same(np.array(Z), Zc, f"batch {i} ({k}): inputs are changed")
        close(out, base[idx], f"batch {i} ({k}): prediction depends on the batch", rtol=1e-10, atol=0, scale=scale)
    same(XP, X0, "inputs are changed")
    same(fa.predict(XP), base, "predictions change after other predictions")
    same(params(), p0, "predicting changes the parameters")
    ctx.nt(np.ptp(base) > 1e-9)


SUBS = [Sub("histories", cases, run, quick=1200, thorough=30000, shards=8)]
