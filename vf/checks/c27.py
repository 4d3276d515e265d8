"""C27: C++ function approximators predict what the Python ones predict."""
import os

import numpy as np
from hypothesis import strategies as st

from vf import cpp
from vf.core import Sub, check, close
from vf.fas import data_spec, fa_conf, make_fa, make_inputs, make_targets, names_of
from vf.gen import real, seeds, size, vec

RULE = (
    "A case is one or two function approximators (RBFN or LWR, 1-3 input dimensions, trained on generated data, possibly with parameters "
    "changed afterwards), exported and loaded in C++, and a sequence of predictions (batch and real-time) on both; or a set of basis functions (Gaussian with widths, asymmetric widths or covariances, cosine), compared with "
    "their formula. Non-trivial: several "
    "basis functions, at least two calls, and inputs between, outside of and far away from the centers"
)
ASSUMPTIONS = ["Python's predictions are decided by C09; this check compares the two implementations"]


def prepare():
    cpp.build("plain")


def setup():
    return cpp.Driver("plain")


@st.composite
def models(draw):
    data = draw(data_spec(max_dims=3))
    conf = draw(fa_conf(data["dims"], data=data, kinds=("RBFN", "LWR")))
    if data["dims"] == 3:
        conf["n_bfs"] = draw(vec(st.integers(1, 3), 3))
    change = draw(st.one_of(st.none(), st.fixed_dictionaries({"names": st.lists(st.sampled_from(names_of(conf)), min_size=1, unique=True), "seed": seeds(), "size": real(0.01, 0.5)})))
    return {"data": data, "fa": conf, "change": change}


@st.composite
def calls(draw):
    return {
        "which": draw(st.integers(0, 1)),
        "how": draw(st.sampled_from(["batch", "batch", "real-time", "both"])),
        "n": draw(st.sampled_from([1, 1, 2, 3, 7, 20, 150])),
        "seed": draw(seeds()),
        "margin": draw(st.sampled_from([0.0, 0.2, 2.0, 100.0])),
        "strided": draw(st.booleans()),
        "rows": draw(st.integers(0, 8)),
        "cols": draw(st.integers(0, 3)),
    }


@st.composite
def cases(draw):
    return {"models": draw(st.lists(models(), min_size=1, max_size=2)), "calls": draw(st.lists(calls(), min_size=1, max_size=7))}


def trained(m):
    fa = make_fa(m["fa"], m["data"])
    X = make_inputs(m["data"])
    fa.train(X, make_targets(m["data"], X))
    if m["change"]:
        fa.set_selected_param_names(m["change"]["names"])
        rng = np.random.default_rng(m["change"]["seed"])
        v = fa.get_param_vector()
        # widths remain positive, and on their scale
        fa.set_param_vector(v * rng.uniform(1 - m["change"]["size"], 1 + m["change"]["size"], v.size))
    return fa


def parameters(fa, m):
    """Parameter matrices, through the public interface."""
    import copy

    fa = copy.deepcopy(fa)
    out = {}
    for n in names_of(m["fa"]):
        fa.set_selected_param_names(n)
        out[n] = fa.get_param_vector()
    nb = out["offsets" if m["fa"]["kind"] == "LWR" else "weights"].size
    return nb, out


def load(drv, ctx, ident, fa, kind="fa"):
    from dmpbbo.json_for_cpp import savejson_for_cpp

    file = os.path.join(ctx.scratch, "object.json")
    savejson_for_cpp(file, fa)
    r = drv("load", kind=kind, file=file, id=ident)
    check(not r.get("null"), "the object is not loaded in C++")


def comparable(X, nb, p):
    """Samples for which no sum of activations is denormal (thus only known up to few digits), and whether all are zero."""
    C, W = (p[k].reshape(nb, X.shape[1]) for k in ("centers", "widths"))
    q = np.max(-0.5 * np.sum(((X[:, None, :] - C) / W) ** 2, axis=2), axis=1)
    return (q > -650) | (q < -780), q < -780


def run(case, ctx):
    drv = ctx.state
    drv.reset()
    objs = []
    for i, m in enumerate(case["models"]):
        fa = trained(m)
        load(drv, ctx, str(i), fa)
        objs.append((m, fa) + parameters(fa, m))
    seen = set()
    for c in case["calls"]:
        i = c["which"] % len(objs)
        m, fa, nb, p = objs[i]
        ctx.label(m["fa"]["kind"], f"{m['data']['dims']}-D", c["how"])
        X = make_inputs(m["data"], seed=c["seed"], n=c["n"], margin=c["margin"])
        ok, far = comparable(X, nb, p)
        ref = np.asarray(fa.predict(X)).reshape(-1)
        if m["fa"]["kind"] == "RBFN":
            scale = np.sum(np.abs(p["weights"]))
        else:
            scale = np.max(np.abs(p["offsets"]) + np.max(np.abs(X)) * np.sum(np.abs(p["slopes"].reshape(nb, -1)), axis=1))
        tol = dict(rtol=1e-10, atol=1e-12, scale=scale)
        if c["how"] != "real-time":
            r = drv("predict", id=str(i), inputs=X, strided=c["strided"], rows=c["rows"], cols=c["cols"])
            check(r["outputs"].shape == (X.shape[0], 1), "shape of predictions", got=r["outputs"].shape)
            check(r["inputs_unchanged"], "predict changed its inputs")
            batch = r["outputs"][:, 0]
            close(batch[ok], ref[ok], "predictions in C++ and Python", X=X, **tol)
        if c["how"] != "batch":
            r = drv("predict_rt", id=str(i), inputs=X)
            close(r["outputs"][ok], ref[ok], "real-time predictions in C++ and predictions in Python", X=X, **tol)
            if c["how"] == "both":
                close(r["outputs"][ok], batch[ok], "real-time and batch predictions", X=X, **tol)
        if nb > 1:
            seen.add("several basis functions")
            if np.any(far):
                seen.add("far away")
                ctx.label("all activations are zero")
    ctx.nt("several basis functions" in seen and len(case["calls"]) >= 2 and any(c["margin"] for c in case["calls"]))


# --- basis functions ---------------------------------------------------------------------------


@st.composite
def basis_cases(draw):
    return {
        "kind": draw(st.sampled_from(["gaussian", "gaussian", "gaussian full", "cosine", "cosines"])), "bfs": draw(size(1, 5, 20)), "dims": draw(st.integers(1, 3)),
        "n": draw(size(1, 6, 60)), "seed": draw(seeds()), "margin": draw(st.sampled_from([0.0, 0.3, 2.0, 100.0])), "width": draw(st.sampled_from([0.1, 0.3, 2.0])),
        "normalized": draw(st.booleans()), "asymmetric": draw(st.booleans()), "strided": draw(st.booleans()), "rows": draw(st.integers(0, 6)), "cols": draw(st.integers(0, 5)),
    }


def run_basis(case, ctx):
    drv = ctx.state
    drv.reset()
    rng = np.random.default_rng(case["seed"])
    k, d, n = case["bfs"], case["dims"], case["n"]
    X = rng.uniform(-case["margin"], 1 + case["margin"], (n, d))
    a = {name: case[name] for name in ("kind", "strided", "rows", "cols")}
    C = rng.uniform(0, 1, (k, d))
    D = X[:, None, :] - C
    log_act = None
    if case["kind"] == "gaussian":
        W = case["width"] * rng.uniform(0.5, 2.0, (k, d))
        a.update(centers=C, widths=W, normalized=case["normalized"], asymmetric=case["asymmetric"])
        w = np.tile(W, (n, 1, 1))
        if case["asymmetric"]:  # the width of the previous basis function on the left
            w[:, 1:, :] = np.where(D[:, 1:, :] < 0, W[:-1], W[1:])
        log_act = -0.5 * np.sum((D / w) ** 2, axis=2)
    elif case["kind"] == "gaussian full":
        covars = []
        for _ in range(k):
            R = np.linalg.qr(rng.normal(size=(d, d)))[0]
            S = R @ np.diag((case["width"] * rng.uniform(0.5, 2.0, d)) ** 2) @ R.T
            covars.append((S + S.T) / 2)
        priors = rng.uniform(0.1, 2.0, k)
        a.update(centers=C, covars=covars, priors=priors, normalized=case["normalized"])
        log_act = np.stack([-0.5 * np.sum(D[:, i, :] * np.linalg.solve(covars[i], D[:, i, :].T).T, axis=1) for i in range(k)], axis=1) + np.log(priors)
    else:
        freqs, phases = rng.uniform(-10, 10, (k, d)), rng.uniform(-4, 4, k) * rng.choice([1.0, 5.0])
        a.update(freqs=freqs, phases=phases)
        ref = np.cos(X @ freqs.T + phases)
        ok = np.ones(n, dtype=bool)
    if log_act is not None:
        q = np.max(log_act, axis=1)
        ok = np.ones(n, dtype=bool)
        if not case["normalized"]:
            ref = np.exp(log_act)
        elif k == 1:
            ref = np.ones((n, 1))
        else:
            ref = np.exp(log_act - q[:, None])
            ref = ref / np.sum(ref, axis=1, keepdims=True)
            # no basis function is active
            ref[q < -780] = 1.0 / k
            ok = (q > -650) | (q < -780)
    r = drv("basis", inputs=X, **a)
    check(r["inputs_unchanged"], "the inputs were changed")
    check(r["activations"].shape == (n, k), "shape of the activations", got=r["activations"].shape)
    check(np.all(np.isfinite(r["activations"][ok])), "activations are not finite")
    close(r["activations"][ok], ref[ok], f"activations ({case['kind']})", rtol=1e-10, atol=1e-12, scale=1.0 + case["margin"])
    ctx.label(case["kind"], f"{d}-D", "normalized" if case["normalized"] else "not normalized")
    ctx.nt(k > 1 and n > 1 and np.any(ok))


SUBS = [
    Sub("basis", basis_cases, run_basis, quick=2000, thorough=60000, shards=2, setup=setup, rule="several basis functions and samples"),
    Sub("predictions", cases, run, quick=2400, thorough=60000, shards=6, setup=setup, rule="loaded models are queried in any order"),
]
