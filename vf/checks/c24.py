"""C24: a learning session returns what was last stored, also from disk."""
import copy
import json
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same, short, Violation
from vf.gen import real, seeds, size, vec
from vf.systems import arr

RULE = (
    "A case is a session (in memory or with a directory, plain or for tasks) and a history of up to 14 tell / ask / exists / reload / "
    "modify-what-was-passed operations over names, update and sample indices and value types; compared with a dictionary after every operation. "
    "Non-trivial: an item is overwritten or the session is reloaded between telling and asking an item"
)
ASSUMPTIONS = [
    "values are numbers, strings, vectors, matrices, lists of numbers or vectors, data frames, dictionaries, distributions and DMPs; names are identifiers",
    "in sessions for tasks, names containing 'dmp' are used for DMPs and numbers, as these are also exported for C++",
    "values read back from disk are compared by value and shape (a list comes back as an array, an integer as a number)",
]
NAMES = ["samples", "cost", "cost_vars", "cost_vars_2", "a", "distribution", "x_1", "dmp", "dmp_initial", "sigma_dmp", "update"]


@st.composite
def values(draw, dmp=False):
    k = draw(st.sampled_from(["dmp", "dmp", "float", "vector", "list"] if dmp else ["float", "int", "str", "vector", "matrix", "list", "rows", "arrays", "frame", "dict", "distribution", "dmp", "tuple", "npfloat", "scalar array"]))
    v = {"k": k}
    elem = st.one_of(real(-10.0, 10.0), st.floats(-1e12, 1e12), st.floats(-1e-12, 1e-12))
    if k in ("float", "npfloat", "scalar array"):
        v["v"] = draw(elem)
    elif k == "int":
        v["v"] = draw(st.integers(-1000, 1000))
    elif k == "str":
        v["v"] = draw(st.text("abc xyz_-.01", max_size=12))
    elif k in ("vector", "list", "tuple"):
        v["v"] = draw(vec(elem, draw(st.integers(0 if k == "list" else 1, 5))))
    elif k in ("matrix", "rows", "arrays", "frame"):
        r, c = draw(st.integers(1, 4)), draw(st.integers(1, 4))
        if k != "dict" and draw(st.integers(0, 9)) == 0:  # large (not all values are drawn)
            v["large"] = draw(st.sampled_from([101, 1001, 1500]))
        v["v"] = draw(vec(vec(elem, c), r))
    elif k in ("dict",):
        v["v"] = {n: draw(st.one_of(elem, vec(elem, 3), st.text("abc", max_size=4))) for n in draw(st.lists(st.sampled_from("abcd"), max_size=3, unique=True))}
    else:
        v["seed"] = draw(seeds())
        v["n"] = draw(st.integers(1, 3))
    return v


def build(v):
    k = v["k"]
    if "large" in v:
        c = len(v["v"][0])
        flat = np.resize(arr(v["v"]), (v["large"], c)) * (1.0 + np.arange(v["large"] * c).reshape(-1, c) / 7.0)
        v = {"k": k, "v": flat.tolist()}
    if k in ("float", "int", "str"):
        return v["v"]
    if k == "npfloat":
        return np.float64(v["v"])
    if k == "scalar array":
        return np.array(v["v"])
    if k in ("vector", "matrix"):
        return arr(v["v"])
    if k in ("list", "rows"):
        return copy.deepcopy(v["v"])
    if k == "tuple":
        return tuple(v["v"])
    if k == "arrays":
        return [arr(r) for r in v["v"]]
    if k == "frame":
        import pandas as pd

        M = arr(v["v"])
        return pd.DataFrame(M, columns=[f"c {i}" for i in range(M.shape[1])])
    if k == "dict":
        return copy.deepcopy(v["v"])
    rng = np.random.default_rng(v["seed"])
    n = v["n"]
    if k == "distribution":
        from dmpbbo.bbo.DistributionGaussian import DistributionGaussian

        A = rng.normal(size=(n, n))
        return DistributionGaussian(rng.normal(size=n), A @ A.T + np.eye(n))
    from dmpbbo.dmps.Dmp import Dmp

    return Dmp(float(rng.uniform(0.5, 2)), rng.normal(size=n), rng.normal(size=n), None)


def modify(obj):
    """Changes an object in place, as a caller may do with its own object."""
    if isinstance(obj, np.ndarray):
        obj += 1.0
    elif isinstance(obj, list):
        if obj and isinstance(obj[0], (list, np.ndarray)):
            obj[0][0] += 1.0
        else:
            obj.append(3.0)
    elif isinstance(obj, dict):
        obj["new"] = 1
        for x in obj.values():
            if isinstance(x, list):
                x[0] = 77.0
    elif type(obj).__name__ == "DataFrame":
        obj.iloc[0, 0] = 123.0
    elif type(obj).__name__ == "DistributionGaussian":
        obj.mean += 1.0
        obj.covar *= 2.0
    elif type(obj).__name__ == "Dmp":
        obj.y_attr = obj.y_attr + 1.0
        obj.tau = obj.tau * 2


def compare(got, v, msg):
    want = build(v)
    k = v["k"]
    info = dict(got=got, expected=want)
    if k in ("str", "dict", "tuple"):
        check(type(got) is type(want) and got == want, msg, **info)
    elif k in ("float", "int", "npfloat", "scalar array", "vector", "matrix", "list", "rows", "arrays"):
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            raise Violation(f"{msg}: not numeric " + short(info))
        same(g, np.asarray(want, dtype=float), msg)
    elif k == "frame":
        check(type(got).__name__ == "DataFrame" and list(got.columns) == list(want.columns), msg + ": columns", **info)
        g, w = got.to_numpy(dtype=float), want.to_numpy()
        check(g.shape == w.shape, msg + ": shape", **info)
        # the parser of pandas may be off by a bit, and by more if there are leading zeros
        check(np.all(np.abs(g - w) <= np.where(np.abs(w) < 0.1, 2e-12, 1e-15) * np.abs(w)), msg, **info)
    elif k == "distribution":
        check(type(got) is type(want), msg, **info)
        same(got.mean, want.mean, msg + ": mean")
        same(got.covar, want.covar, msg + ": covariance")
    else:
        check(type(got) is type(want), msg, **info)
        ts = np.linspace(0, 2, 12)
        close(got.analytical_solution(ts)[0], want.analytical_solution(ts)[0], msg + ": rollout of the Dmp", rtol=1e-12)


@st.composite
def keys(draw):
    return {
        "name": draw(st.sampled_from(NAMES)),
        "u": draw(st.sampled_from([None, None, 0, 1, 2, 12, 17, 100, 101, 1000, 1001, 10001, 99999, 100000])), "u_np": draw(st.booleans()),
        "s": draw(st.sampled_from([None, None, 0, 1, 12, 1000, 1001, "eval", "evaluation", "eval_2", "test"])), "s_np": draw(st.booleans()),
    }


def key_args(k):
    a = [k["name"]]
    u = np.int64(k["u"]) if k["u_np"] and k["u"] is not None else k["u"]
    s = np.int64(k["s"]) if k["s_np"] and isinstance(k["s"], int) else k["s"]
    return [k["name"], u, s]


@st.composite
def cases(draw):
    pool = draw(st.lists(keys(), min_size=1, max_size=4))
    for k in pool[1:]:  # often, keys differ in one place only
        part = draw(st.sampled_from([None, None, "u", "s", "name"]))
        if part is not None:
            k.update({f: pool[0][f] for f in ("u", "s", "name") if f != part})
    ops = []
    for _ in range(draw(size(2, 14, 40))):
        o = {"op": draw(st.sampled_from(["tell", "tell", "tell", "ask", "ask", "exists", "reload", "modify in", "modify out", "other reader"]))}
        o["key"] = draw(st.integers(0, len(pool) - 1))
        if o["op"] == "reload":
            o["touch"] = draw(st.booleans())
        if o["op"] == "tell":
            o["v"] = draw(values(dmp="dmp" in pool[o["key"]]["name"]))
        ops.append(o)
    return {"disk": draw(st.integers(0, 4)) > 0, "task": draw(st.booleans()), "keys": pool, "ops": ops,
            "n": draw(st.integers(1, 50)), "kwargs": draw(st.one_of(st.none(), values())), "dir": draw(st.sampled_from(["d", "d/e", "d [0-9]"]))}


def run(case, ctx):
    import dmpbbo.json_for_cpp as jc
    from dmpbbo.bbo.LearningSession import LearningSession
    from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask

    cls = LearningSessionTask if case["task"] else LearningSession
    pool = [k for i, k in enumerate(case["keys"])]
    # the same item may be addressed with Python or numpy integers
    ident = [(k["name"], k["u"], k["s"]) for k in pool]
    top = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        root = os.path.join(top, case["dir"]) if case["disk"] else None
        model = {}
        kw = {}
        if case["kwargs"] is not None:
            kw["settings"] = build(case["kwargs"])
            model[("settings", None, None)] = case["kwargs"]
        s = cls(case["n"], root, **kw)
        known = {("settings", None, None): ["settings", None, None]}
        for k, i in zip(pool, ident):
            known[i] = key_args(k)
        last_in, times, fresh = None, {}, {}
        nt = False

        def verify(session, what):
            for i, args in known.items():
                check(session.exists(*args) is (i in model), f"{what}: exists() is wrong", key=i, model=sorted(map(str, model)))
                if i in model:
                    compare(session.ask(*args), model[i], f"{what}: ask{i}")
                else:
                    try:
                        got = session.ask(*args)
                    except (KeyError, OSError):
                        pass
                    else:
                        raise Violation(f"{what}: ask{i}, which was never told, returned {got!r}")
            compare(session.ask("n_samples_per_update"), {"k": "int", "v": case["n"]}, f"{what}: n_samples_per_update")

        for o in case["ops"]:
            i, args = ident[o["key"]], key_args(pool[o["key"]])
            if o["op"] == "tell":
                last_in = build(o["v"])
                f = s.tell(last_in, *args)
                if case["disk"]:
                    check(os.path.isfile(str(f)), "tell does not return the name of the file", got=f)
                    if case["task"] and "dmp" in args[0]:
                        with open(os.path.splitext(str(f))[0] + "_for_cpp.json") as g:
                            for_cpp = json.load(g)
                        jc.savejson_for_cpp(os.path.join(top, "for_cpp.json"), build(o["v"]))
                        with open(os.path.join(top, "for_cpp.json")) as g:
                            check(for_cpp == json.load(g), "the file for C++ does not contain what was told last")
                if i in model:
                    nt = True
                    ctx.label("overwritten" + (" by another type" if model[i]["k"] != o["v"]["k"] else ""))
                model[i] = o["v"]
                ctx.label("tell " + o["v"]["k"])
            elif o["op"] == "modify in":
                if last_in is not None:
                    modify(last_in)
            elif o["op"] == "modify out":
                if i in model:
                    modify(s.ask(*args))
                    ctx.label("modified what was asked")
            elif o["op"] == "ask":
                if i in model:
                    compare(s.ask(*args), model[i], f"ask{i}")
            elif o["op"] == "exists":
                check(s.exists(*args) is (i in model), "exists() is wrong", key=i)
            elif o["op"] == "reload" and case["disk"]:
                s = cls.from_dir(root)
                nt = nt or bool(model)
                if o["touch"]:  # modify what is read from the files
                    for j in model:
                        modify(s.ask(*known[j]))
                ctx.label("reload")
            elif o["op"] == "other reader" and case["disk"]:
                verify(cls.from_dir(root), "another session on the same directory")
        ctx.nt(nt)
        verify(s, "session")
        verify(s, "session, asked again")
        if case["disk"]:
            verify(cls.from_dir(root), "reloaded session")
        else:
            ctx.label("in memory")
            root2 = os.path.join(top, "saved")
            s.save_all(root2)
            verify(cls.from_dir(root2), "session saved with save_all")
    finally:
        shutil.rmtree(top, ignore_errors=True)


SUBS = [Sub("histories", cases, run, quick=1600, thorough=40000, shards=8)]
