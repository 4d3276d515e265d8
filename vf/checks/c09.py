"""C09: parameter vectors round-trip and only touch what was selected."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, raises, same
from vf.dmps import dmp_spec, build_dmp
from vf.fas import data_spec, fa_conf, make_fa, make_inputs, make_targets, names_of
from vf.gen import change, changed, real, seeds
from vf.systems import arr

RULE = (
    "A case is a trained parameterizable object (WLS, RBFN, LWR, GPR of 1-2 inputs; DMP; DMP with schedules) and a history of "
    "selections (any subset of its parameters, in any order, as string or list), reads, writes of arbitrary values, writes of "
    "the wrong size, and re-trainings; non-trivial: new values were set for a selection after an earlier, different selection"
)


@st.composite
def ops_for(draw, names, retrain=True):
    ops = []
    extra = ["select", "set", "set_same", "bad", "get"] + (["retrain"] if retrain else [])
    kinds = []
    for k in ["select", "set", "select", "set"]:
        kinds += [k] + draw(st.lists(st.sampled_from(extra), max_size=2))
    for k in kinds[draw(st.integers(0, 1)) :]:
        op = {"op": k}
        if k == "select":
            sel = draw(st.lists(st.sampled_from(names), unique=True, max_size=len(names)))
            if len(sel) == 1 and draw(st.booleans()):
                op["names"] = sel[0]
            else:
                op["names"] = sel
        elif k in ("set", "retrain"):
            op["seed"] = draw(seeds())
            op["as"] = draw(st.sampled_from(["array", "array", "list", "reused"]))
            op["change"] = draw(change())
        elif k == "bad":
            op["delta"] = draw(st.sampled_from([-1, 1, 2]))
        ops.append(op)
    return ops


@st.composite
def fa_cases(draw):
    data = draw(data_spec())
    conf = draw(fa_conf(data["dims"], data=data, max_bfs=5))
    return {"data": data, "fa": conf, "ops": draw(ops_for(names_of(conf)))}


def new_values(rng, old, name=None):
    v = old + rng.normal(size=old.size) * (1.0 + np.abs(old))
    if name is not None and "widths" in name:
        v = np.abs(old) * rng.uniform(0.5, 2.0, old.size)
    return v


def as_list(names):
    return [names] if isinstance(names, str) else list(names)


class Model:
    """Dictionary from parameter name to values; the object must behave like it."""

    def __init__(self, obj, names):
        self.obj, self.names = obj, names
        self.selected = None
        self.changed = set()
        self.selections = 0
        self.nt = False
        self.refresh()

    def peek(self, name):
        """Values of one parameter, from a copy, so that the selection of the object is not changed."""
        c = copy.deepcopy(self.obj)
        c.set_selected_param_names(name)
        return np.array(c.get_param_vector(), dtype=float)

    def refresh(self):
        self.values = {n: self.peek(n) for n in self.names}

    def expected(self):
        raise NotImplementedError


class FaModel(Model):
    def expected(self):
        if not self.selected:
            return np.empty(0)
        return np.concatenate([self.values[n] for n in self.selected])

    def assign(self, v):
        o = 0
        for n in self.selected or []:
            k = self.values[n].size
            self.values[n] = v[o : o + k].copy()
            o += k

    def draw_values(self, rng):
        if not self.selected:
            return np.empty(0)
        return np.concatenate([new_values(rng, self.values[n], n) for n in self.selected])


def step(m, op, ctx, what, behaviour, retrain=None):
    obj = m.obj
    k = op["op"]
    ctx.label(k)
    if k == "select":
        obj.set_selected_param_names(op["names"])
        sel = m.order(as_list(op["names"])) if hasattr(m, "order") else as_list(op["names"])
        if m.selected is not None and sel != m.selected:
            m.selections += 1
        m.selected = sel
    elif k == "set":
        v = m.draw_values(np.random.default_rng(op["seed"]))
        if v.size:
            v = np.array(changed(op["change"], m.expected(), v))
        v0 = v.copy()
        obj.set_param_vector(list(v) if op["as"] == "list" else v)
        m.assign(v)
        if op["as"] == "reused":
            v += 1e3  # the caller reuses the array
        else:
            same(v, v0, what + ": setting changes the vector passed")
        m.nt = m.nt or (m.selections > 0 and v.size > 0)
    elif k == "set_same":
        before = behaviour(obj)
        obj.set_param_vector(obj.get_param_vector())
        for a, b in zip(behaviour(obj), before):
            same(a, b, what + ": setting the current values changes the behaviour")
    elif k == "bad":
        n = m.expected().size + op["delta"]
        if n >= 0:
            before = behaviour(obj)
            raises(ValueError, lambda: obj.set_param_vector(np.full(n, 7.0)), what + ": vector of the wrong size")
            for a, b in zip(behaviour(obj), before):
                same(a, b, what + ": rejected vector changes the behaviour")
    elif k == "get":
        v = obj.get_param_vector()
        if isinstance(v, np.ndarray) and v.size:
            v += 55.0  # belongs to the caller
    elif k == "retrain":
        retrain(op["seed"])
        m.refresh()
    exp = m.expected()
    got = obj.get_param_vector()
    size = obj.get_param_vector_size()
    check(size == exp.size and isinstance(size, (int, np.integer)), what + ": advertised size", size=size, expected=exp.size)
    same(np.asarray(got, dtype=float), exp, what + ": parameter vector")
    for n in m.names:
        same(m.peek(n), m.values[n], f"{what}: values of parameter '{n}'")


def run_fa(case, ctx):
    data, conf = case["data"], case["fa"]
    X = make_inputs(data)
    y = make_targets(data, X)
    fa = make_fa(conf, data)
    ctx.label(conf["kind"])
    check(fa.get_param_vector_size() == 0, "size of the parameter vector before anything is selected")
    fa.train(X, y)
    XP = make_inputs(data, seed=data["seed"] + 9, n=15)

    def behaviour(o):
        return [o.predict(XP)]

    def retrain(seed):
        d = dict(data, seed=seed)
        Xn = make_inputs(d)
        fa.train(Xn, make_targets(d, Xn))

    m = FaModel(fa, names_of(conf))
    sel0 = fa.get_param_vector_size()
    check(sel0 == 0, "size of the parameter vector before anything is selected")
    m.selected = None
    for i, op in enumerate(case["ops"]):
        step(m, op, ctx, f"operation {i} ({op['op']})", behaviour, retrain)
        # Behaviour is that of an object with these parameters
        twin = make_fa(conf, data)
        if conf["kind"] == "GPR":
            continue
        twin.train(X, y)
        for n in m.names:
            twin.set_selected_param_names(n)
            twin.set_param_vector(m.values[n])
        same(twin.predict(XP), fa.predict(XP), f"operation {i}: predictions differ from those of a model with these parameters")
    ctx.nt(m.nt)


@st.composite
def dmp_cases(draw):
    s = draw(dmp_spec(max_dims=2, fas="yes", amp=100.0))
    n = len(s["y_init"])
    kind = draw(st.sampled_from(["RBFN", "LWR"]))
    for f in s["fas"]:
        f["kind"] = kind
        f["n"] = min(f["n"], 4)
        for k in ("weights", "offsets", "slopes"):
            f.pop(k, None)
        if kind == "RBFN":
            f["weights"] = draw(st.lists(real(-50, 50), min_size=f["n"], max_size=f["n"]))
        else:
            f["offsets"] = draw(st.lists(real(-50, 50), min_size=f["n"], max_size=f["n"]))
            f["slopes"] = draw(st.lists(real(-50, 50), min_size=f["n"], max_size=f["n"]))
    names = {"RBFN": ["centers", "widths", "weights"], "LWR": ["centers", "widths", "slopes", "offsets"]}[kind] + ["goal"]
    c = {"dmp": s, "kind": kind}
    if draw(st.booleans()):
        c["sched"] = {"n": draw(st.integers(1, 2)), "bfs": draw(st.integers(1, 4)), "kind": draw(st.sampled_from(["RBFN", "LWR"]))}
        names = names + ["sched_" + x for x in {"RBFN": ["centers", "widths", "weights"], "LWR": ["centers", "widths", "slopes", "offsets"]}[c["sched"]["kind"]]]
    c["names"] = names
    c["ops"] = draw(ops_for(names, retrain=False))
    c["again"] = draw(st.integers(0, 3)) == 0
    return c


class DmpModel(Model):
    """The vector contains, per function approximator, the selected parameters; then the goal; then the schedules."""

    def __init__(self, obj, names, n_dims, n_sched):
        self.n_dims, self.n_sched = n_dims, n_sched
        super().__init__(obj, names)

    def pieces(self):
        """(name, index of function approximator or None) in the order of the vector."""
        sel = self.selected or []
        out = []
        for i in range(self.n_dims):
            out += [(n, i) for n in sel if n != "goal" and not n.startswith("sched_")]
        if "goal" in sel:
            out.append(("goal", None))
        for i in range(self.n_sched):
            out += [(n, i) for n in sel if n.startswith("sched_")]
        return out

    def part(self, name, i):
        """Slice of values[name] that belongs to function approximator i."""
        v = self.values[name]
        if i is None:
            return slice(0, v.size)
        sizes = self.fa_sizes(name)
        o = int(np.sum(sizes[:i]))
        return slice(o, o + sizes[i])

    def fa_sizes(self, name):
        fas = self.sizes
        return fas["sched"] if name.startswith("sched_") else fas["fa"]

    def expected(self):
        p = [self.values[n][self.part(n, i)] for n, i in self.pieces()]
        return np.concatenate(p) if p else np.empty(0)

    def assign(self, v):
        o = 0
        for n, i in self.pieces():
            sl = self.part(n, i)
            k = sl.stop - sl.start
            self.values[n][sl] = v[o : o + k]
            o += k

    def draw_values(self, rng):
        p = [new_values(rng, self.values[n][self.part(n, i)], n) for n, i in self.pieces()]
        return np.concatenate(p) if p else np.empty(0)


def run_dmp(case, ctx):
    from vf.dmps import build_fa

    s = case["dmp"]
    n = len(s["y_init"])
    sched = case.get("sched")
    if sched:
        from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules

        fs = {"kind": sched["kind"], "n": sched["bfs"], "height": 0.6, "weights": [1.0 + i for i in range(sched["bfs"])], "offsets": [2.0 + i for i in range(sched["bfs"])], "slopes": [0.5] * sched["bfs"]}
        fas_s = [build_fa(fs) for _ in range(sched["n"])]

        class Maker:
            def __new__(cls, tau, y0, g, fas, **kw):
                return DmpWithSchedules(tau, y0, g, fas, fas_s, **kw)

        dmp = build_dmp(s, cls=Maker)
    else:
        dmp = build_dmp(s)
    ctx.label(s["type"], "schedules" if sched else "no schedules")
    ts = np.linspace(0, 1.3 * s["tau"], 12)

    def behaviour(o):
        xs, xds, f, _ = o.analytical_solution(ts)
        out = [xs, xds, f]
        if sched:
            out.append(o.analytical_solution_sched(ts)[2])
        return out

    # what was selected when the function approximators were made does not matter
    dmp.set_selected_param_names([])
    m = DmpModel(dmp, case["names"], n, sched["n"] if sched else 0)
    m.sizes = {"fa": [f["n"] for f in s["fas"]], "sched": [sched["bfs"]] * sched["n"] if sched else []}
    m.selected = []
    for nm in case["names"]:
        size = n if nm == "goal" else sum(m.fa_sizes(nm))
        check(m.values[nm].size == size, f"size of the parameter vector for '{nm}'", got=m.values[nm].size, expected=size)
    same(m.values["goal"], arr(s["y_attr"]), "parameter 'goal' is the attractor state")
    for i, op in enumerate(case["ops"]):
        step(m, op, ctx, f"operation {i} ({op['op']})", behaviour)
        same(np.asarray(dmp.y_attr, float), m.values["goal"], f"operation {i}: goal")
        if case["again"]:
            dmp.analytical_solution(ts)
            dmp.integrate_start()
    ctx.nt(m.nt)


@st.composite
def untrained_cases(draw):
    return {"dims": draw(st.integers(1, 3)), "trained": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
            "names": draw(st.lists(st.sampled_from(["weights", "offsets", "goal"]), unique=True)), "seed": draw(seeds()), "none": draw(st.integers(0, 4)) == 0}


def run_untrained(case, ctx):
    """The parameters of function approximators that are not trained are not in the parameter vector of a DMP."""
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN

    rng = np.random.default_rng(case["seed"])
    lwr = "offsets" in case["names"]
    names = [n for n in case["names"] if not (lwr and n == "weights")]
    d = case["dims"]
    n_bfs = [int(rng.integers(1, 6)) for _ in range(d)]
    fas = [(FunctionApproximatorLWR if lwr else FunctionApproximatorRBFN)(n, 0.7) for n in n_bfs]
    trained = [i for i in range(d) if case["trained"][i] and not case["none"]]
    for i in trained:
        x = np.linspace(0, 1, 30)
        fas[i].train(x, rng.normal(size=30))
    goal = rng.normal(size=d)
    dmp = Dmp(1.0, np.zeros(d), goal, None if case["none"] else fas)
    dmp.set_selected_param_names(names)
    size = sum(n_bfs[i] for i in trained if set(names) - {"goal"}) + (d if "goal" in names else 0)
    check(dmp.get_param_vector_size() == size, "advertised size", got=dmp.get_param_vector_size(), expected=size)
    v = dmp.get_param_vector()
    check(v.shape == (size,), "size of the parameter vector", got=v.shape, expected=size)
    new = rng.normal(size=size)
    dmp.set_param_vector(new.copy())
    same(dmp.get_param_vector(), new, "parameter vector set and got")
    same(dmp.y_attr, new[size - d :] if "goal" in names else goal, "goal")
    for bad in (size + 1, size - 1):
        if bad >= 0:
            raises(ValueError, lambda: dmp.set_param_vector(rng.normal(size=bad)), f"{bad} values instead of {size}")
    same(dmp.get_param_vector(), new, "parameter vector after rejecting values")
    ctx.label("no function approximators" if case["none"] else f"{len(trained)} of {d} trained")
    ctx.nt(len(trained) < d)


SUBS = [
    Sub("function_approximators", fa_cases, run_fa, quick=700, thorough=20000, shards=4),
    Sub("untrained", untrained_cases, run_untrained, quick=300, thorough=4000, shards=1, rule="a function approximator is not trained"),
    Sub("dmps", dmp_cases, run_dmp, quick=500, thorough=15000, shards=4),
]
