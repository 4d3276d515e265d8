"""C18: DMP schedules follow their training data and respect bounds."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.checks.c05 import grids
from vf.checks.c06 import dmp_spec_for, gating_ok
from vf.demos import demo_spec, demo_traj
from vf.dmps import build_dmp, build_fa, dmp_spec, fa_reference, fa_spec, ref_phase
from vf.gen import real, seeds, size, vec
from vf.fas import RefModel, fa_conf, make_fa
from vf.systems import arr

RULE = (
    "A case is a DMP with 1-3 schedules, bounds (none, one-sided, scalar or per dimension, list or array) and a sequence of calls; "
    "non-trivial: at least one schedule value lies strictly within and one outside of the bounds (or there are none), and the "
    "schedule is not constant"
)
ASSUMPTIONS = ["function approximators of the schedules are trained or have arbitrary parameters set"]


@st.composite
def bounds(draw, k, lo=-60.0, hi=60.0):
    """(kind, value) for min and max: None, a scalar, or one value per dimension."""
    a = draw(vec(real(lo, hi), k))
    b = draw(vec(real(lo, hi), k))
    mn = [min(x, y) for x, y in zip(a, b)]
    mx = [max(x, y) for x, y in zip(a, b)]
    out = {}
    for name, v, scal in (("min", mn, min(mn)), ("max", mx, max(mx))):
        kind = draw(st.sampled_from(["none", "scalar", "int", "array", "array", "list"]))
        out[name] = {"kind": kind, "v": v if kind in ("array", "list") else round(scal) if kind == "int" else scal}
    if out["min"]["kind"] == "int" or out["max"]["kind"] == "int":
        # rounding must not invert the bounds
        low = np.max(out["min"]["v"]) if out["min"]["kind"] != "none" else -1e9
        if out["max"]["kind"] == "int":
            out["max"]["v"] = int(max(out["max"]["v"], np.ceil(low))) if low > -1e9 else out["max"]["v"]
        elif out["max"]["kind"] != "none":
            out["min"]["v"] = int(np.floor(min(out["min"]["v"], np.min(out["max"]["v"]))))
    return out


def bound_kwargs(b):
    kw = {}
    for name in ("min", "max"):
        k, v = b[name]["kind"], b[name]["v"]
        if k != "none":
            kw[name + "_schedules"] = arr(v) if k == "array" else v
    return kw


def clip_ref(b, S):
    S = np.array(S, dtype=float)
    if b["min"]["kind"] != "none":
        S = np.maximum(S, np.broadcast_to(arr(b["min"]["v"]), S.shape))
    if b["max"]["kind"] != "none":
        S = np.minimum(S, np.broadcast_to(arr(b["max"]["v"]), S.shape))
    return S


def near(a, p, msg):
    close(a, p, msg, rtol=1e-10)


def within(b, S, msg):
    c = clip_ref(b, S)
    check(np.array_equal(c, S), msg + ": schedule outside of its bounds", got=S, bounds=b)


def make(s, sched_fas, b):
    from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules

    def cls(tau, y_init, y_attr, fas, **kw):
        return DmpWithSchedules(tau, y_init, y_attr, fas, sched_fas, **kw)

    return build_dmp(s, cls=cls, **bound_kwargs(b))


# ---------------------------------------------------------------------------------------------


@st.composite
def roll_cases(draw):
    k = draw(size(1, 3, 6))
    n_ops = draw(size(1, 5, 12))
    s = draw(dmp_spec(amp=100.0, max_dims=2, via=True))
    ops = []
    for _ in range(n_ops):
        o = draw(st.sampled_from(["analytical", "steps", "steps", "params", "repeat"]))
        op = {"op": o}
        if o == "analytical":
            op["grid"] = draw(grids(20))
        elif o == "steps":
            op["dts"] = draw(vec(real(0.001, 0.02), draw(st.integers(1, 6)))) * draw(st.sampled_from([1, 1, 5, 10]))
            if draw(st.booleans()):
                op["y_init"] = draw(vec(real(-3.0, 3.0), len(s["y_init"])))
        elif o == "params":
            op["scale"] = draw(st.sampled_from([1.0, 10.0, 1e4]))
            op["seed"] = draw(seeds())
        ops.append(op)
    return {"dmp": s, "sched": [draw(fa_spec(amp=100.0)) for _ in range(k)], "bounds": draw(bounds(k)), "ops": ops}


def run_roll(case, ctx):
    s, b = copy.deepcopy(case["dmp"]), case["bounds"]
    scheds = copy.deepcopy(case["sched"])
    k = len(scheds)
    dmp = make(s, [build_fa(f) for f in scheds], b)
    plain = build_dmp(s)
    tau = s["tau"]
    check(dmp.dim_schedules() == k, "dim_schedules")
    ctx.label(s["type"], f"{b['min']['kind']}-{b['max']['kind']}", f"{k} schedules")

    def ref(phase):
        phase = np.asarray(phase, dtype=float).reshape(-1)
        raw = np.array([fa_reference(f, phase) for f in scheds]).T
        return raw, clip_ref(b, raw)

    def compare(S, phase, what):
        raw, want = ref(phase)
        if S.ndim == 1:
            check(S.shape == (k,), what + ": shape", got=S.shape)
            S = S.reshape(1, -1)
        scale = np.max(np.abs(raw)) + max(max(np.max(np.abs(f.get(x, [0.0]))) for x in ("weights", "offsets", "slopes")) for f in scheds)
        close(S, want, what + ": schedules are not the (bounded) function of the phase", rtol=1e-9, scale=scale)
        within(b, S, what)
        hit = np.any(raw != want)
        free = np.any((raw == want))
        unbounded = b["min"]["kind"] == "none" and b["max"]["kind"] == "none"
        ctx.nt(raw.shape[0] > 1 and np.ptp(raw) > 1e-6 and (unbounded or (hit and free)))
        ctx.label("clipped" if hit else "free")

    for i, op in enumerate(case["ops"]):
        what = f"operation {i} ({op['op']})"
        if op["op"] == "analytical":
            ts = arr(op["grid"]) * tau
            xs, xds, S, forcing, fa_out = dmp.analytical_solution_sched(ts)
            check(S.shape == (ts.size, k), what + ": shape of the schedules")
            compare(S, ref_phase(s, ts), what)
            pxs, pxds, pf, pfa = plain.analytical_solution(ts)
            for a, p, w in ((xs, pxs, "states"), (xds, pxds, "rates"), (forcing, pf, "forcing terms"), (fa_out, pfa, "fa outputs")):
                near(a, p, what + f": {w} differ from those of a DMP without schedules")
            traj = dmp.states_as_trajectory_sched(ts, xs, xds, S)
            ptraj = plain.states_as_trajectory(ts, pxs, pxds)
            same(traj.misc, S, what + ": schedules in the trajectory")
            for w in ("ts", "ys", "yds", "ydds"):
                near(getattr(traj, w), getattr(ptraj, w), what + f": {w} of the trajectory")
        elif op["op"] == "steps":
            y0 = None
            if "y_init" in op:
                y0 = arr(op["y_init"])
            x, xd, S = dmp.integrate_start_sched(y0)
            px, pxd = plain.integrate_start(y0)
            near(x, px, what + ": start differs from that of a DMP without schedules")
            near(xd, pxd, what + ": rates at the start differ from those of a DMP without schedules")
            # the spring system's initial state is part of the configuration from now on
            if y0 is not None:
                s["y_init"] = [float(v) for v in y0]
            compare(S, ref_phase(s, [0.0]), what + " start")
            rows, phases = [S], [float(x[dmp.PHASE][0])]
            for dt in op["dts"]:
                x, xd, S = dmp.integrate_step_sched(dt * tau, x)
                px, pxd = plain.integrate_step(dt * tau, px)
                near(x, px, what + ": step differs from that of a DMP without schedules")
                near(xd, pxd, what + ": rates of a step differ from those of a DMP without schedules")
                check(S.shape == (k,), what + ": shape of the schedules of a step")
                rows.append(S)
                phases.append(float(x[dmp.PHASE][0]))
            compare(np.array(rows), phases, what)
        elif op["op"] == "params":
            # schedules with any parameters stay within bounds
            rng = np.random.default_rng(op["seed"])
            dmp.set_selected_param_names(["sched_weights"] if all(f["kind"] == "RBFN" for f in scheds) else ["sched_offsets"] if all(f["kind"] == "LWR" for f in scheds) else [])
            n = dmp.get_param_vector_size()
            v = rng.normal(size=n) * op["scale"] * 50
            dmp.set_param_vector(v)
            o = 0
            if n:
                ctx.label("set parameters")
                for f in scheds:
                    key = "weights" if f["kind"] == "RBFN" else "offsets"
                    f[key] = [float(z) for z in v[o : o + f["n"]]]
                    o += f["n"]
        else:
            ts = np.linspace(0, 1.2 * tau, 7)
            a = dmp.analytical_solution_sched(ts)[2]
            c = dmp.analytical_solution_sched(ts)[2]
            same(a, c, what + ": repeated rollouts give different schedules")


# ---------------------------------------------------------------------------------------------


@st.composite
def train_cases(draw):
    d = draw(demo_spec(max_dims=2))
    k = draw(size(1, 3, 6))
    return {
        "demo": d, "dmp": draw(dmp_spec_for(len(d["y0"]), own=False)), "k": k,
        "confs": [draw(fa_conf(1, kinds=("RBFN", "LWR", "LWR", "WLS"), data={"n": d["n"] // 3, "layout": "grid"})) for _ in range(k)],
        "coef": draw(vec(vec(real(-20.0, 20.0), 4), k)),
        "bounds": draw(bounds(k)),
        "how": draw(st.sampled_from(["misc", "schedules", "from_traj_misc", "from_traj_schedules"])),
        "fas": draw(fa_spec(big=7)), "again": draw(st.booleans()),
        "vector": draw(st.booleans()), "grid": draw(grids(15)),
    }


def sched_values(coef, u):
    return np.array([c[0] + c[1] * u + c[2] * np.sin(3.0 * u + c[3]) for c in coef]).T


def run_train(case, ctx):
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.dmps.DmpWithSchedules import DmpWithSchedules
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN

    s, d, k, b = copy.deepcopy(case["dmp"]), case["demo"], case["k"], case["bounds"]
    s = gating_ok(s, d["T"])
    traj = demo_traj(d)
    n = traj.dim
    S = sched_values(case["coef"], traj.ts / d["T"])
    mk = lambda: [FunctionApproximatorRBFN(case["fas"]["n"] + 2, case["fas"]["height"], 1e-6) for _ in range(n)]  # noqa
    sched_fas = [make_fa(c) for c in case["confs"]]
    kw = {"dmp_type": s.get("type_name", s["type"]), "forcing_term_scaling": s["scaling"], "alpha_spring_damper": s["alpha"]}
    ctx.label(case["how"], s["type"], f"{b['min']['kind']}-{b['max']['kind']}")
    how = case["how"]
    given = S.copy()
    args = {}
    if how in ("misc", "from_traj_misc"):
        traj.misc = given[:, 0] if (k == 1 and case["vector"]) else given
    else:
        args["schedules"] = given
        if case["vector"]:
            traj.misc = np.ones((traj.length, 2))  # schedules take precedence
    if how.startswith("from_traj"):
        dmp = DmpWithSchedules.from_traj_sched(traj, mk(), sched_fas, **kw, **bound_kwargs(b), **args)
        plain = Dmp.from_traj(traj, mk(), **kw)
    else:
        y0 = np.zeros(n)
        dmp = DmpWithSchedules(s["tau"], y0, y0 + 1.0, mk(), sched_fas, **kw, **bound_kwargs(b))
        plain = Dmp(s["tau"], y0, y0 + 1.0, mk(), **kw)
        if case["again"]:
            other = demo_traj(dict(d, g=[x + 0.3 for x in d["g"]]))
            dmp.train_sched(other, S[::-1].copy())
            plain.train(other)
            ctx.label("retrained")
        dmp.train_sched(traj, **args)
        plain.train(traj)
    same(given, S, "training changes the schedules")

    f = dict(s, tau=float(traj.ts[-1]))
    P = ref_phase(f, traj.ts).reshape(-1, 1)
    models = [RefModel(c, P, S[:, i]) for i, c in enumerate(case["confs"])]
    for ts, what in ((None, "at the training times"), (arr(case["grid"]) * f["tau"], "at other times")):
        xs, xds, got, forcing, fa_out = dmp.analytical_solution_sched(ts)
        ref = plain.analytical_solution(ts)
        for a, p, w in zip((xs, xds, forcing, fa_out), ref, ("states", "rates", "forcing terms", "fa outputs")):
            near(a, p, f"{w} {what} differ from those of a DMP without schedules")
        within(b, got, what)
        phase = P if ts is None else ref_phase(f, ts).reshape(-1, 1)
        for i, m in enumerate(models):
            if m.cond > 1e5:
                continue
            raw = m.predict(phase)
            want = clip_ref(b, np.tile(raw.reshape(-1, 1), (1, k)))[:, i]
            scale = np.max(np.abs(raw)) + np.max(np.abs(S[:, i])) + 1.0
            close(got[:, i], want, f"schedule {i} {what}", rtol=1e-12 * m.cond**2 + 1e-9, atol=0, scale=scale)
            unbounded = b["min"]["kind"] == "none" and b["max"]["kind"] == "none"
            ctx.nt(np.ptp(raw) > 1e-3 and (unbounded or (np.any(raw != want) and np.any(raw == want))))
            ctx.label("compared")
            if ts is None:
                # the bounded schedule follows the bounded training data as well as the model can
                resid = np.max(np.abs(raw - S[:, i]))
                ctx.label("good fit" if resid < 0.1 * np.ptp(S[:, i]) else "poor fit")
                close(got[:, i], clip_ref(b, S)[:, i], f"schedule {i} does not follow its training data", atol=resid * (1 + 1e-6), rtol=1e-12 * m.cond**2 + 1e-9, scale=scale)


SUBS = [
    Sub("rollouts", roll_cases, run_roll, quick=600, thorough=20000, shards=4),
    Sub("training", train_cases, run_train, quick=300, thorough=10000, shards=4),
]
