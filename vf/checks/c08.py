"""C08: a reconfigured or retrained DMP equals a freshly built one."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, raises, same
from vf.demos import demo_spec, demo_traj
from vf.dmps import build_dmp, dmp_spec, eff, family, kink, movement_scale, sigmoid_gating
from vf.gen import change, changed, log_real, real, size, vec
from vf.systems import arr

RULE = (
    "A case is a DMP (all types, scalings, forcing terms) and a history of up to 12 operations on it (set tau, initial state, "
    "goal, parameters of subsystems; train on a demonstration; closed-form rollouts; integration with and without new initial state; rejected changes); "
    "non-trivial: at least two changes with a rollout or an integration in between"
)

FA = {"kind": "RBFN", "n": 5, "height": 0.6}


@st.composite
def cases(draw):
    # Many basis functions only if they are not trained: their weights would follow from rounding
    trains = draw(st.integers(0, 3)) > 0
    s = draw(dmp_spec(max_dims=2, custom=True, big=7 if trains else 20))
    n = len(s["y_init"])
    ops = []
    for _ in range(draw(size(2, 12, 25))):
        kind = draw(
            st.sampled_from(
                ["tau", "y_init", "y_attr", "train" if trains else "tau", "rollout", "rollout", "integrate", "start", "start_new", "bad", "decouple", "params", "dyn", "dyn bad"]
            )
        )
        op = {"op": kind}
        if kind in ("tau", "y_init", "y_attr", "start_new"):
            op["change"] = draw(change(1e-6))
        if kind == "tau":
            op["value"] = draw(log_real(0.6, 1.6))  # factor on the initial tau
        elif kind in ("y_init", "y_attr", "start_new"):
            op["value"] = draw(vec(real(-3.0, 3.0), n))
        elif kind == "train":
            op["demo"] = draw(demo_spec(n=n, n_min=30, n_max=40))
            op["T"] = draw(log_real(0.6, 1.6))
            op["new_fas"] = draw(st.sampled_from(["keep", "keep", "RBFN", "LWR"]))
            op["again"] = draw(st.sampled_from([False, False, True]))  # on the same trajectory as before
            op["save"] = draw(st.booleans())
        elif kind == "rollout":
            op["suppress"] = draw(st.booleans())
            op["end"] = draw(real(0.2, 2.0))
        elif kind == "integrate":
            op["steps"] = draw(st.integers(1, 8))
            op["method"] = draw(st.sampled_from(["euler", "rk", "integrate"]))
        elif kind == "bad":
            op["which"] = draw(st.sampled_from(["y_init", "y_attr"]))
        elif kind == "params":
            op["scale"] = draw(real(-2.0, 2.0))
        elif kind == "dyn":
            op["systems"] = draw(st.sampled_from([["goal_system"], ["spring_system"], ["goal_system", "spring_system"]]))
            op["factor"] = draw(real(0.6, 1.7))
        elif kind == "dyn bad":
            op["which"] = draw(st.sampled_from(["unknown system", "unknown parameter", "no such system"]))
        ops.append(op)
    return {"dmp": s, "ops": ops}


def fresh_dmp(m, fas):
    """A new DMP in the configuration of the model."""
    kw = {}
    if sigmoid_gating(m):
        # The rate of the sigmoid is not changed by setting tau
        from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem

        D = 1e-6
        rate = -np.log(((1 + D) / 0.1 - 1) / D) / m["tau0"]
        kw["gating_system"] = SigmoidSystem(m["tau"], np.ones(1), rate, -np.log(1 / D) / rate / m["tau0"])
    return build_dmp(m, fas=fas, **kw)


def set_systems(m, op):
    """Parameters of the subsystems to be set; the model is changed accordingly."""
    params, c = {}, copy.deepcopy(m.get("custom", {}))
    if "goal_system" in op["systems"]:
        f = family(m["type"])
        if "goal" not in c and f != "ijs":
            c["goal"] = {"kind": "exp", "ratio": 1.0, "alpha": 15.0} if f == "kul" else {"kind": "richards", "ratio": 1.0, "alpha": 10.0}
        if "goal" in c:
            c["goal"]["alpha"] = float(np.clip(c["goal"]["alpha"] * op["factor"], 5.0, 20.0))
            params["goal_system"] = {"alpha": c["goal"]["alpha"]}
            m["custom"] = c
    if "spring_system" in op["systems"] and "damping" not in c and "DAMPING" not in m["type"]:
        m["alpha"] = float(np.clip(m["alpha"] * op["factor"], 10.0 * m.get("mass", 1.0), 40.0 * m.get("mass", 1.0)))
        d = m["alpha"] * arr(m["stiff"]) if "stiff" in m else m["alpha"]
        params["spring_system"] = {"damping_coefficient": d, "spring_constant": d * d / (4 * m.get("mass", 1.0))}
    return params


def make_fas(kind, n):
    from vf.checks.c06 import make_fas as mk

    return mk([dict(FA, kind=kind)] * n)


def compare(dmp, m, fas, what):
    ref = fresh_dmp(m, fas)
    same(np.asarray(dmp.y_init), arr(m["y_init"]), what + ": y_init is not the value last set")
    same(np.asarray(dmp.y_attr), arr(m["y_attr"]), what + ": y_attr is not the value last set")
    same(dmp.tau, m["tau"], what + ": tau is not the value last set")
    if m.get("ts_train") is not None:
        same(dmp.ts_train, arr(m["ts_train"]), what + ": ts_train")
    ts = np.linspace(0.0, 1.317 * m["tau"], 40)
    M = movement_scale(dict(m, fas=None)) + np.max(np.abs(m["y_init"])) + 1.0
    got, exp = dmp.analytical_solution(ts), ref.analytical_solution(ts)
    fs = np.max(np.abs(exp[3])) + 1.0
    k = eff(m) ** 2 / 4
    amp = max(1.0, fs * (1 + np.max(np.abs(arr(m["y_attr"]) - arr(m["y_init"]))) + np.max(np.abs(m.get("amplitudes", 0.0)))))
    M = M + 2 * amp / k
    close(got[3], exp[3], what + ": function approximator outputs differ from those of a new DMP", rtol=1e-9, scale=fs)
    close(got[2], exp[2], what + ": forcing terms differ from those of a new DMP", rtol=1e-9, scale=amp)
    close(got[0], exp[0], what + ": states differ from those of a new DMP", rtol=1e-9, scale=M * eff(m))
    if kink(m) is not None:  # the rate of the phase at the time at which it stops is either of two
        at = np.abs(ts - kink(m)) <= 1e-9 * m["tau"]
        got[1][at, dmp.PHASE] = exp[1][at, dmp.PHASE]
    close(got[1] * m["tau"], exp[1] * m["tau"], what + ": rates differ from those of a new DMP", rtol=1e-9, scale=M * k)
    dt = 0.0213 * m["tau"]
    a, b = copy.deepcopy(dmp), ref
    (x, xd), (rx, rxd) = a.integrate_start(), b.integrate_start()
    for i in range(4):
        close(x, rx, f"{what}: state after {i} integration steps differs from that of a new DMP", rtol=1e-9, scale=M * eff(m))
        close(xd * m["tau"], rxd * m["tau"], f"{what}: rates after {i} integration steps differ from those of a new DMP", rtol=1e-9, scale=M * k)
        x, xd = a.integrate_step_runge_kutta(dt, x)
        rx, rxd = b.integrate_step_runge_kutta(dt, rx)


def run(case, ctx):
    s = case["dmp"]
    n = len(s["y_init"])
    dmp = build_dmp(s)
    m = dict(copy.deepcopy(s), tau0=s["tau"])
    from vf.dmps import build_fa

    fas = [build_fa(f) for f in s["fas"]] if s["fas"] else None
    kind, last = None, None
    changes, between = 0, False
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        what = f"after operation {i} ({k})"
        ctx.label(k)
        if k == "tau":
            m["tau"] = float(changed(op["change"], m["tau"], s["tau"] * op["value"]))
            dmp.tau = m["tau"]
        elif k == "y_init":
            m["y_init"] = changed(op["change"], arr(m["y_init"]), arr(op["value"])).tolist()
            dmp.y_init = arr(m["y_init"])
        elif k == "y_attr":
            m["y_attr"] = changed(op["change"], arr(m["y_attr"]), arr(op["value"])).tolist()
            dmp.y_attr = arr(m["y_attr"])
        elif k == "train":
            d = dict(op["demo"], T=s["tau"] * op["T"])
            if last is None or not op["again"]:
                last = demo_traj(d)
            traj = last
            kw = {"save_training_data": True} if op["save"] else {}
            if op["new_fas"] != "keep" and (fas is not None or True):
                kind = op["new_fas"]
                kw["function_approximators"] = make_fas(kind, n)
            m.update(tau=float(traj.ts[-1]), y_init=list(map(float, traj.ys[0])), y_attr=list(map(float, traj.ys[-1])))
            m["amplitudes"] = [float(x) for x in traj.ys.max(axis=0) - traj.ys.min(axis=0)]
            m["ts_train"] = [float(t) for t in traj.ts]
            dmp.train(traj, **kw)
            if kind is not None:
                fas = make_fas(kind, n)
            elif fas is not None:
                fas = [build_fa_untrained(f) for f in s["fas"]]
            fresh_dmp(m, fas).train(traj)
        elif k == "rollout":
            ts = np.linspace(0.0, op["end"] * m["tau"], 25)
            r1 = dmp.analytical_solution(ts, op["suppress"])
            r2 = dmp.analytical_solution(ts, op["suppress"])
            for u, v in zip(r1, r2):
                same(v, u, what + ": rolling out twice gives different results")
            between = between or changes > 0
        elif k == "integrate":
            dt = 0.031 * m["tau"]
            if op["method"] == "integrate":
                ts = np.arange(op["steps"] + 1) * dt
                dmp.integrate(ts)
            else:
                x, _ = dmp.integrate_start()
                for _ in range(op["steps"]):
                    x0 = x.copy()
                    nx, _ = (dmp.integrate_step_euler if op["method"] == "euler" else dmp.integrate_step)(dt, x)
                    same(x, x0, what + ": an integration step changes the state passed")
                    x = nx
            between = between or changes > 0
        elif k == "start":
            x, xd = dmp.integrate_start()
            x *= 1.7  # belongs to the caller
            xd += 3.0
        elif k == "start_new":
            m["y_init"] = changed(op["change"], arr(m["y_init"]), arr(op["value"])).tolist()
            x, _ = dmp.integrate_start(arr(m["y_init"]))
            close(x[dmp.SPRING_Y], arr(m["y_init"]), what + ": integration does not start at the new initial state", rtol=0, atol=0)
        elif k == "bad":
            def set_wrong():
                setattr(dmp, op["which"], np.zeros(n + 1))

            raises(ValueError, set_wrong, what + ": state of the wrong size")
        elif k == "dyn":
            params = set_systems(m, op)
            dmp.set_params_dyn_sys(params)
            changes += bool(params)
        elif k == "dyn bad":
            bad = {"unknown system": {"goal": {"alpha": 3.0}}, "unknown parameter": {"spring_system": {"alpha": 3.0}}}.get(op["which"])
            if op["which"] == "no such system":
                bad = {"damping_system": {"alpha": 3.0}} if "DAMPING" not in m["type"] and "damping" not in m.get("custom", {}) else None
            if bad:
                raises(Exception, lambda: dmp.set_params_dyn_sys(bad), what + ": parameters that do not exist")
        elif k == "decouple":
            dmp.decouple_parameters()
        elif k == "params" and fas is not None:
            nm = "weights" if (kind or s["fas"][0]["kind"]) == "RBFN" and all(f["kind"] == "RBFN" for f in (s["fas"] or [])) or kind == "RBFN" else None
            if nm:
                dmp.set_selected_param_names(nm)
                v = dmp.get_param_vector() * op["scale"]
                dmp.set_param_vector(v)
                for f in fas:
                    f.set_selected_param_names(nm)
                    f.set_param_vector(f.get_param_vector() * op["scale"])
        if k in ("tau", "y_init", "y_attr", "train", "start_new"):
            changes += 1
        if i % 3 == 2:
            compare(dmp, m, fas, what)
    compare(dmp, m, fas, "at the end")
    ctx.label(s["type"], s["scaling"], "subsystems of the user" if "custom" in s else "default subsystems")
    ctx.nt(changes >= 2 and between)


def build_fa_untrained(f):
    from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN

    return (FunctionApproximatorRBFN if f["kind"] == "RBFN" else FunctionApproximatorLWR)(f["n"], f["height"])


SUBS = [Sub("histories", cases, run, quick=1200, thorough=40000, shards=8)]
