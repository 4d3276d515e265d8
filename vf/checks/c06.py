"""C06: a DMP trained on a demonstration reproduces it."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.demos import RecordingFA, demo_spec, demo_traj
from vf.dmps import build_dmp, custom_systems, dmp_spec, eff, effs, ref_damping, ref_gating, ref_goal, ref_phase
from vf.gen import real, vec
from vf.systems import arr

RULE = (
    "A case is a smooth demonstration (1-3 dimensions, any duration, uniform or not), a DMP (all types and scalings, initially "
    "configured for a different movement) and function approximators; non-trivial: the demonstration differs from the "
    "movement without forcing term by more than 5% of its range"
)


@st.composite
def target_cases(draw):
    d = draw(demo_spec(units=True))
    return {"demo": d, "dmp": draw(dmp_spec_for(len(d["y0"]))), "from_traj": draw(st.booleans())}


@st.composite
def dmp_spec_for(draw, n, own=True):
    s = draw(dmp_spec(max_dims=1, fas="none"))
    for k in ("y_init", "y_attr"):
        s[k] = [s[k][0]] * n
    if "amplitudes" in s:
        s["amplitudes"] = s["amplitudes"] * n
    if own and draw(st.integers(0, 3)) == 0:
        s["custom"] = draw(custom_systems(s, lo=1.0))  # the phase does not stop during the demonstration
    if own and draw(st.integers(0, 3)) == 0:
        s["stiff"] = draw(vec(real(0.7, 1.4), n))  # damping coefficients differ between dimensions
    return s


def final_spec(s, d, traj):
    """The specification of the DMP after training on the demonstration."""
    f = dict(s, tau=float(traj.ts[-1]), y_init=[float(x) for x in traj.ys[0]], y_attr=[float(x) for x in traj.ys[-1]])
    f["gating_tau"] = s["tau"]
    if s["scaling"] == "AMPLITUDE_SCALING":
        f["amplitudes"] = [float(x) for x in traj.ys.max(axis=0) - traj.ys.min(axis=0)]
    return f


def ref_targets(f, traj, gating_tau):
    ts, tau = traj.ts, f["tau"]
    k = effs(f) ** 2 / 4
    raw = tau**2 * traj.ydds + k * (traj.ys - ref_goal(f, ts)) + ref_damping(f, ts) * tau * traj.yds
    t = raw / np.asarray(ref_gating(f, ts, gating_tau)).reshape(-1, 1)
    if f["scaling"] == "G_MINUS_Y0_SCALING":
        t = t / (arr(f["y_attr"]) - arr(f["y_init"]))
    elif f["scaling"] == "AMPLITUDE_SCALING":
        t = t / arr(f["amplitudes"])
    return t, raw


def make_and_train(case, traj, fas, **kwargs):
    """Via from_traj, or by training a DMP made for a different movement. Returns dmp and tau at construction."""
    s = case["dmp"]
    if case["from_traj"] and not any(k in s for k in ("mass", "custom", "stiff")):
        from dmpbbo.dmps.Dmp import Dmp

        kw = {"dmp_type": s.get("type_name", s["type"]), "forcing_term_scaling": s["scaling"]}
        if s["alpha"] != 20.0:
            kw["alpha_spring_damper"] = s["alpha"]
        return Dmp.from_traj(traj, fas, **kw, **kwargs), float(traj.ts[-1])
    dmp = build_dmp(s, fas=fas)
    dmp.train(traj, **kwargs)
    return dmp, s["tau"]


def gating_ok(s, T):
    """The sigmoid gating does not scale well with tau: keep to demonstrations of similar duration."""
    if s["type"].startswith(("K", "C")):
        s["tau"] = float(T) * min(1.15, max(0.6, s["tau"]))
    return s


def run_targets(case, ctx):
    case = copy.deepcopy(case)
    s, d = case["dmp"], case["demo"]
    s = gating_ok(s, d["T"])
    traj = demo_traj(d)
    before = [a.copy() for a in (traj.ts, traj.ys, traj.yds, traj.ydds)]
    n = traj.dim
    fas = [RecordingFA() for _ in range(n)]
    dmp, tau0 = make_and_train(case, traj, fas)
    for a, b in zip((traj.ts, traj.ys, traj.yds, traj.ydds), before):
        same(a, b, "training changes the demonstration")
    same(dmp.tau, traj.ts[-1], "tau is not the duration of the demonstration")
    same(dmp.y_init, traj.ys[0], "initial state is not that of the demonstration")
    same(dmp.y_attr, traj.ys[-1], "goal is not the final state of the demonstration")
    same(dmp.ts_train, traj.ts, "ts_train")
    f = final_spec(s, d, traj)
    targets, raw = ref_targets(f, traj, tau0)
    gating = np.asarray(ref_gating(f, traj.ts, tau0))
    for i in range(n):
        check(len(fas[i].trainings) == 1, "number of trainings of the function approximator")
        x, t = fas[i].trainings[0]
        close(x.reshape(-1), ref_phase(f, traj.ts), "inputs for the function approximator are not the phases", rtol=1e-9)
        amp = np.max(np.abs(raw[:, i]) + eff(f) ** 2 / 4 * d["unit"]) / (gating if np.ndim(gating) else 1.0)
        if f["scaling"] == "G_MINUS_Y0_SCALING":
            amp = amp / abs(f["y_attr"][i] - f["y_init"][i])
        elif f["scaling"] == "AMPLITUDE_SCALING":
            amp = amp / f["amplitudes"][i]
        close(t.reshape(-1), targets[:, i], "targets for the function approximator", rtol=2e-6, scale=amp)

    ctx.label(s["type"], s["scaling"])
    # With an exact function approximator, only the integration error remains
    R = np.max(np.abs(traj.ys - traj.ys[0]), axis=0) + 0.1 * d["unit"]
    e = []
    for refine in (1, 2, 4):
        demo = demo_traj(d, 4 * refine)
        fas = [RecordingFA() for _ in range(n)]
        dmp, _ = make_and_train(case, demo, fas)
        xs, xds, _, _ = dmp.analytical_solution(demo.ts)
        rep = dmp.states_as_trajectory(demo.ts, xs, xds)
        e.append(float(np.max(np.abs(rep.ys - demo.ys) / R)))
    check(np.all(np.isfinite(e)), "reproduction is not finite")
    check(e[2] < 0.2 and e[1] < 0.8 * e[0] + 0.01 and e[2] < 0.75 * e[1] + 0.005, "reproduction with an exact function approximator does not converge to the demonstration", errors=e)
    free, _, _, _ = dmp.analytical_solution(demo.ts, suppress_forcing_term=True)
    ctx.nt(np.any(np.abs(free[:, dmp.SPRING_Y] - demo.ys) > 0.05 * R))
    xs2 = dmp.analytical_solution()[0]
    same(xs2, xs, "analytical solution without times is not the one on the times of the demonstration")


@st.composite
def fit_cases(draw):
    d = draw(demo_spec(max_dims=2, units=True))
    n = len(d["y0"])
    fas = []
    for _ in range(n):
        k = draw(st.sampled_from(["RBFN", "RBFN", "LWR", "LWR", "WLS"]))
        f = {"kind": k, "n": draw(st.integers(3, 25))}
        if k == "LWR":  # each local regression has samples
            f["n"] = min(f["n"], d["n"] // 4)
        if k in ("RBFN", "LWR"):
            f["height"] = draw(st.sampled_from([0.5, 0.7, 0.85]))
        fas.append(f)
    return {"demo": d, "dmp": draw(dmp_spec_for(n)), "from_traj": draw(st.booleans()), "fas": fas, "again": draw(st.booleans())}


def make_fas(spec):
    from dmpbbo.functionapproximators.FunctionApproximatorLWR import FunctionApproximatorLWR
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN
    from dmpbbo.functionapproximators.FunctionApproximatorWLS import FunctionApproximatorWLS

    out = []
    for f in spec:
        if f["kind"] == "RBFN":
            out.append(FunctionApproximatorRBFN(f["n"], f["height"]))
        elif f["kind"] == "LWR":
            out.append(FunctionApproximatorLWR(f["n"], f["height"]))
        else:
            out.append(FunctionApproximatorWLS(True))
    return out


def run_fit(case, ctx):
    case = copy.deepcopy(case)
    s, d = case["dmp"], case["demo"]
    s = gating_ok(s, d["T"])
    traj = demo_traj(d, 2)
    n = traj.dim
    exact, tau0 = make_and_train(case, traj, [RecordingFA() for _ in range(n)])
    fas = make_fas(case["fas"])
    if case["again"]:
        # The function approximators are passed when training instead
        dmp = build_dmp(s, fas=None)
        dmp.train(traj, function_approximators=fas)
        tau0 = s["tau"]
    else:
        dmp, tau0 = make_and_train(case, traj, fas)
    for f in case["fas"]:
        ctx.label(f["kind"])
    xs, xds, forcing, fa_out = dmp.analytical_solution()
    f = final_spec(s, d, traj)
    targets, raw = ref_targets(f, traj, tau0)
    residual = np.max(np.abs(forcing - raw), axis=0)
    k = np.min(effs(f)) ** 2 / 4
    gain = 5.0 if "DAMPING" in s["type"] or "damping" in s.get("custom", {}) else 1.1
    ex_xs, _, ex_forcing, _ = exact.analytical_solution()
    err = np.abs(xs[:, dmp.SPRING_Y] - traj.ys)
    ex_err = np.max(np.abs(ex_xs[:, exact.SPRING_Y] - traj.ys), axis=0)
    R = np.max(np.abs(traj.ys - traj.ys[0]), axis=0) + 0.1 * d["unit"]
    # Forcing terms are the gated outputs of the function approximators, evaluated at the phases
    for i in range(n):
        p = np.asarray(fas[i].predict(ref_phase(f, traj.ts))).reshape(-1)
        close(fa_out[:, i], p, "outputs of the function approximators", rtol=1e-6, scale=np.max(np.abs(p)) + np.max(np.abs(targets[:, i])))
    for i in range(n):
        bound = gain * residual[i] / k + ex_err[i] * 1.2 + 1e-3 * R[i]
        check(np.all(np.isfinite(err[:, i])), "reproduction is not finite")
        check(np.max(err[:, i]) <= bound, "reproduction error exceeds fitting and integration error", dim=i, error=float(np.max(err[:, i])), bound=float(bound))
    ctx.nt(np.any(np.max(np.abs(fa_out), axis=0) > 1.0))


SUBS = [
    Sub("targets", target_cases, run_targets, quick=250, thorough=8000, shards=5),
    Sub("fit", fit_cases, run_fit, quick=250, thorough=8000, shards=3),
]
