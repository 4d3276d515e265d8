"""C17: differentiation and low-pass filtering of trajectories."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import arr
from vf.trajs import diff

RULE = (
    "A case is a sampled movement (1-3 dimensions, any start time and sampling rate), for filtering with order and cutoff frequency; "
    "non-trivial: the time step is not 1 and the movement is not constant"
)


@st.composite
def diff_cases(draw):
    d = draw(size(1, 3, 8))
    return {
        "n": draw(size(3, 60, 1200)),
        "dt": draw(st.one_of(st.sampled_from([0.01, 0.1, 1.0]), log_real(1e-3, 2.0))),
        "t0": draw(st.one_of(st.just(0.0), real(-5.0, 5.0))),
        "a": draw(vec(real(-5.0, 5.0), d)),
        "b": draw(vec(real(-5.0, 5.0), d)),
        "c": draw(vec(real(-5.0, 5.0), d)),
        "w": draw(vec(real(0.5, 6.0), d)),
        "phi": draw(vec(real(0.0, 6.28), d)),
        "factor": draw(real(-4.0, 4.0)),
        "flat": draw(st.booleans()),
        "seed": draw(seeds()),
    }


def derivs(ts, ys, how="constructor"):
    from dmpbbo.dmps.Trajectory import Trajectory, diffnc

    if how == "constructor":
        t = Trajectory(ts, ys)
    elif how == "recompute":
        t = Trajectory(ts, ys, np.full(ys.shape, 7.0), np.full(ys.shape, -3.0))
        t.recompute_derivatives()
    else:
        dt = (ts[-1] - ts[0]) / (ts.size - 1)
        v = diffnc(ys, dt)
        return v, diffnc(v, dt), None
    return t.yds, t.ydds, t.yddds()


def run_diff(case, ctx):
    c = case
    n, dt = c["n"], c["dt"]
    ts = c["t0"] + dt * np.arange(n)
    d = len(c["a"])
    t = ts.reshape(-1, 1) - c["t0"]
    a, b, q = arr(c["a"]), arr(c["b"]), arr(c["c"])
    T = t[-1, 0]
    eps = 1e-13 * (1 + abs(c["t0"]) / dt)  # rounding of the times
    # jerks are derived from the accelerations, also if these were given
    from dmpbbo.dmps.Trajectory import Trajectory

    given = np.random.default_rng(c["seed"]).normal(size=(3, n, d))
    close(Trajectory(ts, *given).yddds(), diff(given[2], dt), "jerk of given accelerations", rtol=1e-9, scale=1 / dt)
    for how in ("constructor", "recompute", "function"):
        # linear: exact everywhere
        ys = a + b * t
        keep = ys.copy()
        flat = c["flat"] and d == 1 and how != "function"
        v, acc, jerk = derivs(ts, ys[:, 0] if flat else ys, how)
        same(ys, keep, how + ": positions are changed")
        S = np.max(np.abs(ys))
        check(v.shape == ys.shape and acc.shape == ys.shape, how + ": shapes", v=v.shape, acc=acc.shape)
        close(v, np.tile(b, (n, 1)), how + ": velocity of a linear movement", rtol=eps, atol=0, scale=S / dt * 10)
        close(acc, np.zeros((n, d)), how + ": acceleration of a linear movement", rtol=eps, atol=0, scale=S / dt**2 * 100)
        if jerk is not None:
            close(jerk, np.zeros((n, d)), how + ": jerk of a linear movement", rtol=eps, atol=0, scale=S / dt**3 * 1000)
        # quadratic (cubic): exact away from the ends
        ys = a + b * t + q * t**2
        S = np.max(np.abs(ys)) + np.max(np.abs(b)) * T + np.max(np.abs(q)) * T * T
        v, acc, jerk = derivs(ts, ys, how)
        close(v[1:-1], (b + 2 * q * t)[1:-1], how + ": velocity of a quadratic movement", rtol=eps, atol=0, scale=S / dt * 10)
        if n > 4:
            close(acc[2:-2], np.tile(2 * q, (n - 4, 1)), how + ": acceleration of a quadratic movement", rtol=eps, atol=0, scale=S / dt**2 * 100)
        if jerk is not None and n > 6:
            ys3 = q * t**3
            _, acc3, jerk3 = derivs(ts, ys3, how)
            S3 = np.max(np.abs(ys3))
            close(jerk3[3:-3], np.tile(6 * q, (n - 6, 1)), how + ": jerk of a cubic movement", rtol=eps, atol=0, scale=S3 / dt**3 * 1000)
    # smooth: error bounds of central differences
    w, phi = arr(c["w"]), arr(c["phi"])
    A = np.abs(b)
    ys = b * np.sin(w * t + phi)
    v, acc, _ = derivs(ts, ys)
    r = 1e-9 * (np.abs(b) + 1e-3)
    e1 = np.abs(v - b * w * np.cos(w * t + phi))
    check(np.all(e1[1:-1] <= A * w**3 * dt**2 / 6 + r * w + eps * A / dt * 10), "velocity does not converge to the derivative of the position")
    check(np.all(e1[[0, -1]] <= A * (w**2 * dt + w**3 * dt**2 / 6) + r * w + eps * A / dt * 10), "velocity at the ends does not converge to the derivative of the position")
    if n > 4:
        e2 = np.abs(acc + b * w**2 * np.sin(w * t + phi))
        check(np.all(e2[2:-2] <= A * w**4 * dt**2 / 3 + r * w**2 + eps * A / dt**2 * 100), "acceleration does not converge to the second derivative of the position")
    # linear in the positions, dimensions independent
    rng = np.random.default_rng(c["seed"])
    y1, y2 = rng.normal(size=(n, d)), rng.normal(size=(n, d))
    f = c["factor"]
    s, u, x = derivs(ts, f * y1 + y2), derivs(ts, y1), derivs(ts, y2)
    for i, name in enumerate(("velocity", "acceleration", "jerk")):
        close(s[i], f * u[i] + x[i], name + " is not linear in the positions", rtol=1e-11, atol=0, scale=20 * (abs(f) + 1) / dt ** (i + 1))
    for j in range(d):
        one = derivs(ts, y1[:, j : j + 1])
        for i in range(3):
            close(one[i][:, 0], u[i][:, j], "derivatives depend on other dimensions", rtol=1e-12, atol=0, scale=10 / dt ** (i + 1))
    rev = derivs(ts, y1[::-1].copy())
    close(rev[0][::-1], -u[0], "velocities of the time-reversed movement", rtol=1e-11, atol=0, scale=10 / dt)
    sh = derivs(ts + 3.0, y1)
    close(sh[0], u[0], "velocities depend on the start time", rtol=1e-11 + 1e-13 * (abs(c["t0"]) + 3) / dt, atol=0, scale=10 / dt)
    ctx.nt(dt != 1.0 and np.any(b != 0))


@st.composite
def filter_cases(draw):
    order = draw(st.sampled_from([1, 2, 3, 3, 4]))
    return {
        "order": order,
        "default_order": order == 3 and draw(st.booleans()),
        "cut": draw(log_real(0.04, 0.8)),  # cutoff/Nyquist frequency
        "dt": draw(st.one_of(st.sampled_from([0.01, 0.002, 1.0]), log_real(1e-3, 2.0))),
        "t0": draw(st.one_of(st.just(0.0), real(-5.0, 5.0))),
        "freqs": draw(vec(real(0.01, 0.97), draw(st.integers(1, 3)))),  # signal/Nyquist frequency
        "phase": draw(real(0.0, 6.28)),
        "amp": draw(log_real(0.01, 100.0)),
        "const": draw(real(-5.0, 5.0)),
        "factor": draw(real(-4.0, 4.0)),
        "misc": draw(st.booleans()),
        "seed": draw(seeds()),
    }


def run_filter(case, ctx):
    from dmpbbo.dmps.Trajectory import Trajectory

    c = case
    N, fc, dt = c["order"], c["cut"], c["dt"]
    # long enough that transients at the ends vanish in the middle
    w = 2 * np.tan(np.pi * fc / 2)
    rho = w * np.sin(np.pi / (2 * N))  # distance of the slowest analog pole from the imaginary axis, per sample
    poles = w * np.exp(1j * np.pi * (2 * np.arange(N) + N + 1) / (2 * N))
    slowest = np.max(np.abs((1 + poles / 2) / (1 - poles / 2)))
    n_tr = int(np.ceil(25 / min(1.0, -np.log(slowest + 1e-12)))) + 20
    n = 2 * n_tr + 40
    ts = c["t0"] + dt * np.arange(n)
    t = np.arange(n).reshape(-1, 1)
    cutoff_hz = fc * 0.5 / dt
    d = len(c["freqs"])
    misc = np.random.default_rng(c["seed"]).normal(size=(n, 2)) if c["misc"] else None

    def filt(ys):
        ys0, ts0 = ys.copy(), ts.copy()
        tr = Trajectory(ts, ys, misc=None if misc is None else misc.copy())
        if c["default_order"]:
            tr.apply_low_pass_filter(cutoff_hz)
        else:
            tr.apply_low_pass_filter(cutoff_hz, N)
        same(ys, ys0, "filtering changes the positions passed to the constructor")
        same(ts, ts0, "filtering changes the times")
        check(tr.ys.shape == ys.shape and tr.length == n, "shape after filtering")
        same(tr.ts, ts0, "times after filtering")
        if misc is not None:
            same(tr.misc, misc, "misc after filtering")
        S = np.max(np.abs(tr.ys)) + 1e-300
        close(tr.yds, diff(tr.ys, dt), "velocities after filtering are not the derivatives of the positions", rtol=1e-9 + 1e-12 * abs(c["t0"]) / dt, atol=0, scale=S / dt)
        close(tr.ydds, diff(tr.yds, dt), "accelerations after filtering are not the derivatives of the velocities", rtol=1e-9 + 1e-12 * abs(c["t0"]) / dt, atol=0, scale=S / dt**2)
        return np.array(tr.ys)

    tol = 1e-7 + 1e-13 / rho**N
    K = np.full((n, d), c["const"])
    close(filt(K), K, "filtering changes a constant", rtol=tol, atol=0, scale=abs(c["const"]) + 1e-3)
    f = arr(c["freqs"])
    x = c["amp"] * np.sin(np.pi * f * t + c["phase"])
    y = filt(x)
    ratio = np.tan(np.pi * f / 2) / np.tan(np.pi * fc / 2)
    gain = 1 / (1 + ratio ** (2 * N))
    mid = slice(n_tr, n - n_tr)
    e = c["amp"] * 1e-6 + tol * c["amp"]
    check(np.all(np.abs(y[mid] - gain * x[mid]) <= e + 1e-6 * c["amp"]), "filtered sinusoid has a wrong amplitude or is shifted in time", err=np.max(np.abs(y[mid] - gain * x[mid]), axis=0) / c["amp"], gain=gain)
    lin = (t - n / 2) / n
    lin = np.tile(lin, (1, d)) * c["const"]
    close(filt(lin)[mid], lin[mid], "filtering changes a ramp", rtol=1e-6, atol=0, scale=abs(c["const"]) + 1e-3)
    rng = np.random.default_rng(c["seed"] + 1)
    r = c["amp"] * rng.normal(size=(n, d))
    yr = filt(r)
    close(filt(c["factor"] * r + x), c["factor"] * yr + y, "filter is not linear", rtol=tol, atol=0, scale=c["amp"] * 10 * (abs(c["factor"]) + 1))
    for j in range(d):
        close(filt(r[:, j : j + 1])[:, 0], yr[:, j], "filter mixes dimensions", rtol=tol, atol=0, scale=c["amp"] * 10)
    # symmetric in time
    close(filt(r[::-1].copy())[::-1][mid], yr[mid], "filter is not symmetric in time", rtol=1e-6 + tol, atol=0, scale=c["amp"] * 10)
    check(np.var(yr[mid]) <= np.var(r[mid]) * 1.02 + 1e-12, "filtering amplifies noise")
    ctx.label(f"order {N}")
    ctx.nt(dt != 1.0)


SUBS = [
    Sub("differentiation", diff_cases, run_diff, quick=1500, thorough=40000, shards=4),
    Sub("filter", filter_cases, run_filter, quick=600, thorough=20000, shards=4),
]
