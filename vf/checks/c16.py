"""C16: generated trajectories meet their boundary conditions and are consistent."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, same
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import arr

RULE = (
    "A case is a time grid (any start, duration, number of samples, uniform or not) and boundary conditions (1-4 dimensions); "
    "non-trivial: the duration is not 1, the grid does not start at 0, or a boundary velocity or acceleration is not 0"
)


@st.composite
def grid_spec(draw, n_min=2):
    return {
        "n": draw(size(n_min, 40, 600)),
        "t0": draw(st.one_of(st.just(0.0), real(-10.0, 10.0))),
        "T": draw(st.one_of(st.just(1.0), log_real(0.05, 50.0))),
        "jitter": draw(st.booleans()),
        "seed": draw(seeds()),
    }


def grid(c):
    u = np.linspace(0.0, 1.0, c["n"])
    if c["jitter"]:
        d = np.random.default_rng(c["seed"]).uniform(0.2, 1.8, c["n"] - 1)
        u = np.concatenate(([0.0], np.cumsum(d) / np.sum(d)))
        u[-1] = 1.0
    return c["t0"] + u * c["T"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["polynomial", "polynomial", "viapoint", "viapoint", "min_jerk"]))
    n = draw(size(1, 4, 9))
    g = draw(grid_spec(n_min=3 if kind == "viapoint" else 2))
    c = {"kind": kind, "grid": g, "y_from": draw(vec(real(-5.0, 5.0), n)), "y_to": draw(vec(real(-5.0, 5.0), n))}
    v = st.one_of(st.just(0.0), real(-5.0, 5.0))
    if kind == "polynomial":
        for k in ("yd_from", "ydd_from", "yd_to", "ydd_to"):
            c[k] = draw(vec(v, n))
    if kind == "viapoint":
        for k in ("y_via", "yd_via", "ydd_via"):
            c[k] = draw(vec(v, n))
        c["k"] = draw(st.integers(1, g["n"] - 2))
        c["at"] = draw(st.sampled_from(["sample", "between", "just before", "just after"]))
    c["affine"] = [draw(real(-3.0, 3.0)), draw(real(-3.0, 3.0))]
    c["shift"] = draw(real(-5.0, 5.0))
    return c


def generate(c, ts, f=lambda y: y, r=lambda v: v):
    """Trajectory of the case; f is applied to positions and r to velocities and accelerations."""
    from dmpbbo.dmps.Trajectory import Trajectory

    a = lambda k: f(arr(c[k]))  # noqa
    b = lambda k: r(arr(c[k]))  # noqa
    if c["kind"] == "min_jerk":
        return Trajectory.from_min_jerk(ts, a("y_from"), a("y_to"))
    if c["kind"] == "polynomial":
        return Trajectory.from_polynomial(ts, a("y_from"), b("yd_from"), b("ydd_from"), a("y_to"), b("yd_to"), b("ydd_to"))
    via = np.concatenate((a("y_via"), b("yd_via"), b("ydd_via")))
    return Trajectory.from_viapoint_polynomial(ts, a("y_from"), via, viapoint_time(c, ts), a("y_to"))


def viapoint_time(c, ts):
    # The viapoint is passed at the first sample that is not before the viapoint time
    k = c["k"]
    u = {"sample": 1.0, "between": 0.5, "just before": 1 - 1e-7, "just after": 1e-7}[c["at"]]
    return float(ts[k] if c["at"] == "sample" else ts[k - 1] + u * (ts[k] - ts[k - 1]))


def segments(c, ts):
    return [(0, c["k"]), (c["k"], ts.size - 1)] if c["kind"] == "viapoint" else [(0, ts.size - 1)]


def run(case, ctx):
    c = case
    ts = grid(c["grid"])
    ts0 = ts.copy()
    n = ts.size
    traj = generate(c, ts)
    same(ts, ts0, "the times passed are changed")
    d = len(c["y_from"])
    check(traj.length == n and traj.dim == d, "sizes", length=traj.length, dim=traj.dim)
    close(traj.ts, ts, "times of the trajectory", rtol=1e-14)
    for x in (traj.ys, traj.yds, traj.ydds):
        check(x.shape == (n, d), "shape", got=x.shape)
    zero = [0.0] * d
    # Conditions: (sample, position, velocity, acceleration)
    conds = [
        (0, c["y_from"], c.get("yd_from", zero), c.get("ydd_from", zero)),
        (n - 1, c["y_to"], c.get("yd_to", zero), c.get("ydd_to", zero)),
    ]
    if c["kind"] == "viapoint":
        conds.append((c["k"], c["y_via"], c["yd_via"], c["ydd_via"]))
    segs = segments(c, ts)
    S = 0.1 + max(np.max(np.abs(q[1])) for q in conds)
    Tmin = min(ts[b] - ts[a] for a, b in segs)
    for a, b in segs:
        T = ts[b] - ts[a]
        S = max(S, T * max(np.max(np.abs(q[2])) for q in conds), T * T * max(np.max(np.abs(q[3])) for q in conds))
    S *= 30
    # rounding of the times matters if the trajectory is short compared with the time it starts
    tol = 1e-10 + 1e-13 * np.max(np.abs(ts)) / Tmin
    for i, y, yd, ydd in conds:
        what = f"{c['kind']} trajectory at sample {i} of {n}"
        close(traj.ys[i], arr(y), what + ": position", rtol=tol, atol=0, scale=S)
        close(traj.yds[i], arr(yd), what + ": velocity", rtol=tol * 10, atol=0, scale=S / Tmin)
        close(traj.ydds[i], arr(ydd), what + ": acceleration", rtol=tol * 100, atol=0, scale=S / Tmin**2)

    # Derivatives: on a grid that contains the samples and close neighbours (within the segments), the differences
    # of positions are the velocities, etc. The samples do not depend on the other samples of the grid.
    for a, b in segs:
        T = ts[b] - ts[a]
        h = T * 2e-3
        inner = ts[a] + T * np.linspace(0.05, 0.95, 7)
        # for every inner time: t-2h .. t+2h
        fine = np.sort(np.concatenate([inner + j * h for j in (-2, -1, 0, 1, 2)]))
        dense = np.unique(np.concatenate((ts, fine)))
        dense = dense[np.concatenate(([True], np.diff(dense) > 1e-3 * h))]
        if not all(np.any(dense == t) for t in ts[[0, -1, c.get("k", 0)]]):
            continue
        cd = dict(c, k=int(np.nonzero(dense == ts[c["k"]])[0][0]), at="sample") if c["kind"] == "viapoint" else c
        big = generate(cd, dense)
        at = lambda t: int(np.argmin(np.abs(dense - t)))  # noqa
        for i in range(n):
            j = at(ts[i])
            if dense[j] == ts[i]:
                close(big.ys[j], traj.ys[i], "position depends on the other samples", rtol=tol, atol=0, scale=S)
                close(big.yds[j], traj.yds[i], "velocity depends on the other samples", rtol=tol * 10, atol=0, scale=S / Tmin)
                close(big.ydds[j], traj.ydds[i], "acceleration depends on the other samples", rtol=tol * 100, atol=0, scale=S / Tmin**2)
        for t in inner:
            idx = [at(t + q * h) for q in (-2, -1, 0, 1, 2)]
            tt = dense[idx]
            if np.max(np.abs(tt - (t + h * np.arange(-2, 3)))) > 1e-6 * h:
                continue  # replaced by a nearby sample
            for x, dx, p in ((big.ys, big.yds, 1), (big.yds, big.ydds, 2)):
                num = (x[idx[0]] - 8 * x[idx[1]] + 8 * x[idx[3]] - x[idx[4]]) / (12 * h)
                close(dx[idx[2]], num, f"derivative of order {p} at {t}", rtol=2e-7 + tol * 1e4, atol=0, scale=S / T**p * 10)

    # Affine transformations of the positions, shifts of time, order of dimensions
    a, b = c["affine"]
    t2 = generate(c, ts, lambda y: a * y + b, lambda v: a * v)
    Q = S * (abs(a) + 1) + abs(b)
    close(t2.ys, a * traj.ys + b, "affine map of positions", rtol=1e-10, atol=0, scale=Q)
    close(t2.yds, a * traj.yds, "affine map of velocities", rtol=1e-10, atol=0, scale=Q / Tmin)
    close(t2.ydds, a * traj.ydds, "affine map of accelerations", rtol=1e-10, atol=0, scale=Q / Tmin**2)
    t3 = generate(c, ts + c["shift"])
    tol3 = tol + 1e-13 * abs(c["shift"]) / Tmin * 100
    close(t3.ys, traj.ys, "positions after a shift in time", rtol=tol3 * 10, atol=0, scale=S)
    close(t3.yds, traj.yds, "velocities after a shift in time", rtol=tol3 * 100, atol=0, scale=S / Tmin)
    close(t3.ydds, traj.ydds, "accelerations after a shift in time", rtol=tol3 * 1000, atol=0, scale=S / Tmin**2)
    perm = np.arange(d)[::-1]
    t4 = generate({k: ([v[i] for i in perm] if k.startswith("y") else v) for k, v in c.items()}, ts)
    close(t4.ys, traj.ys[:, perm], "dimensions influence each other", rtol=1e-12, atol=0, scale=S)
    close(t4.ydds, traj.ydds[:, perm], "dimensions influence each other (accelerations)", rtol=1e-12, atol=0, scale=S / Tmin**2)

    if c["kind"] == "min_jerk":
        from dmpbbo.dmps.Trajectory import Trajectory

        z = np.zeros(d)
        p = Trajectory.from_polynomial(ts, arr(c["y_from"]), z, z, arr(c["y_to"]), z, z)
        close(p.ys, traj.ys, "minimum-jerk trajectory is not the polynomial with zero velocities and accelerations at its ends", rtol=tol, atol=0, scale=S)
        # stays between its ends, monotonically
        steps = np.diff(traj.ys, axis=0) * np.sign(arr(c["y_to"]) - arr(c["y_from"]))
        check(np.all(steps > -1e-12 * S), "minimum-jerk trajectory is not monotonic")
    ctx.label(c["kind"], "shifted" if c["grid"]["t0"] else "from 0")
    ctx.nt(c["grid"]["T"] != 1.0 or c["grid"]["t0"] != 0 or any(any(c.get(k, [0])) for k in ("yd_from", "ydd_from", "yd_to", "ydd_to")))


SUBS = [Sub("generators", cases, run, quick=2500, thorough=80000, shards=8)]
