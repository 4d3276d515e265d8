"""Specifications (JSON) of trajectories and a reference model: a list of samples."""
import numpy as np
from hypothesis import strategies as st

from vf.gen import log_real, real, seeds, size


@st.composite
def traj_spec(draw, dim=None, misc=None, n_min=2, n_max=14, derivs=True):
    dim = dim or draw(size(1, 3, 7))
    return {
        "dim": dim,
        "n": draw(size(n_min, n_max, 10 * n_max, 20)),
        "t0": draw(st.one_of(st.just(0.0), real(-3.0, 5.0))),
        "dt": draw(st.one_of(st.sampled_from([0.1, 0.01, 0.05, 0.3]), log_real(0.002, 0.5))),
        "jitter": draw(st.sampled_from([0.0, 0.0, 0.4])),
        "misc": draw(st.sampled_from(["none", "none", 0, 1, 2, "vector"])) if misc is None else misc,
        "amp": draw(log_real(0.01, 100.0)),
        "derivs": draw(st.sampled_from(["given", "given", "none", "velocities"])) if derivs else "given",
        "flat": draw(st.booleans()),
        "special": draw(st.sampled_from([None, None, 1e-13, -3.3e-8, 1e9, 0.0, -0.0])),
        "seed": draw(seeds()),
    }


def arrays(c):
    rng = np.random.default_rng(c["seed"])
    n, d = c["n"], c["dim"]
    steps = np.full(n - 1, c["dt"])
    if c["jitter"]:
        steps = steps * rng.uniform(1 - c["jitter"], 1 + c["jitter"], n - 1)
    ts = c["t0"] + np.concatenate(([0.0], np.cumsum(steps)))

    def mk():
        v = c["amp"] * rng.normal(size=(n, d))
        if c.get("special") is not None:
            v[rng.uniform(size=(n, d)) < 0.2] = c["special"]
        return v

    ys, yds, ydds = mk(), mk(), mk()
    if c["derivs"] == "none":
        yds = ydds = None
    elif c["derivs"] == "velocities":
        ydds = None
    m = c["misc"]
    misc = None if m == "none" else rng.normal(size=n) if m == "vector" else rng.normal(size=(n, m))
    if c["flat"] and d == 1:
        ys, yds, ydds = (None if v is None else v[:, 0] for v in (ys, yds, ydds))
    return ts, ys, yds, ydds, misc


def build(c):
    from dmpbbo.dmps.Trajectory import Trajectory

    return Trajectory(*arrays(c))


def diff(x, dt):
    """Central differences; boundary values repeated."""
    v = np.empty_like(x)
    v[1:-1] = (x[2:] - x[:-2]) / (2 * dt)
    v[0], v[-1] = v[1], v[-2]
    return v


def diff_any(x, dt):
    """As specified for short trajectories, too: outside of the trajectory, positions count as zero."""
    if x.shape[0] >= 3:
        return diff(x, dt)
    z = np.zeros((1, x.shape[1]))
    p = np.vstack((z, x, z))
    v = (p[2:] - p[:-2]) / (2 * dt)
    v[0] = v[1]
    v[-1] = v[-2]
    return v


class Samples:
    """Reference: arrays of times, positions, velocities, accelerations, misc (or None)."""

    def __init__(self, c):
        ts, ys, yds, ydds, misc = arrays(c)
        col = lambda v: v.reshape(v.shape[0], -1) if v.size or v.ndim == 2 else v  # noqa
        self.ts = ts
        self.ys = col(ys)
        dt = self.dt()
        self.yds = diff_any(self.ys, dt) if yds is None else col(yds)
        self.ydds = diff_any(self.yds, dt) if ydds is None else col(ydds)
        self.misc = None if misc is None or misc.size == 0 else col(misc)

    def dt(self):
        return (self.ts[-1] - self.ts[0]) / (self.ts.size - 1)

    def columns(self):
        return {"ts": self.ts, "ys": self.ys, "yds": self.yds, "ydds": self.ydds, "misc": self.misc}


def columns(traj):
    """The fields of a trajectory through its public interface."""
    return {"ts": traj.ts, "ys": traj.ys, "yds": traj.yds, "ydds": traj.ydds, "misc": traj.misc if traj.has_misc() else None}


def snapshot(traj):
    return {k: None if v is None else np.array(v) for k, v in columns(traj).items()}
