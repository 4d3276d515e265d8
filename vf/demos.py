"""Smooth demonstrations with exact derivatives."""
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import Polynomial

from vf.gen import log_real, real, size, vec

MINJERK = Polynomial([0, 0, 0, 10, -15, 6])


@st.composite
def demo_spec(draw, n=None, max_dims=3, n_min=40, n_max=90, min_dist=0.2, end_moving=True, units=False):
    n = n or draw(size(1, max_dims, max_dims + 3))
    y0 = draw(vec(real(-2.0, 2.0), n))
    dist = draw(vec(st.one_of(real(min_dist, 2.0), real(-2.0, -min_dist)), n))
    if units and draw(st.integers(0, 4)) == 0:
        j = draw(st.integers(0, n - 1))
        dist[j] *= 1e-3  # ends (almost) where it starts
    bump = draw(vec(vec(real(-6.0, 6.0), 2), n))
    u = draw(log_real(1e-4, 1e4)) if units and draw(st.integers(0, 4)) == 0 else 1.0
    y0, dist, bump = [a * u for a in y0], [a * u for a in dist], [[a * u for a in b] for b in bump]
    c = {
        "T": draw(log_real(0.2, 8.0)),
        "n": draw(size(n_min, n_max, 3 * n_max, 15)),
        "y0": y0,
        "g": [a + b for a, b in zip(y0, dist)],
        "bump": bump,
        "spacing": draw(st.sampled_from(["uniform", "uniform", "jitter", "growing"])),
        "seed": draw(st.integers(0, 10**6)),
        "end_moving": end_moving and draw(st.integers(0, 3)) == 0,
    }
    if units:
        c["unit"] = u
    return c


def demo_grid(c, refine=1):
    n = c["n"]
    if c["spacing"] == "uniform":
        u = np.linspace(0.0, 1.0, n)
    elif c["spacing"] == "growing":
        u = np.linspace(0.0, 1.0, n)
        u = 0.6 * u + 0.4 * u**2
    else:
        rng = np.random.default_rng(c["seed"])
        d = rng.uniform(0.6, 1.4, n - 1)
        u = np.concatenate(([0.0], np.cumsum(d) / np.sum(d)))
        u[-1] = 1.0
    if refine > 1:
        u = np.interp(np.arange((n - 1) * refine + 1) / refine, np.arange(n), u)
    return u * c["T"]


def demo_values(c, ts):
    u = ts / c["T"]
    ys, yds, ydds = [], [], []
    for y0, g, b in zip(c["y0"], c["g"], c["bump"]):
        end = Polynomial([1.0, -1.0])
        tail = end if c["end_moving"] else end**2
        p = y0 + (g - y0) * MINJERK + Polynomial([0, 0, 1.0]) * tail * Polynomial(b)
        ys.append(p(u))
        yds.append(p.deriv(1)(u) / c["T"])
        ydds.append(p.deriv(2)(u) / c["T"] ** 2)
    return np.array(ys).T, np.array(yds).T, np.array(ydds).T


def demo_traj(c, refine=1):
    from dmpbbo.dmps.Trajectory import Trajectory

    ts = demo_grid(c, refine)
    return Trajectory(ts, *demo_values(c, ts))


class RecordingFA:
    """Function approximator that fits its targets exactly, and remembers what it was given."""

    def __init__(self):
        self.trainings = []
        self.kwargs = []

    def train(self, inputs, targets, **kwargs):
        self.trainings.append((np.array(inputs), np.array(targets)))
        self.kwargs.append(kwargs)

    def is_trained(self):
        return len(self.trainings) > 0

    def predict(self, inputs):
        inputs = np.asarray(inputs, dtype=float).reshape(-1)
        x, t = self.trainings[-1]
        x = x.reshape(-1)
        order = np.argsort(x, kind="stable")
        return np.interp(inputs, x[order], t.reshape(-1)[order])
