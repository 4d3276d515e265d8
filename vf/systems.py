"""Specifications (JSON) of dynamical systems, and how to build them."""
import numpy as np
from hypothesis import strategies as st

from vf.gen import log_real, real, size, vec


def arr(x):
    return np.array(x, dtype=float)


class Passed:
    """Makes the arrays passed to a constructor (of integers, if asked to), and checks later that they are unchanged."""

    def __init__(self, ints=False):
        self.ints = ints
        self.arrays = []

    def __call__(self, x):
        a = np.array(x, dtype=float)
        if self.ints and np.array_equal(a, np.round(a)):
            a = a.astype(int)
        self.arrays.append((a, a.copy()))
        return a

    def check(self, msg="an array passed by the caller was changed"):
        from vf.core import same

        for a, b in self.arrays:
            same(a, b, msg)


def par(p):
    """A parameter: scalar or one value per dimension."""
    return np.array(p, dtype=float) if isinstance(p, list) else p


@st.composite
def maybe_per_dim(draw, elem, n):
    if draw(st.booleans()):
        return draw(vec(elem, n))
    return draw(elem)


STATE = real(-5.0, 5.0)


def few_ulps(x, n):
    for _ in range(abs(n)):
        x = float(np.nextafter(x, np.inf if n > 0 else -np.inf))
    return x


def close_by(draw, s):
    """Now and then, a dimension starts close to the attractor, or all values are small or large."""
    k = draw(st.integers(0, 11))
    if k == 0:
        j = draw(st.integers(0, len(s["y_init"]) - 1))
        s["y_attr"][j] = s["y_init"][j] + draw(st.sampled_from([1e-3, -1e-5, 1e-8])) * s["y_attr"][j]
    elif k == 1:
        u = s["unit"] = draw(st.sampled_from([1e-4, 1e-7, 1e4]))
        s["y_init"], s["y_attr"] = [a * u for a in s["y_init"]], [a * u for a in s["y_attr"]]


@st.composite
def system_spec(draw, kinds=("exp", "sigmoid", "richards", "time", "spring"), max_dims=3):
    kind = draw(st.sampled_from(kinds))
    n = draw(size(1, max_dims, max_dims + 4))
    tau = draw(log_real(0.05, 20.0))
    s = {"kind": kind, "tau": tau}
    if kind == "time":
        s["count_down"] = draw(st.booleans())
        return s
    if kind == "exp":
        s["y_init"] = draw(vec(STATE, n))
        s["y_attr"] = draw(vec(STATE, n))
        close_by(draw, s)
        s["alpha"] = draw(maybe_per_dim(real(0.1, 20.0), n))
    elif kind == "sigmoid":
        if draw(st.integers(0, 5)) == 0:
            # As used for the gating system of a Dmp
            s["gating_ratio"] = draw(real(0.01, 0.9))
            s["n_dims"] = n
            return s
        mag = real(0.05, 5.0)
        signs = draw(vec(st.sampled_from([1.0, 1.0, -1.0]), n))
        s["y_init"] = [a * b for a, b in zip(draw(vec(mag, n)), signs)]
        # Product max_rate * t_inflection is what matters for conditioning: |r*t_infl| <= 12
        ratio = draw(maybe_per_dim(real(0.1, 1.5), n))
        rates = draw(maybe_per_dim(st.one_of(real(-8.0, -0.5), real(0.5, 8.0)), n))
        s["inflection_ratio"] = ratio
        s["max_rate"] = [r / tau for r in rates] if isinstance(rates, list) else rates / tau
    elif kind == "richards":
        s["y_init"] = draw(vec(STATE, n))
        delta = draw(vec(st.one_of(real(0.05, 5.0), real(-5.0, -0.05)), n))
        if draw(st.integers(0, 7)) == 0:
            delta[0] = 0.0  # at rest
        k = draw(st.integers(0, 11))
        if k == 0:
            delta[-1] *= draw(st.sampled_from([1e-3, 1e-5, 1e-7]))
        elif k == 1:
            u = s["unit"] = draw(st.sampled_from([1e-4, 1e-7, 1e4]))
            s["y_init"], delta = [a * u for a in s["y_init"]], [a * u for a in delta]
        s["y_attr"] = [a + d for a, d in zip(s["y_init"], delta)]
        if draw(st.integers(0, 7)) == 0:
            # Equal up to rounding
            delta[-1] = 0.0
            s["y_attr"][-1] = few_ulps(s["y_init"][-1], draw(st.integers(-4, 4)))
        s["t_infl_ratio"] = draw(maybe_per_dim(real(0.0, 1.0), n))
        s["alpha"] = draw(maybe_per_dim(real(0.5, 15.0), n))
        s["v"] = draw(maybe_per_dim(st.one_of(real(0.5, 10.0), real(0.5, 10.0), real(0.5, 25.0)), n))
        if all(delta) and draw(st.integers(0, 4)) == 0:
            # Left asymptote set explicitly, on the other side of y_init as seen from y_attr
            f = draw(vec(real(0.05, 2.0), n))
            s["left"] = [a - d * g for a, d, g in zip(s["y_init"], delta, f)]
    elif kind == "spring":
        s["y_init"] = draw(vec(STATE, n))
        s["y_attr"] = draw(vec(STATE, n))
        close_by(draw, s)
        s["damping"] = draw(maybe_per_dim(real(0.5, 40.0), n))
        s["mass"] = draw(st.one_of(st.just(1.0), maybe_per_dim(real(0.2, 5.0), n)))
        if draw(st.booleans()):
            s["z_init"] = [a * s.get("unit", 1.0) for a in draw(vec(STATE, n))]
        if draw(st.integers(0, 3)) == 0:
            s["explicit_k"] = True  # pass the critically damped constant explicitly
    return s


def dims(s):
    if s["kind"] == "time":
        return 1
    if "gating_ratio" in s:
        return s["n_dims"]
    return len(s["y_init"])


def build(s, arr=arr):
    """Build the system described by a specification, with the public constructors only."""
    from dmpbbo.dynamicalsystems.ExponentialSystem import ExponentialSystem
    from dmpbbo.dynamicalsystems.RichardsSystem import RichardsSystem
    from dmpbbo.dynamicalsystems.SigmoidSystem import SigmoidSystem
    from dmpbbo.dynamicalsystems.SpringDamperSystem import SpringDamperSystem
    from dmpbbo.dynamicalsystems.TimeSystem import TimeSystem

    k, tau = s["kind"], s["tau"]
    if k == "time":
        return TimeSystem(tau, s["count_down"])
    if k == "exp":
        return ExponentialSystem(tau, arr(s["y_init"]), arr(s["y_attr"]), par(s["alpha"]))
    if k == "sigmoid":
        if "gating_ratio" in s:
            return SigmoidSystem.for_gating(tau, s["gating_ratio"], s["n_dims"])
        return SigmoidSystem(tau, arr(s["y_init"]), par(s["max_rate"]), par(s["inflection_ratio"]))
    if k == "richards":
        sys_ = RichardsSystem(
            tau, arr(s["y_init"]), arr(s["y_attr"]), par(s["t_infl_ratio"]), par(s["alpha"]), par(s["v"])
        )
        if "left" in s:
            sys_.set_left_asymp(arr(s["left"]))
        return sys_
    if k == "spring":
        d, m = par(s["damping"]), par(s["mass"])
        if s.get("explicit_k"):
            sys_ = SpringDamperSystem(tau, arr(s["y_init"]), arr(s["y_attr"]), d, d * d / (4 * m), m)
        else:
            sys_ = SpringDamperSystem(tau, arr(s["y_init"]), arr(s["y_attr"]), d, "CRITICALLY_DAMPED", m)
        if "z_init" in s:
            sys_.x_init = np.concatenate((arr(s["y_init"]), arr(s["z_init"])))
        return sys_
    raise ValueError(k)


def x_init_of(s):
    if s["kind"] == "time":
        return np.array([1.0 if s["count_down"] else 0.0])
    if "gating_ratio" in s:
        return np.ones(s["n_dims"])
    y = arr(s["y_init"])
    if s["kind"] == "spring":
        return np.concatenate((y, arr(s["z_init"]) if "z_init" in s else np.zeros(y.size)))
    return y


def fastest_rate(s):
    """Upper estimate of the fastest time constant (1/s) of the system along its solution."""
    k, tau = s["kind"], s["tau"]
    mx = lambda p: float(np.max(np.abs(p)))  # noqa
    if k == "time":
        return 1.0 / tau
    if k == "exp":
        return mx(s["alpha"]) / tau
    if k == "sigmoid":
        if "gating_ratio" in s:
            return abs(np.log(((1 + 1e-6) / s["gating_ratio"] - 1) / 1e-6)) / tau + 1 / tau
        return mx(s["max_rate"])
    if k == "richards":
        return mx(s["alpha"]) * max(1.0, mx(s["v"])) / tau
    if k == "spring":
        return float(np.max(par(s["damping"]) / (2 * np.asarray(par(s["mass"]))))) / tau
    raise ValueError(k)


def rate_scale(s, xs):
    """Magnitude of states, for tolerances."""
    m = float(np.max(np.abs(xs))) if np.size(xs) else 1.0
    for key in ("y_init", "y_attr", "left", "z_init"):
        if key in s:
            m = max(m, float(np.max(np.abs(s[key]))))
    return m + 1e-3 * s.get("unit", 1.0)
