"""Shared Hypothesis strategies. All of them produce plain JSON data."""
from hypothesis import strategies as st


def real(lo, hi):
    """Floats in [lo, hi]: a mix of 'nice' (few decimals) and arbitrary values."""
    arb = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    nice = st.integers(0, 200).map(lambda k: round(lo + (hi - lo) * k / 200.0, 6))
    return st.one_of(nice, arb)


def ints_first(lo, hi):
    return st.integers(lo, hi)


def vec(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


def mat(elem, r, c):
    return st.lists(vec(elem, c), min_size=r, max_size=r)


def sign():
    return st.sampled_from([-1.0, 1.0])


def log_real(lo, hi):
    """Positive floats, log-uniform-ish in [lo, hi]."""
    import math

    a, b = math.log10(lo), math.log10(hi)
    return real(a, b).map(lambda e: float(min(hi, max(lo, float("%.6g" % 10.0 ** e)))))


@st.composite
def size(draw, lo, hi, big, k=12):
    """A size in [lo, hi], now and then up to big."""
    if draw(st.integers(0, k)) == k:
        return draw(st.integers(hi, big))
    return draw(st.integers(lo, hi))


def seeds():
    return st.integers(0, 2**31 - 1)


def change(lo=1e-7):
    """How a value changes: to the new one, by a fraction of the difference (down to lo), in one element only, or not at all."""
    return st.one_of(
        st.just({"how": "new"}),
        st.just({"how": "new"}),
        st.just({"how": "same"}),
        st.fixed_dictionaries({"how": st.just("bit"), "eps": log_real(lo, 1e-2)}),
        st.fixed_dictionaries({"how": st.just("one"), "j": st.integers(0, 3)}),
    )


def changed(how, current, new):
    """The value after a change (see above) of the current value. Admissible if convex combinations of values are."""
    import numpy as np

    current, new = np.asarray(current, dtype=float), np.asarray(new, dtype=float)
    if how["how"] == "same":
        return np.array(current) if new.ndim else float(current)
    if how["how"] == "bit":
        new = current + how["eps"] * (new - current)
        return new if new.ndim else float(new)
    if how["how"] == "one" and new.ndim and new.shape == current.shape:
        v = np.array(current)
        v.flat[how["j"] % new.size] = new.flat[how["j"] % new.size]
        return v
    return np.array(new) if new.ndim else float(new)
