"""Core of the property-based checks: cases, sub-checks, failures.

Every sub-check is a pair (strategy, run). The strategy draws a *case*: plain JSON data (numbers,
strings, lists, dicts) that fully determines what is executed. ``run(case, ctx)`` executes the code
in /repo on it and compares with an oracle; any exception it raises is a violation. As cases are
plain data, a shrunk failing case is the replay file.
"""
import json
import math

import numpy as np


class Violation(AssertionError):
    pass


class HarnessError(Exception):
    """Something is wrong with the check itself or its environment: never a violation."""


class Sub:
    """One generated-input search."""

    def __init__(self, name, strategy, run, quick, thorough=None, shards=1, rule="", setup=None):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick  # number of cases, over all shards
        self.thorough = thorough if thorough is not None else quick * 20
        self.shards = shards
        self.rule = rule
        self.setup = setup


class Ctx:
    """Passed to run(): collects what a case exercised."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = False
        self.scratch = None

    def label(self, *names):
        for n in names:
            self.labels[n] = self.labels.get(n, 0) + 1

    def nt(self, cond=True):
        """Mark the case as non-trivial."""
        if cond:
            self.nontrivial = True


def check(cond, msg="", **info):
    if not cond:
        raise Violation(msg + ("" if not info else " " + short(info)))


def short(info):
    def conv(v):
        if isinstance(v, np.ndarray):
            return np.array2string(v, threshold=40, precision=17)
        return repr(v)

    return ", ".join(f"{k}={conv(v)}" for k, v in info.items())[:1500]


def close(a, b, msg, rtol=1e-9, atol=1e-9, scale=None, **info):
    """a and b have the same shape and are equal up to atol + rtol * scale.

    ``scale`` defaults to the largest magnitude in b (not element-wise: cancellation makes
    element-wise relative errors meaningless).
    """
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shapes differ: {a.shape} vs {b.shape} " + short(info))
    if a.size == 0:
        return
    if not np.all(np.isfinite(b)):
        raise Violation(f"{msg}: reference value is not finite: {b}")
    if not np.all(np.isfinite(a)):
        raise Violation(f"{msg}: not finite: {short(dict(got=a, expected=b, **info))}")
    if scale is None:
        scale = float(np.max(np.abs(b)))
    tol = atol + rtol * np.asarray(scale, dtype=float)
    err = np.abs(a - b)
    if np.any(err > tol):
        i = np.unravel_index(np.argmax(err - tol), err.shape)
        raise Violation(
            f"{msg}: differ by {err[i]:.6g} (tolerance {np.broadcast_to(tol, err.shape)[i]:.3g}) "
            f"at {tuple(int(j) for j in i)}: got {a[i]!r}, expected {b[i]!r} " + short(info)
        )


def same(a, b, msg, **info):
    """Bitwise equality of arrays (shape and values; nan equals nan)."""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind == "f"):
        raise Violation(f"{msg}: got {a!r} expected {b!r} " + short(info))


def raises(exc, fn, msg):
    """fn() must be rejected with (one of) the given exception types."""
    try:
        fn()
    except exc:
        return
    except Exception as e:  # wrong kind of exception
        raise Violation(f"{msg}: raised {type(e).__name__} ({e}) instead of being rejected properly")
    raise Violation(f"{msg}: accepted")


def case_key(case):
    return json.dumps(case, sort_keys=True)


def finite(x):
    return math.isfinite(x)
