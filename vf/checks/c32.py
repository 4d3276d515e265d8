"""C32: C++ objects written as JSON are read back as the same objects."""
import json
import os

import numpy as np
from hypothesis import strategies as st

from vf import cpp
from vf.checks import c31
from vf.core import Sub, check

RULE = (
    "A case is an object of the C++ implementation (function approximator, dynamical system, DMP; loaded or constructed in C++; up to 60 basis functions and 8 dimensions) "
    "and a sequence of reconfigurations and calls. In between, the object is written as JSON (as an object of its class or its base class, or with operator<<; directly or "
    "through a file) and read back. All copies and the original, which are all reconfigured in the same way from then on, must return the same results for the same calls "
    "(within rounding), and writing a copy must give the same JSON. Non-trivial: a call compared on a copy of an object that had been reconfigured before or was afterwards"
)
ASSUMPTIONS = ["a DMP is read back as a Dmp (the base class DynamicalSystem does not read DMPs)", "the initial state of a TimeSystem is not changed (it is not part of what is read)"]


def prepare():
    cpp.build("plain")


def setup():
    return cpp.Driver("plain")


def alike(a, b, what):
    if isinstance(a, dict):
        check(isinstance(b, dict) and set(a) == set(b), f"{what}: {a} {b}")
        for k in a:
            if k not in ("allocs", "printed", "text"):
                alike(a[k], b[k], f"{what} ({k})")
    elif isinstance(a, (list, tuple)):
        check(len(a) == len(b), what, got=a, expected=b)
        for x, y in zip(a, b):
            alike(x, y, what)
    elif isinstance(a, (np.ndarray, float)) and not isinstance(a, bool):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        check(a.shape == b.shape, f"{what}: shapes", got=a, expected=b)
        finite = np.isfinite(a)
        check(np.array_equal(finite, np.isfinite(b)), f"{what}: finite", got=a, expected=b)
        if np.any(finite):
            tol = 1e-9 * np.max(np.abs(a[finite])) + 1e-300
            check(np.all(np.abs(a[finite] - b[finite]) <= tol), what, got=a, expected=b)
    else:
        check(a == b, what, got=a, expected=b)


class Copies:
    """Executes commands on an object and on copies of it that were read from JSON."""

    def __init__(self, drv, make, ctx):
        self.drv, self.ctx = drv, ctx
        self.n = 0
        self.copies = {}  # identifier: number of reconfigurations before (and since) the copy was made
        self.changes = 0
        make("a")

    def configure(self, cmd, **args):
        self.changes += 1
        for ident in ["a", *self.copies]:
            self.drv(cmd, id=ident, **args)

    def parsed(self, ident):
        j = json.loads(self.drv("print", id=ident)["text"])
        if "_spring_system" in j:
            # overwritten by the goal whenever a DMP is integrated
            j["_spring_system"].pop("_y_attr", None)
        return cpp.from_json(j)

    def copy(self):
        self.n += 1
        # copies of copies, too
        source = ["a", *self.copies][self.n % (1 + len(self.copies))]
        ident = f"c{self.n}"
        how = ["pointer", "stream", "derived"][self.n % 3]
        args = {"file": os.path.join(os.environ["VF_SCRATCH"], f"copy_{os.getpid()}.json")} if self.n % 2 else {}
        before = self.parsed(source)
        r = self.drv("copy", id=source, to=ident, how=how, **args)
        check(not r["null"], f"nothing was read back from {r['text']}")
        alike(before, self.parsed(source), "JSON before and after writing")
        alike(before, self.parsed(ident), "JSON of the original and of the copy")
        if len(self.copies) > 2:
            self.copies.pop(min(self.copies, key=lambda c: int(c[1:])))
        self.copies[ident] = self.changes
        self.ctx.label(how)

    def compute(self, cmd, fresh, configures=False, **args):
        if fresh:
            self.copy()
        r = self.drv(cmd, id="a", **args)
        if configures:
            self.changes += 1
        for ident, at in self.copies.items():
            alike(r, self.drv(cmd, id=ident, **args), f"{cmd} of the original and a copy")
            self.ctx.nt(cmd != "print" and self.changes > 0)
        if cmd == "print":
            for ident in self.copies:
                alike(self.parsed("a"), self.parsed(ident), "JSON of the original and of a copy")
        return r


def run_fa(case, ctx):
    c31.run_fa(case, ctx, Copies)
    ctx.nt(any(c["fresh"] and c["op"] != "print" for c in case["calls"]))


def run_system(case, ctx):
    c31.run_system(case, ctx, Copies)


def run_dmp(case, ctx):
    c31.run_dmp(case, ctx, Copies)


SUBS = [
    Sub("fas", c31.fa_cases, run_fa, quick=900, thorough=30000, shards=2, setup=setup, rule="predictions of copies"),
    Sub("systems", c31.system_cases, run_system, quick=1500, thorough=40000, shards=2, setup=setup, rule="results of copies of reconfigured objects"),
    Sub("dmps", c31.dmp_cases, run_dmp, quick=1000, thorough=40000, shards=4, setup=setup, rule="results of copies of reconfigured objects"),
]
