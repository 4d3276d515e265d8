"""Builds the C++ implementation of /repo with a driver (driver.cpp), and talks to it."""
import concurrent.futures
import json
import os
import select
import subprocess

import numpy as np

from vf.core import HarnessError, Violation
from vf.runner import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = {
    "plain": ["-O1"],
    # asserts of Eigen and dmpbbo are on in both
    "sanitized": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DREALTIME_CHECKS"],
}
TIMEOUT = 60.0


def binary(variant):
    return os.path.join(os.environ["VF_SCRATCH"], f"driver_{variant}")


def program(name):
    return os.path.join(os.environ["VF_SCRATCH"], name)


def build(variant="plain", programs=None):
    """Compile the current sources and the driver into the scratch directory of this check.

    programs: instead of the driver, programs to build: name -> their source files, relative to the repository
    """
    src = os.path.join(REPO, "src")
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith(".cpp"))
    if programs is None:
        mains = {binary(variant): [os.path.join(HERE, "cppdriver", "driver.cpp")]}
    else:
        mains = {program(name): [os.path.join(REPO, f) for f in fs] for name, fs in programs.items()}
    n_lib = len(files)
    files += sorted({f for fs in mains.values() for f in fs})
    out = os.path.join(os.environ["VF_SCRATCH"], "obj_" + variant)
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ, CCACHE_DISABLE="1")

    def compile_one(i):
        o = os.path.join(out, f"{i}.o")
        cmd = ["g++", "-std=c++11", "-w", *FLAGS[variant], "-I" + src, "-c", files[i], "-o", o]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if p.returncode:
            raise HarnessError(f"cannot compile {files[i]}:\n" + p.stdout[-3000:])
        return o

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        # (the driver takes longest to compile)
        objs = list(ex.map(compile_one, reversed(range(len(files)))))[::-1]
    for target, fs in mains.items():
        own = [objs[files.index(f)] for f in fs]
        cmd = ["g++", *FLAGS[variant], *own, *objs[:n_lib], "-o", target, "-lboost_filesystem", "-lboost_system"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if p.returncode:
            raise HarnessError(f"cannot link {target}:\n" + p.stdout[-3000:])


class CppError(Violation):
    """The C++ code threw an exception."""


def to_json(x):
    if isinstance(x, np.ndarray):
        if x.ndim == 1:
            return [float(v) for v in x]
        return {"rows": x.shape[0], "cols": x.shape[1], "values": [[float(v) for v in r] for r in x]}
    if isinstance(x, dict):
        return {k: to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def from_json(x):
    if isinstance(x, dict):
        if set(x) == {"rows", "cols", "values"}:
            v = [[np.nan if e is None else e for e in r] for r in x["values"]]
            return np.array(v, dtype=float).reshape(x["rows"], x["cols"])
        return {k: from_json(v) for k, v in x.items()}
    if isinstance(x, list):
        if all(e is None or isinstance(e, (int, float)) for e in x):
            return np.array([np.nan if e is None else e for e in x], dtype=float)
        return [from_json(e) for e in x]
    return x


class Driver:
    """One process of the driver; it is started again if the C++ code crashes."""

    def __init__(self, variant="plain"):
        self.variant = variant
        self.proc = None

    def start(self):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1"
        path = os.path.join(os.environ["VF_SCRATCH"], f"stderr_{os.getpid()}")
        self.err = open(path, "w+")
        self.proc = subprocess.Popen(
            [binary(self.variant)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=os.environ["VF_SCRATCH"],
        )

    def stop(self):
        if self.proc is not None:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.err.close()
            self.proc = None

    def reset(self):
        """All objects made for a previous case are deleted."""
        if self.proc is not None and self.proc.poll() is not None:
            self.stop()
        if self.proc is None:
            self.start()
        self("clear")

    def __call__(self, cmd, **args):
        if self.proc is None:
            self.start()
        line = json.dumps(dict(to_json(args), cmd=cmd), allow_nan=False) + "\n"
        try:
            self.proc.stdin.write(line.encode())
            self.proc.stdin.flush()
        except BrokenPipeError:
            raise self.crash(cmd)
        data = b""
        while not data.endswith(b"\n"):
            ready, _, _ = select.select([self.proc.stdout], [], [], TIMEOUT)
            if not ready:
                self.stop()
                raise Violation(f"C++ {cmd} did not return within {TIMEOUT} s")
            d = os.read(self.proc.stdout.fileno(), 1 << 16)
            if not d:
                raise self.crash(cmd)
            data += d
        r = from_json(json.loads(data))
        if "exception" in r:
            if "driver:" in r["exception"]:
                raise HarnessError(r["exception"])
            raise CppError(f"C++ {cmd} threw: {r['exception']}")
        return r

    def crash(self, cmd):
        rc = self.proc.wait()
        self.err.flush()
        self.err.seek(0)
        tail = self.err.read()[:1800]
        self.stop()
        return Violation(f"C++ crashed (exit {rc}) in {cmd}: {tail}")
