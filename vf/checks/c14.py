"""C14: trajectories survive conversion to and from matrix, file and frame."""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, raises, same
from vf.gen import seeds
from vf.trajs import Samples, arrays, build, columns, snapshot, traj_spec

RULE = (
    "A case is a trajectory (1-3 dimensions, any start time and step size, uniform or not, with and without given derivatives and "
    "miscellaneous variables) and a conversion; non-trivial: more than one dimension or miscellaneous variables"
)


def compare(traj, exp, what, atol=0.0):
    got = columns(traj)
    for k, e in exp.items():
        g = got[k]
        check((g is None) == (e is None), f"{what}: {k} missing or not", got=g)
        if e is not None:
            close(g, e, f"{what}: {k}", rtol=1e-15 if atol else 0.0, atol=atol)


@st.composite
def cases(draw):
    return {"traj": draw(traj_spec()), "seed": draw(seeds())}


def run(case, ctx):
    from dmpbbo.dmps.Trajectory import Trajectory

    c = case["traj"]
    args = arrays(c)
    copies = [None if a is None else a.copy() for a in args]
    traj = Trajectory(*args)
    ref = Samples(c)
    n, d = c["n"], c["dim"]
    nm = 0 if ref.misc is None else ref.misc.shape[1]
    got = columns(traj)
    for k, v in ref.columns().items():
        check((got[k] is None) == (v is None), f"constructor: {k} missing or not")
        if v is not None:
            derived = k in ("yds", "ydds") and c["derivs"] != "given"
            close(got[k], v, f"constructor: {k}", rtol=1e-9 if derived else 0.0, atol=1e-9 if derived else 0.0)
    check(traj.length == n and traj.dim == d and traj.dim_misc == nm and traj.has_misc() == (nm > 0), "sizes")
    close(traj.duration, ref.ts[-1] - ref.ts[0], "duration", rtol=1e-12)
    close(traj.dt_mean, ref.dt(), "mean time step", rtol=1e-9)
    same(traj.y_init, ref.ys[0], "initial position")
    same(traj.y_final, ref.ys[-1], "final position")
    close(traj.get_range_per_dim(), ref.ys.max(axis=0) - ref.ys.min(axis=0), "range per dimension", rtol=1e-14)
    orig = snapshot(traj)

    # Matrix, with the documented layout
    M = traj.as_matrix()
    check(M.shape == (n, 1 + 3 * d + nm), "shape of the matrix", got=M.shape)
    same(M[:, 0], orig["ts"], "first column: times")
    for i in range(d):
        same(M[:, 1 + i], orig["ys"][:, i], "columns of positions")
        same(M[:, 1 + d + i], orig["yds"][:, i], "columns of velocities")
        same(M[:, 1 + 2 * d + i], orig["ydds"][:, i], "columns of accelerations")
    for i in range(nm):
        same(M[:, 1 + 3 * d + i], orig["misc"][:, i], "columns of miscellaneous variables")
    M0 = M.copy()
    back = Trajectory.from_matrix(M, nm)
    compare(back, orig, "matrix round trip")
    check(back.dim == d and back.dim_misc == nm and back.length == n, "sizes after the matrix round trip")
    close(back.dt_mean, traj.dt_mean, "mean time step after the matrix round trip", rtol=1e-12)
    same(back.as_matrix(), M0, "matrix of the converted trajectory")
    if nm == 0:
        compare(Trajectory.from_matrix(M), orig, "matrix round trip with default n_dims_misc")

    # File
    fn = os.path.join(ctx.scratch, "traj.txt")
    traj.savetxt(fn)
    loaded = Trajectory.loadtxt(fn, nm) if nm else Trajectory.loadtxt(fn)
    compare(loaded, orig, "file round trip", atol=0.500001e-7)
    close(np.loadtxt(fn), M0, "layout of the file", rtol=1e-15, atol=0.500001e-7)
    loaded.savetxt(fn)
    compare(Trajectory.loadtxt(fn, nm), snapshot(loaded), "second file round trip", atol=1e-12)
    os.remove(fn)

    # Data frame
    df = traj.as_dataframe()
    cols = ["t"] + [f"{p}{i}" for p in ("y", "yd", "ydd") for i in range(d)] + [f"misc{i}" for i in range(nm)]
    check(list(df.columns) == cols, "columns of the data frame", got=list(df.columns))
    same(df.to_numpy(), M0, "values of the data frame")
    compare(Trajectory.from_matrix(df.to_numpy(), nm), orig, "data frame round trip")

    # Neither the arrays passed nor the trajectory are altered
    M += 100.0
    df += 100.0
    for a, b in zip(args, copies):
        if a is not None:
            same(a, b, "converting alters the arrays passed to the constructor")
    compare(traj, orig, "original after converting")
    ctx.label(f"{d} dimensions", f"misc {c['misc']}", f"derivatives {c['derivs']}")
    ctx.nt(d > 1 or nm > 0)


@st.composite
def alias_cases(draw):
    return {
        "traj": draw(traj_spec(n_min=6)),
        "edits": draw(st.lists(st.sampled_from(["pad_front", "pad_end", "crop", "append", "prepend", "zero", "recompute", "misc"]), min_size=1, max_size=5)),
    }


def run_alias(case, ctx):
    """Trajectories made from the same data (or from each other) are independent."""
    from dmpbbo.dmps.Trajectory import Trajectory

    c = case["traj"]
    args = arrays(c)
    copies = [None if a is None else a.copy() for a in args]
    a, b = Trajectory(*args), Trajectory(*args)
    M = a.as_matrix()
    M0 = M.copy()
    d = Trajectory.from_matrix(M, a.dim_misc)
    # shares all its fields with a
    e = Trajectory(a.ts, a.ys, a.yds, a.ydds, a.misc)
    other = build(dict(c, seed=c["seed"] + 1))
    keep = [(t, snapshot(t)) for t in (b, d, e, other)]
    for i, ed in enumerate(case["edits"]):
        if ed == "pad_front":
            a.pad_front(3)
        elif ed == "pad_end":
            a.pad_end(3)
        elif ed == "crop":
            a.crop(1, a.length - 1)
        elif ed == "append":
            a.append(other)
        elif ed == "prepend":
            a.prepend(other)
        elif ed == "zero":
            a.set_start_time_to_zero()
        elif ed == "recompute":
            a.recompute_derivatives()
        else:
            if other.has_misc():
                a.misc = np.ones((a.length, other.dim_misc))
            else:
                a.misc = np.ones((a.length, 2))
        if a.length < 4:
            break
        for t, s in keep:
            compare(t, s, f"another trajectory after edit {i} ({ed})")
        for u, v in zip(args, copies):
            if u is not None:
                same(u, v, f"array of the caller after edit {i} ({ed})")
        same(M, M0, f"matrix after edit {i} ({ed})")
    ctx.nt(len(case["edits"]) > 1)


@st.composite
def reject_cases(draw):
    return {"traj": draw(traj_spec(n_min=4, derivs=False)), "field": draw(st.sampled_from(["ts", "ys", "yds", "ydds", "misc", "set_misc", "yds_dim", "ydds_dim"])), "delta": draw(st.sampled_from([-2, -1, 1]))}


def run_reject(case, ctx):
    from dmpbbo.dmps.Trajectory import Trajectory

    c = dict(case["traj"], flat=False)
    ts, ys, yds, ydds, misc = arrays(c)
    n, d = c["n"], c["dim"]
    f, m = case["field"], n + case["delta"]
    z = np.ones((m, d))
    if f == "ts":
        raises(ValueError, lambda: Trajectory(np.arange(m) * 0.1, ys, yds, ydds, misc), "times of the wrong size")
    elif f == "ys":
        raises(ValueError, lambda: Trajectory(ts, z, yds, ydds, misc), "positions of the wrong size")
    elif f == "yds":
        raises(ValueError, lambda: Trajectory(ts, ys, z, ydds, misc), "velocities of the wrong size")
    elif f == "ydds":
        raises(ValueError, lambda: Trajectory(ts, ys, yds, z, misc), "accelerations of the wrong size")
    elif f == "misc":
        raises(ValueError, lambda: Trajectory(ts, ys, yds, ydds, np.ones((m, 2))), "misc of the wrong size")
    elif f == "yds_dim":
        raises(ValueError, lambda: Trajectory(ts, ys, np.ones((n, d + 1)), ydds, misc), "velocities of the wrong dimensionality")
    elif f == "ydds_dim":
        raises(ValueError, lambda: Trajectory(ts, ys, yds, np.ones((n, d + 1)), misc), "accelerations of the wrong dimensionality")
    else:
        t = Trajectory(ts, ys, yds, ydds, misc)
        before = snapshot(t)

        def set_it():
            t.misc = np.ones((m, 2))

        raises(ValueError, set_it, "misc of the wrong size")
        compare(t, before, "after rejecting misc")
        t.misc = np.full((n, 2), 3.0)
        same(t.misc, np.full((n, 2), 3.0), "misc")
        check(t.dim_misc == 2, "dim_misc")
    ctx.label(f)
    ctx.nt()


@st.composite
def single_cases(draw):
    return {"traj": draw(traj_spec(n_min=2)), "at": draw(seeds())}


def run_single(case, ctx):
    """Trajectories with a single sample (e.g. cropped) are converted, too."""
    from dmpbbo.dmps.Trajectory import Trajectory

    c = case["traj"]
    a = build(c)
    full = snapshot(a)
    i = case["at"] % c["n"]
    a.crop(i, i + 1)
    one = {k: None if v is None else v[i : i + 1] for k, v in full.items()}
    compare(a, one, "cropped to one sample")
    nm = a.dim_misc
    M = a.as_matrix()
    check(M.shape == (1, 1 + 3 * c["dim"] + nm), "shape of the matrix", got=M.shape)
    same(M[0], np.concatenate([v[0] if v.ndim == 2 else v for v in one.values() if v is not None]), "matrix of one sample")
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")  # a single sample has no mean time step
        compare(Trajectory.from_matrix(M, nm), one, "matrix round trip of one sample")
        fn = os.path.join(ctx.scratch, "single.txt")
        a.savetxt(fn)
        compare(Trajectory.loadtxt(fn, nm), one, "file round trip of one sample", atol=0.500001e-7)
        os.remove(fn)
        compare(Trajectory.from_matrix(a.as_dataframe().to_numpy(), nm), one, "data frame round trip of one sample")
    ctx.nt(c["dim"] > 1 or nm > 0)


SUBS = [
    Sub("round_trip", cases, run, quick=900, thorough=25000, shards=5),
    Sub("independent", alias_cases, run_alias, quick=600, thorough=15000, shards=2),
    Sub("single", single_cases, run_single, quick=300, thorough=3000, shards=1),
    Sub("rejected", reject_cases, run_reject, quick=300, thorough=3000, shards=1),
]
