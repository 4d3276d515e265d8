"""C30: C++ trajectories and matrix files agree with the Python ones."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import cpp
from vf.checks import c16
from vf.core import Sub, check, close, same
from vf.gen import log_real, real, seeds, size
from vf.systems import arr
from vf.trajs import arrays, traj_spec

RULE = (
    "Cases are matrices written by C++ into files, directories and over existing files; text files in many layouts, some malformed; trajectories exchanged "
    "between Python and C++ as text files; boundary conditions of generated trajectories; trajectories that are cut into pieces and appended. "
    "Non-trivial: a shape other than square, a file that is not laid out as written by numpy, misc columns, or times not in [0,1]"
)
ASSUMPTIONS = ["Python's generated trajectories are decided by C16", "C++ writes 6 decimals, Python 7"]


def prepare():
    cpp.build("plain")


def setup():
    return cpp.Driver("plain")


def fresh(ctx):
    return tempfile.mkdtemp(dir=ctx.scratch)


# --- matrices that are saved -------------------------------------------------------------------


@st.composite
def matrices(draw, max_rows=12, max_cols=6):
    return {"rows": draw(size(1, max_rows, 15 * max_rows)), "cols": draw(size(1, max_cols, 5 * max_cols)), "amp": draw(log_real(1e-4, 1e6)), "seed": draw(seeds()),
            "kind": draw(st.sampled_from(["normal", "normal", "integers", "huge", "zeros"]))}


def matrix(c):
    rng = np.random.default_rng(c["seed"])
    m = c["amp"] * rng.normal(size=(c["rows"], c["cols"]))
    if c["kind"] == "integers":
        m = np.round(m)
    elif c["kind"] == "huge":
        m = m * 10.0 ** rng.integers(-8, 9, size=m.shape)
    elif c["kind"] == "zeros":
        m = m * (rng.uniform(size=m.shape) < 0.4)
    return m


@st.composite
def save_cases(draw):
    f = st.fixed_dictionaries({
        "matrix": matrices(), "file": st.sampled_from(["a.txt", "b", "c d.dat"]), "dir": st.sampled_from([None, "", "x", "x/y", "z/", "new/p/q"]),
        "overwrite": st.booleans(),
    })
    return {"ops": draw(st.lists(st.one_of(f, f, f, st.fixed_dictionaries({"fault": st.sampled_from(["file as directory", "directory as file", "disk full", "no directory", "empty directory"]), "matrix": matrices()})), min_size=1, max_size=7))}


def run_save(case, ctx):
    drv = ctx.state
    drv.reset()
    root = fresh(ctx)
    content = {}  # path -> matrix (reference model)
    for o in case["ops"]:
        m = matrix(o["matrix"])
        if "fault" in o:
            ctx.label("fault: " + o["fault"])
            f = o["fault"]
            if f == "file as directory":
                drv("mat_save", file=os.path.join(root, "plainfile"), matrix=m, overwrite=True)
                r = drv("mat_save", directory=os.path.join(root, "plainfile"), file="m.txt", matrix=m, overwrite=True)
                content[os.path.join(root, "plainfile")] = m
            elif f == "directory as file":
                os.makedirs(os.path.join(root, "isdir"), exist_ok=True)
                r = drv("mat_save", file=os.path.join(root, "isdir"), matrix=m, overwrite=True)
            elif f == "disk full":
                r = drv("mat_save", file="/dev/full", matrix=m, overwrite=True)
            elif f == "no directory":
                r = drv("mat_save", file=os.path.join(root, "not", "there", "m.txt"), matrix=m, overwrite=True)
            else:
                r = drv("mat_save", directory="", file=os.path.join(root, "m.txt"), matrix=m, overwrite=True)
                check(not os.path.exists(os.path.join(root, "m.txt")), "a file was written though saving failed")
            check(r["ok"] is False, f"saving must fail ({f})", got=r["ok"])
        else:
            if o["dir"] is None:
                path = os.path.join(root, o["file"])
                r = drv("mat_save", file=path, matrix=m, overwrite=o["overwrite"])
            else:
                d = os.path.join(root, o["dir"])
                path = os.path.join(d, o["file"])
                r = drv("mat_save", directory=d, file=o["file"], matrix=m, overwrite=o["overwrite"])
            path = os.path.normpath(path)
            ok = o["overwrite"] or path not in content
            check(r["ok"] is ok, "result of saving a matrix", got=r["ok"], expected=ok, op=o)
            if ok:
                content[path] = m
            else:
                ctx.label("not overwritten")
            ctx.nt(m.shape[0] != m.shape[1] or not ok)
        for p, ref in content.items():
            # rounding to 6 decimals, then to double
            tol = 5.001e-7 + 4e-16 * np.max(np.abs(ref))
            close(np.loadtxt(p, ndmin=2), ref, "matrix saved by C++, read by numpy", rtol=0, atol=tol)
            r = drv("mat_load", file=p)
            check(r["ok"] is True, "loading a saved matrix failed")
            close(r["matrix"], ref, "matrix saved by C++, read by C++", rtol=0, atol=tol)
            if np.all(np.abs(ref) < 2e9):
                r = drv("mat_load", file=p, type="int")
                check(r["ok"] is False, "real numbers accepted as integers")
    found = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
    check(found == sorted(content), "files", got=found, expected=sorted(content))


# --- files with various layouts ----------------------------------------------------------------

FMT = {"%f": "%f", "%g": "%.17g", "%e": "%.16e", "%E": "%.9E", "%+": "%+.5f", "int": "%d", "plain": "%s"}


@st.composite
def layout_cases(draw):
    m = draw(matrices(max_rows=8, max_cols=5))
    return {
        "matrix": m,
        "fmt": draw(st.sampled_from(sorted(FMT))),
        "sep": draw(st.sampled_from([" ", "  ", "\t", " \t "])),
        "lead": draw(st.sampled_from(["", "", " ", "\t  "])),
        "trail": draw(st.sampled_from(["", "", " ", "\t", "  "])),
        "eol": draw(st.sampled_from(["\n", "\n", "\r\n"])),
        "end": draw(st.sampled_from(["eol", "none", "blank", "blanks", "spaces"])),
        "blank_at": draw(st.one_of(st.none(), st.integers(0, 8))),
        "type": draw(st.sampled_from(["matrix", "matrix", "int"])),
        "bad": draw(st.one_of(st.none(), st.none(), st.sampled_from(["word", "comma", "short row", "long row", "empty", "blank", "missing", "comment", "suffix", "directory"]))),
        "at": [draw(st.integers(0, 100)), draw(st.integers(0, 100))],
        "word": draw(st.sampled_from(["abc", "x1", "--3", "1.2.3", "#", "1e", "e5", ";", "None"])),
    }


def run_layout(case, ctx):
    drv = ctx.state
    drv.reset()
    m = matrix(case["matrix"])
    isint = case["fmt"] == "int"
    if isint:
        m = np.clip(np.round(m), -2e9, 2e9)
    f = FMT[case["fmt"]]
    words = [[f % (int(v) if isint else v) for v in row] for row in m]
    i, j = case["at"][0] % m.shape[0], case["at"][1] % m.shape[1]
    bad = case["bad"]
    if bad == "word":
        words[i][j] = case["word"]
    elif bad == "comma":
        words[i][j] += ","
    elif bad == "suffix":
        words[i][j] += "m"
    elif bad == "short row" and m.shape[0] > 1 and m.shape[1] > 1:
        words[i].pop(j)
    elif bad == "long row" and m.shape[0] > 1:
        words[i].insert(j, words[i][j])
    elif bad == "comment":
        words.insert(0, ["#", "ts", "ys"])
    elif bad in ("short row", "long row"):
        bad = None
    lines = [case["lead"] + case["sep"].join(w) + case["trail"] for w in words]
    if case["blank_at"] is not None:
        lines.insert(case["blank_at"] % (len(lines) + 1), case["trail"])
    text = case["eol"].join(lines)
    text += {"eol": case["eol"], "none": "", "blank": 2 * case["eol"], "blanks": 3 * case["eol"], "spaces": case["eol"] + "   "}[case["end"]]
    if bad == "empty":
        text = ""
    elif bad == "blank":
        text = case["eol"] * 2 + case["trail"]
    path = os.path.join(fresh(ctx), "m.txt")
    if bad == "directory":
        os.mkdir(path)
    elif bad != "missing":
        with open(path, "w", newline="") as fh:
            fh.write(text)
    r = drv("mat_load", file=path, type=case["type"])
    ctx.label("bad: " + bad if bad else "good", case["type"])
    if bad:
        check(r["ok"] is False, f"malformed file accepted ({bad})", text=text, got=r["matrix"])
        ctx.nt()
        t = drv("traj_read", id="bad", file=path)
        check(t["length"] == 0, "trajectory read from a malformed file", text=text)
        return
    if case["type"] == "int" and not isint:
        # e.g. 3e+01 is not an integer for C++
        ints = all("." not in w and "e" not in w.lower() for row in words for w in row)
        if not ints:
            check(r["ok"] is False, "real numbers accepted as integers", text=text, got=r["matrix"])
            return
    ref = np.array([[float(w) for w in row] for row in words])
    check(r["ok"] is True, "file rejected", text=text)
    same(r["matrix"], ref, "matrix in a file", text=text)
    ctx.nt(case["lead"] != "" or case["trail"] != "" or case["sep"] != " " or case["eol"] != "\n" or case["end"] != "eol" or case["blank_at"] is not None)


# --- trajectories in files ---------------------------------------------------------------------


@st.composite
def file_cases(draw):
    s = draw(traj_spec(n_min=2, n_max=15))
    return {
        "traj": s, "via": draw(st.sampled_from(["python", "c++", "c++ directory", "both"])),
        "set_misc": draw(st.one_of(st.none(), st.none(), st.fixed_dictionaries({"cols": st.integers(0, 3), "rows": st.sampled_from(["1", "n", "wrong"]), "seed": seeds()}))),
        "overwrite": draw(st.booleans()), "exists": draw(st.booleans()),
    }


def columns(t):
    """Fields of a trajectory of the driver."""
    n = t["length"]
    return {k: np.reshape(t[k], (n, -1)) if k != "ts" else np.reshape(t[k], n) for k in ("ts", "ys", "yds", "ydds")} | {"misc": np.reshape(t["misc"], (n, -1)) if t["dim_misc"] else None}


def check_traj(t, ref, what, tol=0.0):
    """ref: columns; all other results of the trajectory must be consistent with it."""
    n, d = ref["ys"].shape
    m = 0 if ref["misc"] is None else ref["misc"].shape[1]
    check((t["length"], t["dim"], t["dim_misc"]) == (n, d, m), f"{what}: sizes", got=(t["length"], t["dim"], t["dim_misc"]), expected=(n, d, m))
    c = columns(t)
    for k, v in ref.items():
        if v is None:
            check(c[k] is None, f"{what}: {k}")
        elif tol:
            close(c[k], v, f"{what}: {k}", rtol=0, atol=tol)
        else:
            same(c[k], v, f"{what}: {k}")
    cols = [np.reshape(c["ts"], (n, 1)), c["ys"], c["yds"], c["ydds"]] + ([c["misc"]] if m else [])
    same(t["matrix"], np.hstack(cols), f"{what}: as matrix")
    same(t["initial_y"], c["ys"][0], f"{what}: initial state")
    same(t["final_y"], c["ys"][-1], f"{what}: final state")
    same(t["range"], np.ptp(c["ys"], axis=0), f"{what}: range")
    check(t["duration"] == c["ts"][-1] - c["ts"][0], f"{what}: duration", got=t["duration"])


def python_columns(t):
    misc = t.misc if t.has_misc() and t.dim_misc > 0 else None
    return {"ts": t.ts, "ys": t.ys, "yds": t.yds, "ydds": t.ydds, "misc": misc}


def run_files(case, ctx):
    from dmpbbo.dmps.Trajectory import Trajectory

    drv = ctx.state
    drv.reset()
    root = fresh(ctx)
    t = Trajectory(*arrays(case["traj"]))
    ref = {k: None if v is None else np.array(v) for k, v in python_columns(t).items()}
    m = 0 if ref["misc"] is None else ref["misc"].shape[1]
    args = {k: ref[k] for k in ("ts", "ys", "yds", "ydds")}
    big = max(np.max(np.abs(v)) for v in ref.values() if v is not None)
    ctx.label(case["via"], f"misc {m}")
    path = os.path.join(root, "t.txt")
    if case["via"] in ("python", "both"):
        t.savetxt(path)
        data = np.loadtxt(path)
        close(data, t.as_matrix(), "trajectory saved by Python", rtol=0, atol=5.001e-8 + 4e-16 * big)
        r = drv("traj_read", id="t", file=path, n_misc=m)
        d = ref["ys"].shape[1]
        cuts = {"ts": data[:, 0], "ys": data[:, 1 : d + 1], "yds": data[:, d + 1 : 2 * d + 1], "ydds": data[:, 2 * d + 1 : 3 * d + 1], "misc": data[:, 3 * d + 1 :] if m else None}
        check_traj(r, cuts, "Python -> file -> C++")
        ref, tol = cuts, 5.001e-7
    else:
        r = drv("traj_make", id="t", misc=ref["misc"], **args)
        check_traj(r, ref, "C++")
    c = case["set_misc"]
    if c is not None:
        n = ref["ts"].size
        rows = {"1": 1, "n": n, "wrong": n + 1}[c["rows"]]
        v = np.random.default_rng(c["seed"]).normal(size=(rows, c["cols"]))
        if c["cols"] or rows == n:
            r = drv("traj_set_misc", id="t", misc=v)
            if rows == 1 or rows == n:
                ref["misc"] = np.tile(v, (n, 1)) if rows == 1 else v
                if c["cols"] == 0:
                    ref["misc"] = None
                m = c["cols"]
            check_traj(r, ref, "after setting misc")
    if case["via"] != "python":
        out = os.path.join(root, "new", "o.txt")
        if case["exists"]:
            os.makedirs(os.path.join(root, "new"))
            with open(out, "w") as f:
                f.write("1 2 3 4")
        ok = case["overwrite"] or not case["exists"]
        if case["via"] == "c++ directory":
            s = drv("traj_save", id="t", directory=os.path.join(root, "new"), file="o.txt", overwrite=case["overwrite"])
        else:
            os.makedirs(os.path.join(root, "new"), exist_ok=True)
            s = drv("traj_save", id="t", file=out, overwrite=case["overwrite"])
        check(s["ok"] is ok, "result of saving a trajectory", got=s["ok"], expected=ok)
        if not ok:
            with open(out) as f:
                check(f.read() == "1 2 3 4", "existing file was changed")
        else:
            tol = 5.001e-7 + 4e-16 * big
            back = Trajectory.loadtxt(out, n_dims_misc=m)
            got = python_columns(back)
            for k, v in ref.items():
                if v is None:
                    check(got[k] is None, f"C++ -> file -> Python: {k}", got=got[k])
                else:
                    close(got[k], v, f"C++ -> file -> Python: {k}", rtol=0, atol=tol)
            r = drv("traj_read", id="t2", file=out, n_misc=m)
            check_traj(r, ref, "C++ -> file -> C++", tol=tol)
            rows = drv("traj_show", id="t2")["text"].strip().split("\n")
            check(len(rows) == ref["ts"].size and all(len(w.split()) == r["matrix"].shape[1] for w in rows), "printed trajectory", text=rows)
    ctx.nt(m > 0 or ref["ts"][0] != 0)


# --- generated trajectories --------------------------------------------------------------------


@st.composite
def generator_cases(draw):
    c = draw(c16.cases())
    if c["kind"] == "viapoint" and draw(st.integers(0, 5)) == 0:
        c["late"] = True
    return c


def run_generated(case, ctx):
    drv = ctx.state
    drv.reset()
    c = case
    ts = c16.grid(c["grid"])
    d = len(c["y_from"])
    zero = [0.0] * d
    args = {"from": arr(c["y_from"]), "to": arr(c["y_to"])}
    how = {"min_jerk": "minjerk", "polynomial": "polynomial", "viapoint": "viapoint"}[c["kind"]]
    if c["kind"] == "polynomial":
        args.update({k: arr(c[k]) for k in ("yd_from", "ydd_from", "yd_to", "ydd_to")})
    if c["kind"] == "viapoint":
        args.update(via=np.concatenate([arr(c[k]) for k in ("y_via", "yd_via", "ydd_via")]), via_time=c16.viapoint_time(c, ts))
        if c.get("late"):
            r = drv("traj_generate", id="g", ts=ts, how=how, **dict(args, via_time=float(ts[-1] + 0.5 * c["grid"]["T"])))
            check(r["length"] == 0, "viapoint after the end of the trajectory")
    r = drv("traj_generate", id="g", ts=ts, how=how, **args)
    py = c16.generate(c, ts)
    segs = c16.segments(c, ts)
    conds = [[c["y_from"], c.get("yd_from", zero), c.get("ydd_from", zero)], [c["y_to"], c.get("yd_to", zero), c.get("ydd_to", zero)]]
    if c["kind"] == "viapoint":
        conds.append([c["y_via"], c["yd_via"], c["ydd_via"]])
    mag = lambda k: max(np.max(np.abs(q[k])) for q in conds)  # noqa
    S = 0.1 + mag(0) + max(ts[b] - ts[a] for a, b in segs) * mag(1) + max((ts[b] - ts[a]) ** 2 for a, b in segs) * mag(2)
    S *= 30
    Tmin = min(ts[b] - ts[a] for a, b in segs)
    tol = 1e-10 + 1e-13 * np.max(np.abs(ts)) / Tmin
    same(np.reshape(r["ts"], -1), ts, "times")
    for i, k in enumerate(("ys", "yds", "ydds")):
        close(r[k], getattr(py, k), f"{how} trajectory in C++ and Python: {k}", rtol=tol, atol=0, scale=S * 20**i / Tmin**i)
    check_traj(r, columns(r), "generated")
    ctx.label(how)
    ctx.nt(c["grid"]["T"] != 1.0 or c["grid"]["t0"] != 0.0)


# --- append ------------------------------------------------------------------------------------


@st.composite
def append_cases(draw):
    s = draw(traj_spec(n_min=4, n_max=25))
    if s["special"]:
        s["special"] = 0.0  # movements are continuous
    s["derivs"], s["flat"] = "given", False
    return {"traj": s, "cuts": sorted(draw(st.lists(st.integers(0, 1000), min_size=1, max_size=4))), "noise": draw(st.booleans()), "shift": draw(st.one_of(st.just(0.0), real(-1e3, 1e3))), "single": draw(st.booleans()), "other_misc": draw(st.booleans())}


def run_append(case, ctx):
    drv = ctx.state
    drv.reset()
    ts, ys, yds, ydds, misc = arrays(case["traj"])
    n = ts.size
    ys = np.reshape(ys, (n, -1)) + case["shift"]
    cols = {"ts": ts, "ys": ys, "yds": np.reshape(yds, (n, -1)), "ydds": np.reshape(ydds, (n, -1)), "misc": None if misc is None or misc.size == 0 else np.reshape(misc, (n, -1))}
    cuts = sorted({1 + k % (n - 2) for k in case["cuts"]})
    bounds = [0] + cuts + [n - 1]
    if case["single"]:
        bounds.append(n - 1)  # appending a trajectory with one sample changes nothing
    rng = np.random.default_rng(case["traj"]["seed"] + 1)
    for i in range(len(bounds) - 1):
        part = {k: None if v is None else np.array(v[bounds[i] : bounds[i + 1] + 1]) for k, v in cols.items()}
        if i > 0 and case["noise"]:
            # the sample in common may differ by rounding
            for k in ("ys", "yds", "ydds"):
                part[k][0] += 1e-13 * np.max(np.abs(cols[k])) * rng.normal(size=part[k][0].shape)
        if i > 0 and case["other_misc"] and part["misc"] is not None:
            # misc need not be continuous: the sample in common is the one of the first trajectory
            part["misc"][0] += rng.normal(size=part["misc"][0].shape)
            ctx.label("other misc at the joint")
        drv("traj_make", id=f"p{i}", **part)
        if i > 0:
            r = drv("traj_append", id="p0", other=f"p{i}")
            other = {k: v if v is not None else None for k, v in part.items()}
            check_traj(r["other"], other, "trajectory that was appended")
            check_traj(r, {k: None if v is None else v[: bounds[i + 1] + 1] for k, v in cols.items()}, "trajectories joined")
    ctx.label(f"{len(bounds) - 1} parts", "misc" if cols["misc"] is not None else "no misc")
    ctx.nt(len(bounds) > 3 or cols["misc"] is not None)


SUBS = [
    Sub("saving", save_cases, run_save, quick=900, thorough=20000, shards=2, setup=setup, rule="a refused save, or a matrix that is not square"),
    Sub("layouts", layout_cases, run_layout, quick=2400, thorough=60000, shards=1, setup=setup, rule="malformed, or not the layout written by numpy"),
    Sub("files", file_cases, run_files, quick=1500, thorough=40000, shards=2, setup=setup, rule="misc columns, or times not starting at 0"),
    Sub("generated", generator_cases, run_generated, quick=1500, thorough=40000, shards=1, setup=setup, rule="duration other than 1, or not starting at 0"),
    Sub("append", append_cases, run_append, quick=1500, thorough=40000, shards=2, setup=setup, rule="more than two parts, or misc columns"),
]
