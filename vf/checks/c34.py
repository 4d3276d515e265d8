"""C34: What the robot executes is the movement that was exported, and the workflow of the robot demo is consistent."""
import contextlib
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import cpp
from vf.checks.c20 import ref_weights
from vf.checks.c33 import ball_ok, fly, robot_module, throw_costs
from vf.core import Sub, Violation, check, close, same
from vf.demos import demo_spec, demo_traj
from vf.dmps import build_dmp, dmp_spec
from vf.gen import log_real, real, seeds, size, vec
from vf.systems import arr

RULE = (
    "A case is a 2-D DMP exported by Python and executed by robotExecuteDmp, a trajectory written by Python and executed by robotExecuteTrajectory, or "
    "the steps 1-5 of the robot demo with 1-3 updates, in which the programs play the robot. Non-trivial: the ball is released (programs), at least two "
    "updates (workflow)"
)
ASSUMPTIONS = ["the robot is simulated: it moves as desired", "C++ writes 6 decimals, Python 7"]
DIGITS = 6e-7


def prepare():
    r = "demos/robot/"
    cpp.build("plain", {
        "robotExecuteDmp": [r + "robotExecuteDmp.cpp", r + "runSimulationThrowBall.cpp"],
        "robotExecuteTrajectory": [r + "robotExecuteTrajectory.cpp", r + "runSimulationThrowBall.cpp"],
    })


def execute(name, *args, cwd):
    """Exit code of a program."""
    try:
        p = subprocess.run([cpp.program(name), *args], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        raise Violation(f"{name} did not finish within 60 s")
    return p.returncode, p.stdout.decode(errors="replace")


def succeeds(name, *args, cwd):
    rc, out = execute(name, *args, cwd=cwd)
    check(rc == 0, f"{name} failed with exit code {rc}: {out[-800:]}")


# --- oracle: what the robot records ---------------------------------------------------------------


def rows_ok(ctx, M, ts, dts, hand, scale, what):
    """
    M: what was recorded; ts: times at which a step begins; dts: durations of steps; hand: its positions, velocities, accelerations
    scale: magnitudes of the columns of the hand.
    """
    n = len(ts)
    check(M.shape == (n, 14), f"{what}: size", got=M.shape, expected=(n, 14))
    H = np.column_stack(hand)
    clock = np.cumsum(dts)
    close(M[:, 0], clock, f"{what}: times", rtol=1e-9, atol=DIGITS)
    close(M[:, 1:7], H, f"{what}: movement of the hand", rtol=1e-8, atol=DIGITS, scale=scale)
    flag = M[:, 13]
    check(np.all((flag == 0) | (flag == 1)), f"{what}: the ball is in the hand, or not", got=flag)
    start = clock - dts
    free = np.flatnonzero(flag == 0)
    r = int(free[0]) if free.size else n
    check(np.all(flag[r:] == 0), f"{what}: the ball returns into the hand", got=flag)
    check(r == n or start[r] > 0.6 - 1e-9, f"{what}: the ball is released too early", got=start[min(r, n - 1)])
    check(r == 0 or start[r - 1] <= 0.6 + 1e-9, f"{what}: the ball is released too late", got=start[r - 1])
    ctx.nt(r < n)
    last = min(r, n - 1)
    close(M[: last + 1, 7:13], H[: last + 1], f"{what}: the ball is in the hand", rtol=1e-8, atol=DIGITS, scale=scale)
    ball_ok(ctx, M[:, 7:9], ts, dts, (H[:, :2], H[:, 2:4]), -0.3, scale, start, rtol=1e-8, atol=2 * DIGITS)
    ref = fly(ts, dts, (H[:, :2], H[:, 2:4]), -0.3, last)[0][0]
    on_floor = M[:, 8] == -0.3
    for i in range(r + 1, n):
        if not on_floor[i]:
            close(M[i, 11:13], [0.0, -9.81], f"{what}: acceleration of the ball in the air", atol=DIGITS)
            v = H[r, 2:4] + np.array([0.0, -9.81]) * np.sum(dts[r + 1 : i + 1])
            close(M[i, 9:11], v, f"{what}: velocity of the ball in the air", rtol=1e-8, atol=DIGITS, scale=scale[2] + 9.81 * clock[-1])
        elif abs(ref[i, 1] + 0.3) <= 1e-12:
            close(M[i, 9:13], np.zeros(4), f"{what}: the ball lies on the floor", atol=DIGITS)
            same(M[i:, 7:9], np.tile(M[i, 7:9], (n - i, 1)), f"{what}: the ball moves on the floor")
            break


def dmp_rows(ctx, M, dmp, what):
    """M: what was recorded for a DMP; dmp: freshly loaded or built."""
    T = 1.5 * dmp.tau
    counts = {int(np.floor(T / 0.01 + e)) for e in (-1e-9, 1e-9)}
    check(M.shape[0] in counts, f"{what}: number of time steps", got=M.shape[0], expected=counts)
    n = M.shape[0]
    rows = []
    x, xd = dmp.integrate_start()
    for _ in range(n):
        rows.append(np.concatenate(dmp.states_as_pos_vel_acc(x, xd)))
        x, xd = dmp.integrate_step(0.01, x)
    H = np.array(rows)
    scale = np.repeat(np.max(np.abs(H).reshape(n, 3, 2), axis=(0, 2)), 2) + 1e-12
    dts = np.full(n, 0.01)
    rows_ok(ctx, M, np.cumsum(dts) - 0.01, dts, (H[:, :2], H[:, 2:4], H[:, 4:]), scale, what)


# --- programs --------------------------------------------------------------------------------------

OUT = ["cost_vars.txt", "cost_vars.txt", "sub/x.txt", "absolute", "with space.txt", "existing.txt"]
FAULTS = ["no input", "truncated input", "no directory", "too few arguments", "disk full"]


@st.composite
def faults(draw):
    return draw(st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.none(), st.none(), st.sampled_from(FAULTS)))


@st.composite
def dmp_cases(draw):
    d = draw(dmp_spec(types=["IJSPEERT_2002_MOVEMENT", "KULVICIUS_2012_JOINING", "COUNTDOWN_2013"], amp=300.0, via=True))
    for k in ("y_init", "y_attr", "amplitudes"):
        if k in d:
            d[k] = (d[k] * 2)[:2]
    for k in ("y_init", "y_attr"):
        if k in d.get("via", {}):
            d["via"][k] = (d["via"][k] * 2)[:2]
    if d["fas"] is not None:
        d["fas"] = (d["fas"] * 2)[:2]
    d["tau"] = draw(st.one_of(log_real(0.37, 3.0), st.sampled_from([0.5, 1.0, 2.0])))
    return {"dmp": d, "out": draw(st.sampled_from(OUT)), "fault": draw(faults())}


class Files:
    """A scratch directory with the files of one execution."""

    def __init__(self, ctx, out):
        self.top = tempfile.mkdtemp(dir=ctx.scratch)
        os.mkdir(os.path.join(self.top, "sub"))
        self.out = os.path.join(self.top, "abs.txt") if out == "absolute" else out
        self.path = os.path.join(self.top, self.out)
        if out == "existing.txt":
            with open(self.path, "w") as f:
                f.write("1.0 2.0\n" * 1000)

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def run_fault(ctx, program, fault, files, source):
    """An execution that cannot succeed is reported, and does not write anything that looks like a result."""
    ctx.label("fault: " + fault)
    args = [source, files.out]
    target = files.path
    content = open(target).read() if os.path.exists(target) else None
    if fault == "no input":
        args[0] = "missing.json"
    elif fault == "truncated input":
        text = open(os.path.join(files.top, source)).read()
        with open(os.path.join(files.top, source), "w") as f:
            f.write(text[: len(text) // 2] if source.endswith("json") else "1.0 2.0 3.0\n4.0\n")
    elif fault == "no directory":
        args[1] = "nowhere/x.txt"
        target = os.path.join(files.top, args[1])
        content = None
    elif fault == "too few arguments":
        args = args[:1]
    elif fault == "disk full":
        args[1] = "full"
        os.symlink("/dev/full", os.path.join(files.top, "full"))
    rc, _ = execute(program, *args, cwd=files.top)
    check(rc != 0, f"{program} reports success: {fault}")
    if fault != "disk full":
        check((open(target).read() if os.path.exists(target) else None) == content, f"{program} wrote results: {fault}")


def run_dmp(case, ctx):
    import dmpbbo.json_for_cpp as jc

    s = case["dmp"]
    files = Files(ctx, case["out"])
    try:
        dmp = build_dmp(s)
        jc.savejson_for_cpp(os.path.join(files.top, "dmp.json"), dmp)
        if case["fault"]:
            return run_fault(ctx, "robotExecuteDmp", case["fault"], files, "dmp.json")
        succeeds("robotExecuteDmp", "dmp.json", files.out, cwd=files.top)
        ctx.label(s["type"], case["out"])
        dmp_rows(ctx, np.loadtxt(files.path), build_dmp(s), "executing a DMP")
    finally:
        files.close()


@st.composite
def traj_cases(draw):
    return {
        "n": draw(size(2, 60, 300, 4)), "T": draw(log_real(0.3, 4.0)), "t0": draw(st.sampled_from([0.0, 0.0, 2.5, -1.0])), "jitter": draw(st.sampled_from([0.0, 0.5])), "amp": draw(log_real(0.05, 3.0)),
        "seed": draw(seeds()), "out": draw(st.sampled_from(OUT)), "fault": draw(faults()), "format": draw(st.sampled_from(["trajectory", "numpy", "exponents"])),
    }


def run_traj(case, ctx):
    from dmpbbo.dmps.Trajectory import Trajectory

    c = case
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    steps = rng.uniform(1 - c["jitter"], 1 + c["jitter"], n - 1)
    ts = c["t0"] + np.concatenate(([0.0], np.cumsum(steps) * c["T"] / np.sum(steps)))
    ts = np.round(ts, 7)
    H = [np.round(c["amp"] * k * rng.normal(size=(n, 2)), 7) for k in (1.0, 2.0, 5.0)]
    traj = Trajectory(ts, *H)
    files = Files(ctx, c["out"])
    try:
        source = os.path.join(files.top, "traj.txt")
        if c["format"] == "trajectory":
            traj.savetxt(source)
        else:
            np.savetxt(source, traj.as_matrix(), fmt="%.12f" if c["format"] == "numpy" else "%.18e")
        if c["fault"]:
            return run_fault(ctx, "robotExecuteTrajectory", c["fault"], files, "traj.txt")
        succeeds("robotExecuteTrajectory", "traj.txt", files.out, cwd=files.top)
        M = np.atleast_2d(np.loadtxt(files.path))
        dts = np.concatenate(([ts[1] - ts[0]], np.diff(ts)))
        scale = np.repeat([np.max(np.abs(h)) for h in H], 2)
        start = np.cumsum(dts) - dts
        if np.any(np.abs(start - 0.6) < 1e-6):
            ctx.label("release at the time of a sample")
        rows_ok(ctx, M, ts, dts, H, scale, "executing a trajectory")
        ctx.label(c["format"], c["out"])
    finally:
        files.close()


# --- workflow --------------------------------------------------------------------------------------


@st.composite
def flow_cases(draw):
    d = draw(demo_spec(n=2, n_min=25, n_max=60))
    d["T"] = draw(log_real(0.45, 2.0))
    return {
        "demo": d, "n_bfs": draw(st.integers(3, 7)), "chosen": draw(st.integers(3, 7)), "sigma": draw(log_real(0.1, 20.0)), "n_tune": draw(st.sampled_from([2, 2, 3, 3, 3, 12])), "updates": draw(st.integers(1, 3)),
        "traj": draw(st.booleans()), "save": draw(st.integers(0, 7)) == 0, "seed": draw(seeds()),
    }


def script(name, *args):
    mod = robot_module(name)
    argv = sys.argv
    sys.argv = [name + ".py", *[str(a) for a in args]]
    try:
        with contextlib.redirect_stdout(None):
            mod.main()
    except SystemExit as e:
        check(not e.code, f"{name} failed: {e.code}")
    finally:
        sys.argv = argv
        from matplotlib import pyplot as plt

        plt.close("all")


def check_movement_file(path, dmp, what):
    ts = dmp.ts_train
    xs, xds, _, _ = dmp.analytical_solution(ts)
    tr = dmp.states_as_trajectory(ts, xs, xds)
    M = np.loadtxt(path)
    ref = tr.as_matrix()
    close(M, ref, what, rtol=1e-9, atol=DIGITS, scale=np.max(np.abs(ref), axis=0))


def run_flow(case, ctx):
    import dmpbbo.json_for_cpp as jc
    from dmpbbo.bbo_of_dmps.LearningSessionTask import LearningSessionTask
    from dmpbbo.dmps.Dmp import Dmp
    from dmpbbo.dmps.Trajectory import Trajectory
    from dmpbbo.functionapproximators.FunctionApproximatorRBFN import FunctionApproximatorRBFN

    c = case
    top = tempfile.mkdtemp(dir=ctx.scratch)
    here = os.getcwd()
    save = ["--save"] if c["save"] else []
    flag = ["--traj"] if c["traj"] else []
    ctx.nt(c["updates"] >= 2)
    ctx.label(f"{c['updates']} updates", "trajectories" if c["traj"] else "DMPs", *(["plots"] if c["save"] else []))
    np.random.seed(c["seed"] % 2**32)

    def robot(directory, name, pattern="%s"):
        """The robot executes a sample."""
        if c["traj"]:
            succeeds("robotExecuteTrajectory", f"{directory}/{name}_traj.txt", f"{directory}/{name}_cost_vars.txt", cwd=top)
        else:
            succeeds("robotExecuteDmp", f"{directory}/{name}_dmp_for_cpp.json", f"{directory}/{name}_cost_vars.txt", cwd=top)

    def recorded(directory, name):
        """What the robot recorded, after comparing it with the movement of the sampled DMP."""
        M = np.loadtxt(f"{directory}/{name}_cost_vars.txt")
        dmp = jc.loadjson(f"{directory}/{name}_dmp.json")
        sub = type(ctx)()
        if c["traj"]:
            check_movement_file(f"{directory}/{name}_traj.txt", dmp, "trajectory of a sample")
            tr = Trajectory.loadtxt(f"{directory}/{name}_traj.txt")
            dts = np.concatenate(([tr.ts[1] - tr.ts[0]], np.diff(tr.ts)))
            H = [tr.ys, tr.yds, tr.ydds]
            rows_ok(sub, M, tr.ts, dts, H, np.repeat([np.max(np.abs(h)) for h in H], 2), "trajectory of a sample")
        else:
            dmp_rows(sub, M, dmp, "DMP of a sample")
        return M, jc.loadjson(f"{directory}/{name}_dmp.json")

    try:
        os.chdir(top)
        # Step 1: training
        traj = demo_traj(c["demo"])
        traj.savetxt("demonstration.txt")
        script("step1_train_dmp_from_trajectory_file", "demonstration.txt", "res/training", "--n", c["n_bfs"], *save)
        traj = Trajectory.loadtxt("demonstration.txt")
        close(np.loadtxt("res/training/trajectory.txt"), traj.as_matrix(), "copy of the demonstration", atol=DIGITS)
        counts = sorted(int(f.split("_")[-1][:-5]) for f in glob.glob("res/training/dmp_trained_*[0-9].json"))
        check(counts == list(range(3, c["n_bfs"] + 1)), "numbers of basis functions of the trained DMPs", got=counts)
        k = min(c["chosen"], c["n_bfs"])
        trained = jc.loadjson(f"res/training/dmp_trained_{k}.json")
        ref = Dmp.from_traj(traj, [FunctionApproximatorRBFN(k, 0.7) for _ in range(2)], dmp_type="KULVICIUS_2012_JOINING")
        ref.set_selected_param_names("weights")
        v0 = ref.get_param_vector()
        check(v0.size == 2 * k, "harness: number of parameters")
        close(trained.get_param_vector(), v0, "parameters of the trained DMP", rtol=1e-9)
        succeeds("robotExecuteDmp", f"res/training/dmp_trained_{k}_for_cpp.json", "trained.txt", cwd=top)
        dmp_rows(type(ctx)(), np.loadtxt("trained.txt"), ref, "executing the trained DMP")
        shutil.copy(f"res/training/dmp_trained_{k}.json", "res/dmp_initial.json")

        # Step 2: task
        script("step2_define_task", "res", "task.json")
        task = robot_module("TaskThrowBall").TaskThrowBall(-0.70, 0.01, -0.3, 0.001)
        saved = jc.loadjson("res/task.json")
        check(type(saved) is type(task) and vars(saved) == vars(task), "saved task", got=vars(saved))

        # Step 3: exploration
        script("step3_tune_exploration", "res/dmp_initial.json", "res/tune", "--sigma", c["sigma"], "--n", c["n_tune"], *flag, *save)
        dirs = os.listdir("res/tune")
        check(dirs == ["sigma_%1.3f" % c["sigma"]], "directory of the samples", got=dirs)
        d = "res/tune/" + dirs[0]
        dist = jc.loadjson(d + "/distribution.json")
        close(dist.mean, v0, "mean of the distribution", rtol=1e-9)
        close(dist.covar, c["sigma"] ** 2 * np.eye(v0.size), "covariance matrix of the distribution", rtol=1e-9)
        seen = []
        for i in range(c["n_tune"]):
            robot(d, "%02d" % i)
            _, dmp = recorded(d, "%02d" % i)
            v = dmp.get_param_vector()
            check(not any(np.array_equal(v, o) for o in seen + [v0]), "two samples are the same")
            check(np.linalg.norm(v - v0) < c["sigma"] * (np.sqrt(v.size) + 8), "sample is too far from the mean", got=np.linalg.norm(v - v0))
            seen.append(v)
        check(sorted(glob.glob(d + "/*_dmp.json")) == sorted(f"{d}/{i:02d}_dmp.json" for i in range(c["n_tune"])), "number of samples")
        if c["save"]:
            script("plot_rollouts", d, "res/task.json", "--save")
            check(os.path.getsize(d + "/plot_rollouts.png") > 0, "plot of the rollouts")
        shutil.copy(d + "/distribution.json", "res/distribution_initial.json")

        # Step 4: preparing the optimization
        script("step4_prepare_optimization", "res", *flag)
        mean, covar = v0, c["sigma"] ** 2 * np.eye(v0.size)
        for i_update in range(c["updates"]):
            d = "res/update%05d" % i_update
            names = ["%03d" % i for i in range(5)] + ["eval"]
            found = sorted(os.path.basename(f)[: -len("_dmp.json")] for f in glob.glob(d + "/*_dmp.json"))
            check(found == sorted(names), f"samples of update {i_update}", got=found)
            session = LearningSessionTask.from_dir("res")
            dist = session.ask("distribution", i_update)
            close(dist.mean, mean, f"mean of the distribution of update {i_update}", rtol=1e-9)
            close(dist.covar, covar, f"covariance matrix of the distribution of update {i_update}", rtol=1e-9)
            X = session.ask("samples", i_update)
            costs = []
            for i, name in enumerate(names):
                robot(d, name)
                M, dmp = recorded(d, name)
                x = mean if name == "eval" else X[i]
                close(dmp.get_param_vector(), x, f"parameters of DMP {name} of update {i_update}", rtol=1e-9)
                costs.append(throw_costs(M, -0.70, 0.01, 0.001))
            # Step 5: updating
            script("step5_one_optimization_update", "res", i_update, *flag)
            session = LearningSessionTask.from_dir("res")
            for i, name in enumerate(names):
                got = session.ask("costs", i_update, "eval" if name == "eval" else i)
                close(got, [sum(costs[i])] + costs[i], f"costs of rollout {name} of update {i_update}", rtol=1e-9)
            w = ref_weights(np.array([sum(q) for q in costs[:5]]), "PI-BB", 10)
            close(session.ask("weights", i_update), w, f"weights of update {i_update}", rtol=1e-7)
            mean, covar = w @ X, 0.64 * covar
            new = session.ask("distribution_new", i_update)
            close(new.mean, mean, f"new mean of update {i_update}", rtol=1e-8)
            close(new.covar, covar, f"new covariance matrix of update {i_update}", rtol=1e-8)
            mean, covar = new.mean, new.covar
            check(session.get_n_updates() == i_update + 1, "number of updates", got=session.get_n_updates())
        if c["save"]:
            script("plot_optimization", "res", "--save")
            check(os.path.getsize("res/optimization.png") > 0, "plot of the optimization")
    finally:
        os.chdir(here)
        shutil.rmtree(top, ignore_errors=True)


SUBS = [
    Sub("dmp", dmp_cases, run_dmp, quick=320, thorough=8000, shards=8),
    Sub("trajectory", traj_cases, run_traj, quick=800, thorough=20000, shards=4),
    Sub("workflow", flow_cases, run_flow, quick=48, thorough=600, shards=8),
]
