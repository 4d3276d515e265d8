"""C15: trajectory editing matches a sequence-of-samples model."""
import numpy as np
from hypothesis import strategies as st

from vf.core import Sub, check, close, raises, same
from vf.gen import real, size
from vf.trajs import Samples, build, columns, diff_any, snapshot, traj_spec

RULE = (
    "A case is a trajectory and a history of up to 10 edits (append and prepend other trajectories with other step sizes, start "
    "times and with or without misc; pad; crop by index or time; recompute derivatives; shift the start to zero; set misc; "
    "incompatible trajectories); non-trivial: at least three edits that change the samples"
)


@st.composite
def cases(draw):
    t = draw(traj_spec(n_min=3))
    ops = []
    for _ in range(draw(size(1, 10, 25))):
        k = draw(st.sampled_from(["append", "prepend", "pad_front", "pad_end", "crop", "crop_time", "recompute", "zero", "misc", "bad"]))
        op = {"op": k}
        if k in ("append", "prepend"):
            op["traj"] = draw(traj_spec(dim=t["dim"], misc=draw(st.sampled_from([t["misc"], "none", 0])), n_min=2, n_max=8))
        elif k.startswith("pad"):
            op["n"] = draw(st.integers(1, 12))
        elif k == "crop":
            op["a"], op["b"] = draw(real(0.0, 0.6)), draw(real(0.3, 1.0))
        elif k == "crop_time":
            op["a"], op["b"] = draw(real(-0.2, 0.6)), draw(real(0.3, 1.2))
            op["at"] = draw(st.sampled_from(["between", "sample", "just after", "just before", "outside"]))
        elif k == "bad":
            op["traj"] = draw(traj_spec(dim=t["dim"] + 1, n_min=2, n_max=5))
            op["how"] = draw(st.sampled_from(["append", "prepend", "crop"]))
        ops.append(op)
    return {"traj": t, "ops": ops}


class Model(Samples):
    def join(self, other, front):
        first, second = (other, self) if front else (self, other)
        dt = first.dt()
        ts = np.concatenate((first.ts, second.ts - second.ts[0] + first.ts[-1] + dt))
        ys, yds, ydds = (np.concatenate((getattr(first, k), getattr(second, k))) for k in ("ys", "yds", "ydds"))
        misc = None
        if self.misc is not None and other.misc is not None:
            misc = np.concatenate((first.misc, second.misc))
        self.ts, self.ys, self.yds, self.ydds, self.misc = ts, ys, yds, ydds, misc

    def pad(self, n, front):
        dt = self.dt()
        d = self.ys.shape[1]
        p = np.tile(self.ys[0] if front else self.ys[-1], (n, 1))
        z = np.zeros((n, d))
        if front:
            self.ts = np.concatenate((np.arange(n) * dt, self.ts - self.ts[0] + n * dt))
            self.ys, self.yds, self.ydds = np.vstack((p, self.ys)), np.vstack((z, self.yds)), np.vstack((z, self.ydds))
        else:
            self.ts = np.concatenate((self.ts, self.ts[-1] + (1 + np.arange(n)) * dt))
            self.ys, self.yds, self.ydds = np.vstack((self.ys, p)), np.vstack((self.yds, z)), np.vstack((self.ydds, z))
        self.misc = None

    def keep(self, sel):
        self.ts, self.ys, self.yds, self.ydds = self.ts[sel], self.ys[sel], self.yds[sel], self.ydds[sel]
        if self.misc is not None:
            self.misc = self.misc[sel]


def compare(traj, m, what):
    got = columns(traj)
    n = m.ts.size
    check(traj.length == n and got["ts"].shape == (n,), what + ": number of samples", got=traj.length, expected=n)
    for k in ("ys", "yds", "ydds"):
        check(got[k].shape == (n, m.ys.shape[1]), f"{what}: shape of {k}", got=got[k].shape)
    check(np.all(np.diff(got["ts"]) > 0), what + ": times are not strictly increasing", ts=got["ts"])
    close(got["ts"], m.ts, what + ": times", rtol=1e-9, scale=np.max(np.abs(m.ts)))
    close(got["ys"], m.ys, what + ": positions", rtol=0, atol=0)
    vs = np.max(np.abs(m.yds)) + np.max(np.abs(m.ys))
    close(got["yds"], m.yds, what + ": velocities", rtol=1e-8, scale=vs)
    close(got["ydds"], m.ydds, what + ": accelerations", rtol=1e-8, scale=np.max(np.abs(m.ydds)) + vs)
    check((got["misc"] is None) == (m.misc is None), what + ": misc missing or not")
    if m.misc is not None:
        same(got["misc"], m.misc, what + ": misc")
    check(traj.misc is None or traj.misc.shape[0] == n, what + ": length of misc")
    if n > 1:
        close(traj.dt_mean, m.dt(), what + ": mean time step", rtol=1e-8)
    close(traj.duration, m.ts[-1] - m.ts[0], what + ": duration", rtol=1e-8)
    same(traj.y_init, m.ys[0], what + ": initial position")
    same(traj.y_final, m.ys[-1], what + ": final position")
    check(traj.as_matrix().shape[0] == n, what + ": rows of the matrix")


def run(case, ctx):
    traj = build(case["traj"])
    m = Model(case["traj"])
    edits = 0
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        what = f"operation {i} ({k})"
        n = m.ts.size
        ctx.label(k)
        if k in ("append", "prepend"):
            if n < 2:
                continue
            other = build(op["traj"])
            before = snapshot(other)
            mo = Model(op["traj"])
            if m.misc is not None and mo.misc is not None and m.misc.shape[1] != mo.misc.shape[1]:
                raises(ValueError, lambda: getattr(traj, k)(other), what + ": another number of miscellaneous variables")
                ctx.label("misc of other dimensionality")
            else:
                getattr(traj, k)(other)
                m.join(mo, k == "prepend")
                edits += 1
            for f, v in snapshot(other).items():
                same(v if v is not None else 0, before[f] if before[f] is not None else 0, f"{what}: the other trajectory ({f}) is changed")
        elif k.startswith("pad"):
            if n < 2:
                continue
            getattr(traj, k)(op["n"])
            m.pad(op["n"], k == "pad_front")
            edits += 1
        elif k == "crop":
            a, b = int(op["a"] * n), int(np.ceil(op["b"] * n))
            if b - a < 2:
                continue
            traj.crop(a, b)
            m.keep(slice(a, b))
            edits += a > 0 or b < n
        elif k == "crop_time":
            D = m.ts[-1] - m.ts[0]
            dt = m.dt()
            ia, ib = int(max(0, op["a"]) * (n - 1)), int(min(1.0, op["b"]) * (n - 1))
            ts = np.array(traj.ts)
            if op["at"] == "sample":
                start, end = ts[ia], ts[ib]
            elif op["at"].startswith("just"):
                to = np.inf if op["at"] == "just after" else -np.inf
                start, end = np.nextafter(ts[ia], to), np.nextafter(ts[ib], to)
            elif op["at"] == "between":
                start = 0.5 * (ts[ia] + ts[min(ia + 1, n - 1)])
                end = 0.5 * (ts[ib] + ts[min(ib + 1, n - 1)])
            else:
                start, end = ts[0] - abs(op["a"]) * D - dt, ts[-1] + abs(op["b"]) * D + dt
            sel = (ts >= start) & (ts < end)
            if end >= ts[-1]:
                sel[-1] = True
            if not start < end or np.sum(sel) < 2:
                continue
            traj.crop(start, end, as_times=True)
            if end == ts[-1] and traj.length == np.sum(sel) - 1:
                sel[-1] = False  # whether the end is exclusive for the last sample is not specified
                if np.sum(sel) < 2:
                    return
            m.keep(sel)
            edits += int(not np.all(sel))
        elif k == "recompute":
            if n < 3:
                continue
            traj.recompute_derivatives()
            m.yds = diff_any(m.ys, m.dt())
            m.ydds = diff_any(m.yds, m.dt())
            edits += 1
        elif k == "zero":
            traj.set_start_time_to_zero()
            m.ts = m.ts - m.ts[0]
        elif k == "misc":
            v = np.arange(2.0 * n).reshape(n, 2)
            traj.misc = v.copy()
            m.misc = v
        elif k == "bad":
            if op["how"] == "crop":
                raises(ValueError, lambda: traj.crop(n - 1, n - 1), what + ": empty range")
            else:
                raises(ValueError, lambda: getattr(traj, op["how"])(build(op["traj"])), what + ": trajectory of another dimensionality")
        compare(traj, m, what)
    ctx.nt(edits >= 3)


SUBS = [Sub("histories", cases, run, quick=1500, thorough=50000, shards=8)]
