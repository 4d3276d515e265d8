"""Cost functions, tasks and task solvers for the optimization checks (must be importable classes)."""
import numpy as np

from dmpbbo.bbo.CostFunction import CostFunction
from dmpbbo.bbo_of_dmps.Task import Task
from dmpbbo.bbo_of_dmps.TaskSolver import TaskSolver

CALLS = []  # everything that was evaluated or rolled out, in this process


def quadratic(x, target, gains):
    return np.array([float(g * (a - t) ** 2) for a, t, g in zip(x, target, gains)])


def cost_in_format(comps, fmt):
    total = float(np.sum(comps))
    if fmt == "scalar":
        return total
    if fmt == "one":
        return [total]
    if fmt == "list":
        return [total] + [float(c) for c in comps]
    return np.concatenate(([total], comps))


class RecordingCost(CostFunction):
    def __init__(self, target, gains, fmt, labels=None):
        self.target = np.array(target)
        self.gains = np.array(gains)
        self.fmt = fmt
        self.labels = labels

    def evaluate(self, sample):
        CALLS.append(("evaluate", np.array(sample, dtype=float)))
        return cost_in_format(quadratic(sample, self.target, self.gains), self.fmt)

    def get_cost_labels(self):
        return self.labels


class RecordingTask(Task):
    """Distance of the cost-relevant variables to a target, with a penalty on the sample."""

    def __init__(self, target, gains, fmt, labels=None, regularization=0.0):
        self.target = np.array(target)
        self.gains = np.array(gains)
        self.fmt = fmt
        self.labels = labels
        self.regularization = regularization

    def expected(self, cost_vars, sample):
        M = np.asarray(cost_vars, dtype=float)
        y = M.mean(axis=0) + 0.5 * M[-1]
        comps = quadratic(y, self.target, self.gains)
        return np.append(comps, self.regularization * float(np.sum(np.square(sample))))

    def evaluate_rollout(self, cost_vars, sample):
        CALLS.append(("evaluate", np.array(cost_vars, dtype=float), np.array(sample, dtype=float)))
        return cost_in_format(self.expected(cost_vars, sample), self.fmt)

    def get_cost_labels(self):
        return self.labels


class RecordingSolver(TaskSolver):
    """Deterministic rollout: linear movement to the sample."""

    def __init__(self, n_time_steps):
        self.n_time_steps = n_time_steps

    def rollout(self, sample):
        return np.linspace(0, 1, self.n_time_steps)[:, None] * np.asarray(sample)[None, :]

    def perform_rollout(self, sample, **kwargs):
        CALLS.append(("rollout", np.array(sample, dtype=float)))
        return self.rollout(sample)
