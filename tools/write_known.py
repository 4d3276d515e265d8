#!/usr/bin/env python3
"""Single source for known_findings.json. "fixed" entries suppress nothing."""
import json, os, subprocess

FIXED = [
    ("C29,C28", "276f3d3", "the C++ dynamical systems and DMPs did not compile (parsing Eigen vectors from json)"),
    ("C01", "2bcd68e", "closed form of the spring-damper system wrong for initial states with z != 0"),
    ("C01", "e518475", "a critically damped spring-damper system with mass != 1 was not critically damped"),
    ("C01", "74760a5", "one spring constant per dimension was rejected by the spring-damper constructor"),
    ("C02", "a98da3d", "modifying the state returned by integrate_start changed the initial state of the system"),
    ("C03", "9f6f082", "setting y_attr of a Richards system had no effect on its attractor (cached carrying capacity)"),
    ("C08", "ca58bc6", "Dmp.y_init returned a stale value after it was set"),
    ("C04,C08", "c5cfdbe", "Dmp.integrate_start raised for initial states with several dimensions and ignored 0"),
    ("C07,C08", "07248e3", "setting tau of a Dmp did not change the tau of its damping system"),
    ("C01", "ed16704", "Richards system with initial state equal to its attractor returned nan"),
    ("C11", "b529a70", "LWR ignored its regularization"),
    ("C10", "7598132", "RBFN and LWR with a scalar number of basis functions failed for several input dimensions"),
    ("C12", "f931fc8", "training data with different numbers of inputs and targets was accepted"),
    ("C09", "7fd0688", "parameter vectors failed for scalar parameters (WLS offset) and empty selections"),
    ("C09", "ef66033", "reusing the vector passed to set_param_vector changed the parameters later"),
    ("C09", "6c4b6ab", "deselecting the goal of a Dmp had no effect"),
    ("C18", "82b30a4", "bounds of schedules were not enforced for some numbers of schedules, one-sided bounds, single steps"),
    ("C18", "417a0ed", "training a DmpWithSchedules with a matrix of schedules failed"),
    ("C16,C30", "1115dde", "polynomial trajectories had wrong boundary velocities and accelerations for durations != 1 (Python and C++)"),
    ("C16", "e12a4cf", "viapoint trajectories contained the viapoint twice and had one sample too many"),
    ("C16", "6a2b412", "minimum-jerk trajectories not starting at time 0 were wrong (Python and C++)"),
    ("C15", "09ec663", "cropping by time up to the end dropped the last sample"),
    ("C14,C15", "a991383", "misc passed as a vector broke as_matrix, cropping and dim_misc"),
    ("C15", "f4bb785", "padding raised for some time steps (np.arange rounding)"),
    ("C15", "dc3f2a8", "prepending a trajectory not starting at 0, or padding by one sample, gave wrong or nan times"),
    ("C15", "8c88b19", "append/prepend of a trajectory with misc to one without left misc inconsistent; rejected trajectories changed the times"),
    ("C15", "5d25928", "dt_mean was stale after crop/append/prepend, so recomputed derivatives were wrong"),
    ("C16,C30", "b247a83", "polynomial trajectories with a non-zero initial acceleration had wrong coefficients (Python and C++)"),
    ("C19", "a979a80", "integrating a contextual DMP with the goal among the predicted parameters raised"),
    ("C19", "f88a8d9", "dim_dmp of a contextual DMP returned a method"),
    ("C19", "dffb6a8", "a contextual DMP could not be rolled out for a vector of several task parameters (or a scalar)"),
    ("C20", "6e9f1ab", "CMA-ES weights raised IndexError for fewer samples than the eliteness"),
    ("C21", "2e366ad", "limiting the diagonal of an adapted covariance matrix made it lose positive semi-definiteness"),
    ("C22", "9ee1fec", "sampling from a bounded distribution without bounds raised"),
    ("C24", "ef411aa", "learning session ignored update/sample indices that are numpy integers, so that items overwrote each other"),
    ("C24", "5d48fcd", "modifying an object read from disk by a learning session changed what it returned later"),
    ("C24", "52bb89c", "after storing a value of another type, a reloaded learning session returned the old one; storing a DMP first in a new directory raised"),
    ("C24,C23", "95ff70d", "matrices with one row or column (e.g. samples of a 1-D search space) lost their shape on disk"),
    ("C28", "c4abbb5", "the C++ sigmoid system did not adapt to an initial state passed to set_y_init or integrateStart"),
    ("C28", "c1401ce", "the initial velocity of a spring-damper system was lost when loading it in C++"),
    ("C31,C29", "ad22e26", "size of the state of a C++ Dmp was only set by one of its constructors (out-of-bounds access)"),
    ("C29", "564e8ce", "set_y_init of a C++ Dmp through the base class, or with a segment, had no or a wrong effect"),
    ("C29", "5275727", "spring constant and mass of a DMP were ignored by C++ on loading and in the closed form"),
    ("C29", "0af9167", "C++ Dmp without delayed goal system or without function approximators crashed or gave wrong results"),
    ("C31", "2f25388", "the differential equation of a C++ Dmp allocated memory with G_MINUS_Y0_SCALING"),
    ("C29", "34f83f3", "constructing a C++ Dmp by its type used a gating system that was wrong for time constants other than 1"),
    ("C30", "1b3b803", "loadMatrix misread files with trailing whitespace or blank lines, accepted ragged rows, and did not terminate for files with words"),
    ("C30", "b4ec3bf", "saveMatrix reported success though the matrix was not saved"),
    ("C30", "2efaf09", "joining C++ trajectories (also when generating trajectories through a viapoint) aborted because of rounding errors"),
    ("C01,C08", "b08240b", "Richards system (and so the SCT23 DMPs) returned nan if the attractor differs from the initial state by rounding only"),
    ("C32", "4c45a27", "C++ objects written as JSON could not be read back (missing initial state, attractor, amplitudes, spring system; null function approximators)"),
    ("C29", "d1951a6", "set_tau of a C++ Dmp gave subsystems with their own time constant the one of the DMP (Python scales it)"),
    ("C23", "c99f9c8", "the last update was missing in the number of updates and in the learning curve"),
    ("C01", "6dfd1f2", "rates of the closed form of a sigmoid system were NaN at late times (overflow)"),
    ("C28", "15e1104", "rates of the closed form of a C++ sigmoid system were NaN at late times (overflow)"),
    ("C33", "00f4b89", "rolling out a throw set the accelerations of the trajectory of the Dmp to gravity after the release"),
    ("C33", "9686b63", "TaskSolverDmpArm2D ignored the link lengths it was given, and failed without them"),
    ("C33", "7856586", "the acceleration cost of TaskViapoint was divided by a wrong number of time steps if it has a goal"),
    ("C34", "1e14bd5", "the C++ robot programs did not save trajectories with absolute filenames and reported success; a trajectory of one sample crashed"),
    ("C34", "fa1b65e", "robot workflow (--save of the first step) and demos failed setting the title of windows (removed in matplotlib 3.6)"),
    ("C35", "501a52c", "predictions of a function approximator could not be plotted without targets"),
    ("C35", "9f60d77", "plotting a learning curve changed the list of labels of the caller, and put the legend into the current axes"),
    ("C25", "27f3f96", "the evaluation costs of a step-by-step optimization were ignored in its learning curve"),
    ("C35", "7ade85c", "schedules of a DMP were plotted in the current figure instead of the one of the axes passed"),
    ("C35", "2ea9efa", "LearningSessionTask.plot did not return the figure, as documented"),
    ("C35", "66894c8", "the demo of contextual DMPs called plot with outdated arguments"),
    ("C35", "1142885", "policy parameter functions could not be plotted for one parameter, two task parameters, or without training data"),
    ("C35", "1d03e2a", "plotting a contextual DMP changed its initial state and goal"),
    ("C14", "d9f1353", "a trajectory with one sample that was saved as text could not be loaded"),
    ("C27", "92a37f1", "activations of normalized Gaussians with full covariances depended on the other samples, or were NaN, if one sample activated none"),
]
OPEN = [
    {"id": "C19-amplitudes", "property": "C19",
     "what": "a contextual DMP with AMPLITUDE_SCALING uses the amplitudes of the last demonstration for all task parameters, "
             "so demonstrations of different amplitudes are not reproduced (Contextual.train with AMPLITUDE_SCALING)"},
]
fs = []
for prop, c, what in FIXED:
    for p in prop.split(","):
        fs.append({"id": f"{p}-{c}", "property": p, "status": "fixed", "commit": c, "what": what,
                   "entry": f"fixed: property={p} {c} {what}"})
for f in OPEN:
    fs.append({**f, "status": "open"})
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
json.dump({"findings": fs}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
