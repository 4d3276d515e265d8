#!/usr/bin/env python3
"""Single source for properties.jsonl (run it after editing; the output is committed)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": quant},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe or [],
                "hook_needed": None,
            },
        }
    )


DS = "dmpbbo/dynamicalsystems/"
FA = "dmpbbo/functionapproximators/"
NOT_RUN = "The integration tests only plot Python and C++ outputs of a few fixed configurations; "

prop(
    "C01",
    "Closed-form solutions solve their differential equation",
    "For every exponential, sigmoid, Richards (generalised logistic), time and critically damped "
    "spring-damper system, the closed-form solution starts exactly at the system's initial state. At every "
    "time, the reported rate of change equals the system's differential equation evaluated at the reported "
    "state, and it is the time derivative of the reported states; sigmoid and Richards systems change fastest at their specified inflection time.",
    ["inputs", "configurations"],
    "all time constants, parameters (scalar or one per dimension), initial and attractor states, "
    "dimensionalities and time vectors",
    NOT_RUN + "none compares a closed form with the differential equation for arbitrary parameters.",
    [DS + f for f in ("ExponentialSystem.py", "SigmoidSystem.py", "RichardsSystem.py", "TimeSystem.py", "SpringDamperSystem.py")],
    [("analytical_solution / differential_equation pairs", DS)],
    ["analytical_solution(ts)", "differential_equation(x)"],
)
prop(
    "C02",
    "Numerical integration steps follow the differential equation",
    "One Euler step moves the state by dt times its rate of change, and one Runge-Kutta step is the classical "
    "fourth-order step; the default step and the default multi-step integration use Runge-Kutta and start from the "
    "(possibly newly passed) initial state. For arbitrary, also non-uniform, time grids the integrated states converge to the "
    "closed-form solution (first order for Euler, fourth for Runge-Kutta), and integrating never alters the "
    "system, the initial state or the states passed in.",
    ["inputs", "configurations"],
    "all dynamical systems, all states, all step sizes and time grids",
    NOT_RUN + "integration is never checked against a reference integrator or for convergence order.",
    [DS + "DynamicalSystem.py"],
    [("integrate_start, integrate_step*, integrate", DS + "DynamicalSystem.py")],
    ["integrate_start", "integrate_step", "integrate_step_euler", "integrate_step_runge_kutta", "integrate"],
)
prop(
    "C03",
    "A reconfigured dynamical system equals a freshly built one",
    "After any sequence of changes to time constant, initial state, attractor state or parameter decoupling, interleaved with "
    "solving and integrating, a dynamical system behaves exactly like a new one constructed with the final values. "
    "Changing the time constant by a factor stretches the closed-form solution of exponential, Richards, time and "
    "spring-damper systems in time by that factor, and values of the wrong size are rejected without changing the system.",
    ["histories", "configurations"],
    "all sequences of setter, decouple, solve and integrate calls on all dynamical systems",
    "Setter sequences and their interaction with caches are sampled for one or two values in demos only, with no oracle.",
    [DS + f for f in ("DynamicalSystem.py", "ExponentialSystem.py", "SigmoidSystem.py", "RichardsSystem.py", "TimeSystem.py", "SpringDamperSystem.py")],
    [("tau/x_init/y_init/y_attr setters, cached carrying capacity, decouple_parameters", DS)],
)
prop(
    "C04",
    "A DMP starts at its initial state and converges to its goal",
    "For every DMP type and forcing term, integration starts at rest at the initial position, both numerically and in the closed-form rollout, and "
    "when run for long enough the position converges to the attractor state with velocity and "
    "acceleration going to zero, because the gating makes the forcing term vanish.",
    ["inputs", "configurations"],
    "all DMP types, dimensionalities, time constants, initial and goal states, forcing term scalings and (trained) function approximators",
    "Tests roll out a handful of DMPs for plotting; convergence is never asserted.",
    ["dmpbbo/dmps/Dmp.py", DS],
    [("goal, gating and spring-damper subsystems", "dmpbbo/dmps/Dmp.py")],
)
prop(
    "C05",
    "Analytical, step-wise and exported DMP rollouts agree",
    "The states of the closed-form rollout and of step-by-step integration of the same DMP converge to each other as the step "
    "size shrinks, for all parts of the state (spring, goal, phase, gating, damping). The exported trajectory's velocities and accelerations are "
    "the time derivatives of its positions, and the returned forcing terms are the gated, scaled function "
    "approximator outputs (zero when suppressed).",
    ["inputs", "configurations"],
    "all DMP types, subsystems, scalings, function approximators, step sizes and time grids",
    NOT_RUN + "no test compares the Python rollouts with each other.",
    ["dmpbbo/dmps/Dmp.py"],
    [("analytical_solution, differential_equation, states_as_trajectory", "dmpbbo/dmps/Dmp.py")],
)
prop(
    "C06",
    "A DMP trained on a demonstration reproduces it",
    "A DMP trained on a smooth demonstration takes its duration, initial and final position from that demonstration, and its rollout on the "
    "demonstration's time grid reproduces the demonstrated positions up to the function approximator's fitting error and the integration error. "
    "The training targets it hands to the function approximators are exactly the forcing terms that make the DMP follow the demonstration.",
    ["inputs", "configurations"],
    "all smooth demonstrations (any duration, dimensionality, start/goal), DMP types, scalings and expressive function approximators",
    "One demo trajectory is trained and plotted; reproduction error is not asserted.",
    ["dmpbbo/dmps/Dmp.py", "dmpbbo/dmps/Trajectory.py"],
    [("train, from_traj, _compute_targets (inverse of the transformation system)", "dmpbbo/dmps/Dmp.py")],
)
prop(
    "C07",
    "DMP movements are invariant to translation and time scaling",
    "Shifting both initial and goal state of a DMP by an offset shifts the generated positions by exactly that offset. "
    "Changing the time constant by a factor stretches the movement in time by that factor (for DMPs whose gating scales with the time constant), and with "
    "goal-distance scaling of the forcing term, scaling the distance between initial and goal state scales the movement accordingly.",
    ["inputs", "configurations"],
    "all DMP types, forcing terms, offsets, time scaling factors and distance scaling factors",
    "No test changes the start, goal or duration of a trained DMP and relates the two movements.",
    ["dmpbbo/dmps/Dmp.py", DS],
    [("tau/y_init/y_attr setters propagate to the subsystems; forcing term scaling", "dmpbbo/dmps/Dmp.py")],
)
prop(
    "C08",
    "A reconfigured or retrained DMP equals a freshly built one",
    "After any sequence of changes of time constant, initial state and goal state, (re)trainings and rollouts, a DMP generates the same movement as a new "
    "DMP built directly in the final configuration, and its getters return the values last set. "
    "Rolling out or integrating a DMP does not change its later behaviour.",
    ["histories", "configurations"],
    "all sequences of set tau/initial state/goal, train, analytical rollout, integrate calls, for all DMP types",
    "Tests use each DMP once; histories of setters and trainings are not explored.",
    ["dmpbbo/dmps/Dmp.py"],
    [("property setters propagating to the subsystems", "dmpbbo/dmps/Dmp.py")],
)
prop(
    "C09",
    "Parameter vectors round-trip and only touch what was selected",
    "For every parameterizable object (function approximators, DMPs, DMPs with schedules) and any selection of parameters, the parameter vector has the "
    "advertised size, setting it and getting it back returns the same values, setting the current values changes nothing, and setting new values changes only the selected parameters. "
    "The vector's content depends only on the current selection (also after reselecting), and a vector of the wrong size is rejected without effect.",
    ["inputs", "histories", "configurations"],
    "all model types, selections and reselections, parameter values and sequences of get/set calls",
    "Optimization demos set parameter vectors of one selection; no test covers round trips or selection histories.",
    [FA + "Parameterizable.py", FA + "FunctionApproximator.py", "dmpbbo/dmps/Dmp.py", "dmpbbo/dmps/DmpWithSchedules.py"],
    [("set_selected_param_names, get/set_param_vector, get_param_vector_size", FA + "FunctionApproximator.py")],
)
prop(
    "C10",
    "Basis functions cover the input space as specified",
    "Basis function activations lie in [0,1], peak at their centre, equal the Gaussian of the given centres and widths, and, when normalized, sum to one for "
    "every input. Centres derived from an input range form a regular grid spanning that range, and widths are such that "
    "neighbouring basis functions intersect at the specified height.",
    ["inputs", "configurations"],
    "all input ranges, numbers of basis functions per dimension, intersection heights, (a)symmetric kernels, and inputs",
    "The only function approximator test fixes the grid and height and compares Python with C++ predictions.",
    [FA + "basis_functions.py"],
    [("Gaussian.activations, Gaussian.get_centers_and_widths", FA + "basis_functions.py")],
)
prop(
    "C11",
    "Training yields the (weighted, regularized) least-squares fit",
    "Training WLS, RBFN and LWR function approximators yields the minimiser of the (regularized, locally weighted where applicable) sum of squared errors for "
    "the chosen basis functions, with and without offset, so that functions the model can represent exactly "
    "are reproduced exactly. The result does not depend on the order of the training samples or on earlier trainings.",
    ["inputs", "configurations", "histories"],
    "all training sets, input dimensionalities, numbers of basis functions, weights and regularizations",
    "Tests check Python/C++ agreement of predictions for one target function; optimality is never checked.",
    [FA + f for f in ("FunctionApproximatorWLS.py", "FunctionApproximatorRBFN.py", "FunctionApproximatorLWR.py", "FunctionApproximator.py")],
    [("_train: regularized least squares", FA)],
)
prop(
    "C12",
    "Function approximator predictions are pure and per-sample",
    "Predicting is deterministic, leaves model and inputs unchanged, and the prediction for an input does not depend on "
    "the other inputs in the batch, their order, or on whether 1-D inputs are passed as a vector or as a single-column matrix. "
    "Using an untrained model, inputs of the wrong dimensionality, or mismatched numbers of inputs and targets is rejected.",
    ["inputs", "histories"],
    "all function approximators, trained models, batches of inputs and malformed inputs",
    "Only predictions on one full grid are compared between Python and C++.",
    [FA + f for f in ("FunctionApproximator.py", "FunctionApproximatorWLS.py", "FunctionApproximatorRBFN.py", "FunctionApproximatorLWR.py", "FunctionApproximatorGPR.py")],
    [("FunctionApproximator.predict/train input normalisation", FA + "FunctionApproximator.py")],
)
prop(
    "C13",
    "Gaussian process regression predictions equal the GP posterior",
    "GPR predictions equal the (noise-free, zero-mean) Gaussian process posterior mean for the given covariance function (a scaled Gaussian kernel of the given length). "
    "Hence they interpolate the training data, return to zero far away from it, are linear in the targets, and depend neither on the order of the training "
    "samples, nor on the maximum covariance, nor on earlier trainings.",
    ["inputs", "configurations"],
    "all training sets, length scales, maximum covariances and query points",
    "GPR is not covered by any test.",
    [FA + "FunctionApproximatorGPR.py", FA + "basis_functions.py"],
    [("_train (Gram matrix inverse), predict", FA + "FunctionApproximatorGPR.py")],
)
prop(
    "C14",
    "Trajectories survive conversion to and from matrix, file and frame",
    "Converting a trajectory to a matrix, a text file or a data frame and reading it back yields the same times, positions, velocities, accelerations and miscellaneous values, "
    "with the documented column layout. Constructing or converting trajectories never aliases or alters the caller's data in ways that change other trajectories, "
    "and data with inconsistent sizes is rejected.",
    ["inputs"],
    "all numbers of time steps, dimensions and misc dimensions, and all finite values",
    "Tests load one text file; there is no round-trip check.",
    ["dmpbbo/dmps/Trajectory.py"],
    [("as_matrix/from_matrix, savetxt/loadtxt, from_dataframe", "dmpbbo/dmps/Trajectory.py")],
)
prop(
    "C15",
    "Trajectory editing matches a sequence-of-samples model",
    "Any sequence of append, prepend, pad, crop, recompute-derivative and start-time-shift operations yields the samples that the "
    "same operations yield on a plain list of (time, position, velocity, acceleration, misc) samples. Times stay strictly increasing, all "
    "fields keep the same length (misc is kept if both trajectories have it), padding keeps the boundary position with zero velocity and acceleration, and the other trajectory in an append or prepend is unchanged.",
    ["histories", "inputs"],
    "all sequences of editing operations on all trajectories",
    "There are no tests of trajectory editing.",
    ["dmpbbo/dmps/Trajectory.py"],
    [("append, prepend, pad_front, pad_end, crop, start_time_at_zero", "dmpbbo/dmps/Trajectory.py")],
)
prop(
    "C16",
    "Generated trajectories meet boundary conditions and are consistent",
    "Polynomial, viapoint and minimum-jerk trajectories meet the requested boundary (and viapoint) positions, velocities and "
    "accelerations for any duration. Their velocities and accelerations are the time derivatives of their positions.",
    ["inputs"],
    "all time grids, durations, dimensionalities and boundary/viapoint conditions",
    "Generators are only used to make demo data; boundary conditions are not checked.",
    ["dmpbbo/dmps/Trajectory.py"],
    [("from_polynomial, from_viapoint_polynomial, from_min_jerk", "dmpbbo/dmps/Trajectory.py")],
)
prop(
    "C17",
    "Differentiation and low-pass filtering of trajectories are exact/linear",
    "Velocities and accelerations computed from positions are exact for linear (and, away from the ends, quadratic) movements, converge to the true derivatives for smooth ones, are linear in the positions, and do not depend on "
    "other dimensions. Low-pass filtering keeps constants, is linear, does not shift the signal in time, attenuates high frequencies and keeps derivatives consistent with the filtered positions.",
    ["inputs"],
    "all sampled trajectories, sampling rates, filter orders and cutoff frequencies",
    "There are no tests of differentiation or filtering.",
    ["dmpbbo/dmps/Trajectory.py"],
    [("diffnc, recompute_derivatives, apply_low_pass_filter", "dmpbbo/dmps/Trajectory.py")],
)
prop(
    "C18",
    "DMP schedules follow their training data and respect bounds",
    "A DMP with schedules reproduces the trained schedules (one value per schedule dimension and time) up to the fitting error, without changing the movement of the DMP itself. "
    "Every schedule value it outputs, analytically or while integrating step by step, is the same function of the phase and lies within the given bounds, whatever the parameters.",
    ["inputs", "histories", "configurations"],
    "all schedules, bounds (scalar or per dimension), function approximators and parameter vectors",
    "DMPs with schedules are only demonstrated in plots.",
    ["dmpbbo/dmps/DmpWithSchedules.py"],
    [("compute_schedules with clipping, analytical_solution, integrate_start/step", "dmpbbo/dmps/DmpWithSchedules.py")],
)
prop(
    "C19",
    "A contextual DMP reproduces each demonstration for its task parameters",
    "A contextual DMP trained on demonstrations with known task parameters generates, for each of these task parameters, the movement of a DMP trained on that demonstration alone, up to the "
    "regression error. In between, DMP parameters are given by the second-step regressors evaluated at the task parameters, the order of demonstrations is irrelevant, and step-wise and analytical rollouts agree.",
    ["inputs", "configurations"],
    "all sets of demonstrations, task parameters, query task parameters and regressors",
    "The contextual DMP is only demonstrated in a plot.",
    ["dmpbbo/dmps/DmpContextualTwoStep.py"],
    [("train, analytical_solution(ts, task_params), integrate_start/step", "dmpbbo/dmps/DmpContextualTwoStep.py")],
)
prop(
    "C20",
    "Costs map to normalized weights that favour low costs",
    "For every cost vector and weighting method, the weights are non-negative, sum to one, move along when the samples are permuted (for rank-based methods: if the costs differ), and a sample with lower cost never gets a lower weight than one "
    "with higher cost. PI-BB weights are invariant to shifting and positively scaling all costs, CMA-ES and CEM weights depend only on the cost ranking "
    "(CEM giving weight 1/n to each of the n best samples), and equal costs give uniform PI-BB weights.",
    ["inputs"],
    "all cost vectors (any length, ties, any magnitude for which their range is finite), eliteness values and weighting methods",
    "No test covers the weighting.",
    ["dmpbbo/bbo/updaters.py"],
    [("costs_to_weights", "dmpbbo/bbo/updaters.py")],
)
prop(
    "C21",
    "Distribution updates are reward-weighted averages within limits",
    "Updating a distribution moves its mean to the weighted average of the samples and changes its covariance exactly as configured: decayed by the given factor, or adapted to the weighted spread of the samples "
    "(interpolated with the learning rate and limited to the given minimum and maximum levels). "
    "The result is a valid distribution (finite, symmetric, positive semi-definite), depends only on the first (total) cost of each sample, is equivariant to sample order, and the input distribution, samples and costs are unchanged.",
    ["inputs", "histories"],
    "all distributions, sample sets, cost matrices, updaters and sequences of updates",
    "BBO is only demonstrated; no test asserts update results.",
    ["dmpbbo/bbo/updaters.py", "dmpbbo/bbo/DistributionGaussian.py"],
    [("UpdaterMean, UpdaterCovarDecay, UpdaterCovarAdaptation", "dmpbbo/bbo/updaters.py")],
)
prop(
    "C22",
    "Samples follow the distribution and respect its bounds",
    "Generating n samples yields n vectors of the distribution's dimensionality whose mean and covariance match those of the distribution, "
    "and with bounds every sample lies within its bounds (samples inside are not modified, samples outside are set to the bound). "
    "Sampling does not change the distribution, copies of a distribution are independent of it, and means and covariances of different sizes are rejected.",
    ["inputs"],
    "all means, positive-definite covariances, bounds and numbers of samples",
    "No test covers sampling.",
    ["dmpbbo/bbo/DistributionGaussian.py", "dmpbbo/bbo/DistributionGaussianBounded.py"],
    [("generate_samples, clipping, copy", "dmpbbo/bbo/DistributionGaussian.py")],
)
prop(
    "C23",
    "An optimization run records exactly what it evaluated and improves",
    "An optimization run evaluates exactly the sampled parameter vectors, once each, plus the distribution mean where configured, and its session holds for every update the distribution, "
    "samples and costs that were used, with each next distribution being the updater's result for the previous one. The learning curve reports these costs against the number of evaluated samples, and on convex cost functions the expected cost decreases.",
    ["histories", "configurations", "inputs"],
    "all cost functions (scalar or multiple components), updaters, numbers of updates and samples",
    "Optimization is only demonstrated.",
    ["dmpbbo/bbo/run_optimization.py", "dmpbbo/bbo/LearningSession.py", "dmpbbo/bbo_of_dmps/run_optimization_task.py"],
    [("run_optimization, LearningSession.add_*", "dmpbbo/bbo/run_optimization.py")],
)
prop(
    "C24",
    "A learning session returns what was last stored, also from disk",
    "Whatever sequence of tell, ask and reload operations is performed, asking a learning session for an item (by name, update and sample index) returns the value last told for it, "
    "in memory and after reloading the session from its directory, and existence queries agree with that. Values handed out or handed in later being modified by the caller "
    "do not change what the session returns, and items never told are reported as missing.",
    ["histories", "inputs"],
    "all sequences of tell/ask/exists/reload over names, update indices, sample indices and value types",
    "No test covers the session store.",
    ["dmpbbo/bbo/LearningSession.py", "dmpbbo/bbo_of_dmps/LearningSessionTask.py"],
    [("tell/ask/exists/save, file naming, cache", "dmpbbo/bbo/LearningSession.py")],
)
prop(
    "C25",
    "DMP rollouts depend only on the sample; stepwise runs equal direct runs",
    "Rolling out a sampled parameter vector for a task depends only on that vector (not on earlier rollouts) and equals the movement of the DMP with these parameters, and its cost is the task's evaluation of that rollout. "
    "Running an optimization step by step through files in a directory, interrupted between any two steps, yields the same distributions, costs and files as an uninterrupted run.",
    ["histories", "crash_points", "inputs"],
    "all sample sequences, DMPs, tasks, and interruption points between steps",
    "Only demonstrated, for one task without interruption.",
    ["dmpbbo/bbo_of_dmps/TaskSolverDmp.py", "dmpbbo/bbo_of_dmps/step_by_step_optimization.py", "dmpbbo/bbo_of_dmps/run_optimization_task.py", "dmpbbo/bbo_of_dmps/LearningSessionTask.py"],
    [("perform_rollout, prepare_optimization/update_step, run_optimization_task", "dmpbbo/bbo_of_dmps/")],
)
prop(
    "C26",
    "JSON save/load preserves behaviour of every object",
    "Saving a function approximator, dynamical system, DMP, DMP with schedules or distribution as JSON and loading it back yields an object with the same predictions, rollouts, parameter vectors and "
    "later behaviour (retraining, reconfiguring, resaving) as the original. Saving does not change the original object.",
    ["inputs", "configurations"],
    "all objects of these classes in any (trained, reconfigured) state",
    "One JSON file per object type is written for the C++ comparison; reloading into Python is not tested.",
    ["dmpbbo/json_for_cpp.py"] + [FA, DS, "dmpbbo/dmps/", "dmpbbo/bbo/"],
    [("jsonpickle with numpy handlers: savejson, loadjson", "dmpbbo/json_for_cpp.py")],
)
prop(
    "C27",
    "C++ function approximators predict what the Python ones predict",
    "A function approximator trained in Python, exported as JSON and loaded in C++ makes the same predictions (up to rounding) as in Python for any inputs, through the batch as well as the real-time "
    "interface. The real-time interface gives the same result per sample as the batch interface, repeated calls do not influence each other, and Gaussian (diagonal, asymmetric or full) and cosine basis functions follow their formula.",
    ["inputs", "configurations", "histories"],
    "all trained RBFN and LWR models (1-D and multi-D) and all inputs",
    "test_function_approximators compares two model types on one target function, with one parameterization and one grid each.",
    ["src/functionapproximators/", FA, "dmpbbo/json_for_cpp.py"],
    [("from_json, predict, predictRealTime, BasisFunction::*::activations", "src/functionapproximators/")],
)
prop(
    "C28",
    "C++ dynamical systems behave as the Python ones",
    "An exponential, sigmoid, spring-damper or time system exported as JSON from Python and loaded in C++ gives the same differential equation, closed-form solution, Euler steps, Runge-Kutta steps and initial state "
    "as in Python, also after changing the time constant or initial or attractor state on both sides.",
    ["inputs", "configurations", "histories"],
    "all systems with scalar parameters, states, step sizes and reconfigurations",
    "test_dynamical_systems does not build at this commit and compares one fixed configuration per system.",
    ["src/dynamicalsystems/", DS, "dmpbbo/json_for_cpp.py"],
    [("from_json, differentialEquation, analyticalSolution, integrateStep*", "src/dynamicalsystems/")],
)
prop(
    "C29",
    "C++ DMPs generate the movements of the Python DMPs",
    "A DMP exported as JSON from Python and loaded in C++, or constructed in C++ with the same subsystems, generates the same movement (positions, velocities, accelerations, and goal, phase and gating states) in closed form and in Euler and Runge-Kutta steps as in Python, also after "
    "changing the time constant, initial state or goal on both sides.",
    ["inputs", "configurations", "histories"],
    "all DMP types supported by both languages, with or without forcing term, any dimensionality, scaling, time grid and step sequence",
    "test_dmp does not build at this commit, and compares a few fixed configurations.",
    ["src/dmp/Dmp.cpp", "dmpbbo/dmps/Dmp.py", "dmpbbo/json_for_cpp.py"],
    [("Dmp::from_json, analyticalSolution, integrateStart, integrateStep, differentialEquationRealTime", "src/dmp/Dmp.cpp")],
)
prop(
    "C30",
    "C++ trajectories and matrix files agree with the Python ones",
    "Trajectories written by Python are read back identically by C++ (and vice versa, within the written precision), C++ minimum-jerk, polynomial and viapoint trajectories equal the Python ones, and C++ append joins "
    "two trajectories sample by sample. Matrices saved by C++ are loaded with the same shape and values up to the written precision, and malformed files and failed writes are reported.",
    ["inputs"],
    "all trajectories, matrices and shapes",
    "No test covers the C++ trajectory or file input/output beyond loading a few fixed files.",
    ["src/dmp/Trajectory.cpp", "src/eigenutils/eigen_file_io.hpp", "dmpbbo/dmps/Trajectory.py"],
    [("Trajectory::asMatrix/readFromFile/saveToFile/append/generateMinJerkTrajectory/generatePolynomial*, saveMatrix/loadMatrix", "src/")],
)
prop(
    "C31",
    "C++ real-time functions never allocate memory and are history-free",
    "After construction or loading, real-time predictions, differential equations and integration steps of C++ function approximators, dynamical systems and DMPs allocate no dynamic memory, for any model size. "
    "Their results depend only on the arguments and the current configuration, not on previous calls, and no call reads or writes out of bounds.",
    ["inputs", "configurations", "histories"],
    "all models and sequences of real-time calls",
    "Debug builds check allocation for the fixed configurations of the integration tests only.",
    ["src/"],
    [("preallocated caches (mutable members), ENTERING_REAL_TIME_CRITICAL_CODE", "src/")],
)
prop(
    "C32",
    "C++ objects written as JSON are read back as the same objects",
    "Writing a C++ function approximator, dynamical system or DMP as JSON at any point of its use (also with operator<<), and reading that JSON in C++, gives an object that predicts, integrates and answers like the original, "
    "also after both have been reconfigured in the same way afterwards, and whether it was loaded or constructed. Writing an object does not change it.",
    ["inputs", "configurations", "histories"],
    "all objects, configurations and points of writing",
    "The integration tests only write objects as JSON in C++ to print them.",
    ["src/dmp/Dmp.cpp", "src/dynamicalsystems/", "src/functionapproximators/", "src/eigenutils/eigen_json.hpp"],
    [("to_json_helper, to_json_base, from_json, operator<<", "src/")],
)
prop(
    "C33",
    "Tasks and simulations evaluate rollouts as they are defined",
    "The tasks (viapoint, arm, viapoint with gains, throwing a ball) return the total cost and its labelled components as defined, for any options and rollout, as a function of the rollout and the sample only, which they do not change. "
    "The simulations follow their model: the links of the arm the joint angles of the DMP, the ball the hand until it is released and then gravity until it hits the floor, the controller the desired movement and gains of the DMP in the force field.",
    ["inputs", "configurations"],
    "all options, rollouts, DMPs and samples",
    "The tests do not import the tasks and simulations.",
    ["demos/python/bbo_of_dmps/", "demos/robot/TaskThrowBall.py"],
    [("TaskViapoint, TaskViapointArm2D, TaskSolverDmpArm2D, force_field_simulator.perform_rollout, TaskViapointWithGains, TaskThrowBall, run_python_simulation", "demos/")],
)
prop(
    "C34",
    "The robot executes what was exported, and its workflow is consistent",
    "robotExecuteDmp and robotExecuteTrajectory record, at each time step, the movement of the DMP or trajectory that Python exported and of the ball thrown with it, and report executions that failed or could not be recorded. "
    "The steps 1-5 of the robot demo train, sample, save, evaluate and update exactly what was demonstrated, requested, executed and recorded, over any number of updates, with DMPs and with trajectories.",
    ["inputs", "histories", "faults"],
    "all two-dimensional DMPs and trajectories, all numbers of updates",
    "The tests do not run the programs for the robot, nor the steps of the workflow.",
    ["demos/robot/", "dmpbbo/bbo_of_dmps/step_by_step_optimization.py", "dmpbbo/json_for_cpp.py"],
    [("robotExecuteDmp, robotExecuteTrajectory, ThrowBallSimulator, step1-step5", "demos/robot/"), ("prepare_optimization, update_step", "dmpbbo/bbo_of_dmps/step_by_step_optimization.py")],
)
prop(
    "C35",
    "Plots show the data of what they plot, and plotting does not change it",
    "Plots of trajectories, dynamical systems, DMPs (also with schedules, or contextual), function approximators and learning sessions show, in the axes that are passed (or new ones), the values that the object computes or stores, "
    "or that are passed. Afterwards the object, the data passed and the labels are as before.",
    ["inputs", "configurations", "histories"],
    "all objects, data, axes and options of plotting",
    "The tests do not inspect plots.",
    ["dmpbbo/"],
    [("Trajectory.plot, DynamicalSystem.plot, Dmp.plot/plot_comparison, DmpWithSchedules.plot_sched, DmpContextualTwoStep.plot/plot_policy_parameter_function, FunctionApproximator.plot*, DistributionGaussian.plot, LearningSession(Task).plot*", "dmpbbo/")],
)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
