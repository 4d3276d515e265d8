#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check in vf/checks is claimed."""
import json, os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = {
    "C01": "random search over system specifications; derivative checked with complex-step-free high-order differences, tolerance scaled to curvature",
    "C02": "oracle: own Euler/RK4 step and own reference integrator; convergence order estimated from step halving",
    "C03": "oracle: a freshly constructed system; histories up to 8 operations",
    "C04": "finite rollouts (many time constants); forcing terms with bounded scaling",
    "C05": "oracle: own construction of all subsystems, step halving",
    "C06": "oracle: own inverse of the transformation system; reproduction bound derived from measured fit residual",
    "C07": "metamorphic relations; finite tolerance",
    "C08": "oracle: freshly built DMP; histories up to 8 operations",
    "C09": "oracle: model of selection -> (name, shape); histories of selections and vectors",
    "C10": "oracle: own Gaussian activations and grid",
    "C11": "oracle: own (QR/normal-equation) least squares, conditioned tolerance, optimality by perturbation",
    "C12": "metamorphic relations between batches",
    "C13": "oracle: own Cholesky GP posterior; ill-conditioned Gram matrices are excluded",
    "C14": "oracle: the arrays that were passed in; 7 decimals for text files",
    "C15": "oracle: list-of-samples model; histories up to 10 edits",
    "C16": "oracle: own quintic polynomials; derivative consistency by quadrature",
    "C17": "oracle: own stencils and metamorphic relations (linearity, shift, per-dimension independence)",
    "C18": "oracle: the schedule regressor evaluated at the phase, clipped; a plain DMP for the movement",
    "C19": "oracle: DMPs trained per demonstration, own evaluation of the second-step regressors; one known finding (AMPLITUDE_SCALING)",
    "C20": "oracle: own weights; metamorphic relations (permutation, shift, scale, monotone transformation)",
    "C21": "oracle: own weighted mean and covariance update; histories of up to 5 updates",
    "C22": "statistical oracle: whitened samples within 7 standard errors; bounds exactly",
    "C23": "oracle: recorded calls of the cost function, own costs, a fresh updater per update; in memory and reloaded",
    "C24": "oracle: dictionary model; histories up to 14 operations",
    "C25": "oracle: freshly built DMP per sample; uninterrupted and direct runs with the same random numbers",
    "C26": "oracle: the original object, after the same operations; histories before and after loading",
    "C27": "oracle: the Python predictions (decided by C10-C12); batch against real-time interface",
    "C28": "oracle: the Python system (decided by C01-C03), driven by the same operations; scalar parameters",
    "C29": "oracle: the Python DMP (decided by C04-C08), driven by the same operations; DMP types known to both languages",
    "C30": "oracle: numpy's reading of the same files, Python trajectories, the trajectory that was cut; malformed files and failing writes",
    "C31": "oracle: allocation counter, sanitizers, and fresh objects with the same configuration (bitwise equality)",
    "C32": "oracle: the original object, after the same operations; copies of copies, directly and through files",
    "C33": "oracle: costs sample by sample, sums of complex numbers (arm), own simulation of ball and controller driven by a freshly built DMP",
    "C34": "oracle: integration of the DMP in Python, own simulation of the ball, own costs and update; faults: missing and truncated inputs, outputs that cannot be written",
    "C35": "oracle: values computed by the objects (decided by the other properties), compared with the data of lines, surfaces and ellipses; figures are not rendered",
}
SPECIAL = {
    "C31": "property-based testing (Hypothesis) driving a sanitized C++ driver with an allocation counter",
}
claimed, rest = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "vf", "checks", i.lower() + ".py")):
        claimed.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": SPECIAL.get(i, "property-based testing (Hypothesis): generated cases against an explicit oracle, with shrinking"),
            "level": "exploration",
            "level_note": "Generated-input search, no proof of absence; " + NOTES.get(i, "see DESIGN.md") + ". Trusts numpy/scipy and the reference models in vf/.",
        })
    else:
        rest.append({"property": i, "reason": "the check for this property is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public interfaces of /repo's working tree", "source_commits": []},
    "checks": claimed,
    "not_applicable": rest,
    "notes": "All checks import dmpbbo from /repo (or compile /repo/src) on every run. Replays: ./check Cxx --replay FILE.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed", len(rest), "not")
