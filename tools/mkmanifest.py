"""Writes MANIFEST.json"""
import json, os

N = {
 "P01": ("generated ODEs; adjoint vs backpropagation vs differences of a numpy integrator", "the numpy reference integrator and central differences"),
 "P02": ("metamorphic: same problem with different chunk sizes, solvers, gradient methods", "agreement to tight solver tolerances"),
 "P03": ("generated ODEs against an independent step-by-step numpy reference and step residuals", "numpy Newton reference"),
 "P04": ("metamorphic: truncation, restart, batch permutation/selection, shifted times", "only relations between runs"),
 "P05": ("generated solvable, unsolvable and NaN-producing systems with injected solver faults; residual and outcome oracle", "the residual is recomputed outside the solver"),
 "P06": ("generated block systems against dense linear algebra; gradients against dense backpropagation", "torch dense solve as reference"),
 "P07": ("generated block-diagonal matrices against a dense model of the matrix", "dense numpy assembly"),
 "P08": ("generated systems with known roots and faults; root and outcome oracle", "residuals recomputed outside the solver"),
 "P09": ("generated well-posed systems against residuals and dense solutions", "dense residuals"),
 "P10": ("generated nested flow rules and states; autodiff and finite differences of an independent scalar reference", "scalar reference written from the documented equations"),
 "P11": ("generated nested flow rules against a scalar reference; symmetry and dissipation relations", "scalar reference written from the documented equations"),
 "P12": ("generated switching rules against the documented activation energy", "scalar reference"),
 "P13": ("generated hardening models and states; autodiff and finite differences of a scalar reference", "scalar reference"),
 "P14": ("generated hardening models against a scalar reference and against each other where they coincide", "scalar reference"),
 "P15": ("generated damage models against a scalar reference and its differences", "scalar reference"),
 "P16": ("generated constitutive models under all controls against a scalar reference; Jacobians by autodiff and differences", "scalar reference"),
 "P17": ("metamorphic: strain-, stress- and mixed-controlled runs of generated models and histories", "a different result is accepted only if it satisfies every discretised equation (softening models can have several solutions)"),
 "P18": ("every step of generated simulations checked against the discretised equations evaluated with a scalar reference", "scalar reference"),
 "P19": ("generated parameters and temperatures against the documented formulas on Python floats", "formulas transcribed from the documentation"),
 "P20": ("round trips and bounds over generated scaling functions and values", "algebraic laws"),
 "P21": ("generated series and query times against numpy.interp per sample", "numpy.interp"),
 "P22": ("generated vector functions with analytic Jacobians", "analytic derivatives"),
 "P23": ("generated test descriptions; predicate over the produced load histories", "written from the documented load descriptions"),
 "P24": ("generated cycle descriptions; predicate over the produced histories", "written from the documented cycle descriptions"),
 "P25": ("generated experiment data sets against a per-test reference of loading and conversion", "per-test numpy reference"),
 "P26": ("generated experiment batches; the model run by hand, one test at a time", "separately driven simulation plus numpy conversion"),
 "P27": ("generated priors, batches and latent values; the log density summed by hand", "scipy-free hand-written densities; a stand-in simulation isolates the statistics"),
 "P28": ("generated priors, batches, weights and latent values; the log density summed by hand; guide sites and parameters", "hand-written densities; stand-in and real simulations"),
 "P29": ("metamorphic: batch evaluation against every entry alone", "only relations between evaluations"),
 "P30": ("generated calibration problems; adjoint vs backpropagation vs differences of the loss", "the forward simulation (checked by P18)"),
 "P31": ("generated shapes and values against numpy", "numpy"),
}
checks = []
for k in sorted(N):
    t, note = N[k]
    checks.append({
        "property": k,
        "quick_cmd": f"./check {k} quick",
        "thorough_cmd": f"./check {k} thorough",
        "evidence_file": f"evidence/{k}.json",
        "technique": "property-based testing (Hypothesis): " + t,
        "level": "exploration",
        "level_note": "Held on every generated case; no claim beyond them. CPU, double precision. Trusts: " + note + ".",
    })
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "Checks import pyoptmat straight from /repo (pure Python), so nothing is built. A failure is shrunk and saved in replays/; './check replay FILE' runs it again without Hypothesis."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
