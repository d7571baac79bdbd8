"""Writes /verif/MANIFEST.json."""
import json
import os

PY = "/opt/venv/bin/python -B -m trussmon"
T = {
    "C01": ("runtime monitor: equilibrium oracle over every reported increment",
            "Every reported increment of some hundred random runs (injected tangent faults included) is compared with an independent reference; "
            "trusts the textbook mechanics in trussmon/oracle.py and holds for the explored models only."),
    "C02": ("runtime monitor: constitutive and kinematic oracle over every result and over probed states",
            "Stretch, stress and force of every reported element result against closed formulas, at small and large stretches; explored models only."),
    "C03": ("runtime monitor: online reference plasticity model replayed along the reported history",
            "The reference return mapping is driven by the reported displacements only, so any trace of rejected attempts shows; faults force recycles; explored histories only."),
    "C04": ("runtime monitor: difference quotients of the observed internal forces, symmetry and rigid translation",
            "Central differences of the real residual at random states and a textbook tangent; states next to a kink of the material law are excluded from the difference quotients."),
    "C05": ("runtime monitor: conservation of force and moment over every result",
            "Assembly re-done from the reported element forces; resultants over all results and random states; explored models only."),
    "C06": ("runtime monitor: support and free-component invariants over every result",
            "Derived from the inputs only, for random labels, orders and partial supports; explored models only."),
    "C07": ("runtime monitor: trace specification of the step control over consecutive results",
            "All control modes; the first increment of nearly linear steps is also predicted; explored runs only."),
    "C08": ("runtime monitor: automaton of the adaptive factor over the recorded limits, with injected failures",
            "Limits are those recorded with the results; reductions are driven by injected faults; explored runs only."),
    "C09": ("runtime monitor: trace specification of the end of a step",
            "Decided from the reported results and the settings; explored runs only."),
    "C10": ("runtime monitor: load bookkeeping over multi-step traces",
            "Held loads recomputed from the reported results, steps ended by number, limit and injected failure; explored runs only."),
    "C11": ("fault injection at the solver callbacks with an equilibrium and prefix oracle",
            "Faults in stiffness and residual evaluations, starved iteration budgets, limit points and mechanisms; every reported increment has to be a true solution."),
    "C12": ("runtime monitor: snapshot integrity by overwriting, chain of results, prefix runs",
            "All results compared bit by bit around in-place overwriting of one result, the model and the inputs."),
    "C13": ("metamorphic monitor over pairs of runs",
            "Pairs whose path is unstable against perturbations of 1e-9 are left out and counted."),
    "C14": ("metamorphic monitor over pairs of runs and over rigidly moved states",
            "Pairs whose path is unstable against perturbations of 1e-9 are left out and counted."),
    "C15": ("determinism monitor: bitwise comparison of repeated, interleaved, nested and fresh-process runs",
            "Bit-identity on this interpreter and numpy; inputs compared before and after."),
    "C16": ("runtime monitor: model-based checking of handler operation histories",
            "Random operation sequences against a dictionary model after each operation, and edited models against newly created ones."),
    "C17": ("runtime monitor: injected model inconsistencies have to raise",
            "13 kinds of inconsistencies, each with its valid twin as control run."),
    "C18": ("runtime monitor: read-back of the drawn figure against the results",
            "Reads matplotlib artists of the Agg backend; relies on the artist kinds named in the evidence."),
    "C19": ("runtime monitor: read-back of the drawn lines against the results",
            "Reads matplotlib line data and labels of the Agg backend."),
    "C20": ("runtime monitor: identity-carrying frames, read back from the written movie",
            "Every saved picture carries an identity that is decoded from the frames of the GIF; a few movies at full resolution."),
    "C21": ("runtime monitor: recorded stdout, file-open audit events and log files, with injected exceptions",
            "All files opened for writing are seen through audit events; one known finding is listed (interleaved log-file models)."),
    "C22": ("runtime monitor: offline check of the recorded iteration trace",
            "All function and derivative evaluations of thousands of solves are recorded and the contract decided on them."),
    "C23": ("runtime monitor: residual, step and snapshot oracle over analytic one-parameter systems",
            "Analytic systems with known derivatives, direct solution as second opinion under fixed control."),
    "C24": ("runtime monitor: effort budget and finiteness under hostile models, settings and faults",
            "Bounds the observed number of stiffness evaluations; a bound on observed runs, not a termination proof."),
    "C25": ("runtime monitor: closed-form snap-through curve as oracle along the path",
            "Shallow two-bar trusses and star domes with step sizes a fraction of their height."),
    "C26": ("runtime monitor: reference automaton of the step control over all observed attempts, with disturbed tangents",
            "Attempts are reconstructed from the callback evaluations; ties between components and norms close to the tolerances end a comparison."),
}
ids = [json.loads(line)["id"] for line in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
M = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -B -c 'import trussmon.core, trussmon.env'",
    checks=[dict(property=i, quick_cmd=f"{PY} {i} quick", thorough_cmd=f"{PY} {i} thorough",
                 evidence_file=f"evidence/{i}.json", technique=T[i][0], level="exploration", level_note=T[i][1])
            for i in ids if i in T],
    not_applicable=[dict(property=i, reason="no check yet") for i in ids if i not in T],
    notes="No hooks in /repo: all instrumentation is attached from outside (subclasses of the public classes, callbacks, "
          "audit events). /repo is imported from its working tree. known-findings.txt lists known and fixed defects.",
)
json.dump(M, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
