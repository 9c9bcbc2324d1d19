"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = {
 "C01": "runtime monitoring: window-vs-file oracle on the bathymetry reader under seam/pole workloads",
 "C02": "runtime monitoring: box oracle over swept positions",
 "C03": "runtime monitoring: cast-identity (completeness/alignment) oracle over generated climatologies",
 "C04": "runtime monitoring: history checker over interleaved fetches by several floats",
 "C05": "runtime monitoring: calendar oracle over date streams with malformed elements",
 "C06": "runtime monitoring: value and contiguity oracle on wrapped longitudes",
 "C07": "runtime monitoring: selection-rule checker, reproducibility under perturbed global state",
 "C08": "runtime monitoring: dense kriging oracle and metamorphic relations",
 "C09": "runtime monitoring: per-crossing interpolation oracle and metamorphic relations",
 "C10": "runtime monitoring: variance oracles and metamorphic relations",
 "C11": "runtime monitoring: frontal classification oracle",
 "C12": "runtime monitoring: end-to-end reference model of the mapping on synthetic worlds, rotation relation",
 "C13": "runtime monitoring: history checker over sequences of mapping runs",
 "C14": "runtime monitoring: weighted least-squares and model-choice oracles on the fit",
 "C15": "runtime monitoring: optimality oracle at given breaks",
 "C16": "runtime monitoring: level-selection checker against a reference model",
 "C17": "runtime monitoring: history checker of the settings file",
 "C18": "runtime monitoring: end-to-end relations on the calibration file, drift recovery",
 "C19": "runtime monitoring: covariance oracle and well-formedness monitors",
 "C20": "runtime monitoring: artist capture at savefig, compared with the float's data",
 "C21": "runtime monitoring: file-system audit-hook monitor and tree hashes",
 "C22": "runtime monitoring: schedule comparison (orders, pool, perturbed random state)",
 "C23": "runtime monitoring: history checker over loads and modifications",
 "C24": "runtime monitoring with fault injection (exceptions at the n-th call, bad files, SIGKILL)",
 "C25": "runtime monitoring: geometry oracles and metamorphic relations",
 "C26": "runtime monitoring: whole-pipeline comparison of equivalent descriptions",
 "C27": "runtime monitoring: metamorphic relations on the whole pipeline",
 "C28": "runtime monitoring: process-state snapshots around every step, failures injected, tracemalloc",
 "C31": "runtime monitoring: poor data put into float and climatology, others' results against clean runs, reduced runs and reference models",
 "C30": "runtime monitoring: random histories of a float against an online model of its files and history-free reruns of each step",
 "C29": "runtime monitoring: the documented workflows in processes of their own against the steps one by one",
}
REASON = {}
NOTE = ("Oracle-checked executions of the real code on generated workloads; bounded by the inputs the workloads reach "
        "(counts in the evidence file), no claim beyond them.")
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(here, "owcmon", "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"./check {p} --tier quick", thorough_cmd=f"./check {p} --tier thorough",
                           evidence_file=f"evidence/{p}.json", technique=TECH[p],
                           level="fault_enumeration" if p == "C24" and False else "exploration", level_note=NOTE))
    else:
        na.append(dict(property=p, reason=REASON.get(p, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
