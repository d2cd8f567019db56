#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check module is claimed."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "invariant monitor on every returned probability array under hostile covariates and parameters",
 "C02": "differential monitor: predictions vs independent closed-form reference",
 "C03": "metamorphic trace monitor over paired executions on rearranged data",
 "C04": "optimizer-boundary monitor: every objective value vs reference log-likelihood",
 "C05": "optimizer-boundary monitor: every gradient vs complex-step derivatives of a reference likelihood",
 "C06": "optimizer-boundary monitor: every Hessian / reported information matrix vs complex-step reference",
 "C07": "optimizer trace monitor plus stationarity and multi-start oracle on completed estimations",
 "C08": "optimizer trace monitor: fixed coordinates at every visited point, final estimates and statistics",
 "C09": "post-estimation monitor recomputing every reported statistic from parameters and data",
 "C10": "hooked-state monitor on design matrices and names vs the specification's definition",
 "C11": "hooked-state monitor on mapping matrices vs membership relation",
 "C12": "conversion monitor: cell-by-cell accounting of the wide output against the long input",
 "C13": "conversion monitor: row/cell accounting of the long output, plus round trips",
 "C14": "sampler monitor: conservation and provenance of every resampled row; distribution test on draws",
 "C15": "optimizer trace monitor on bootstrap/jackknife refits, independent refits as oracle",
 "C16": "differential monitor: interval endpoints vs independent implementation on random replicates",
 "C17": "differential monitor: ABC endpoints vs an independent algorithm with its own weighted estimator",
 "C18": "differential and reproducibility monitor on mixed logit draws, probabilities and likelihoods",
 "C19": "differential monitor: panel predictions vs reference posterior-weighted simulation",
 "C20": "argument-snapshot sanitizer around every public call",
 "C21": "fault injection into valid inputs with an accept/reject monitor",
 "C22": "save/load monitor comparing state and behaviour, also across processes",
 "C23": "metamorphic monitor: weighted executions vs replicated data",
 "C25": "metamorphic monitor: each generalised model at neutral parameters vs the conditional logit on the same data",
 "C26": "metamorphic monitor: the same model written in two ways, compared through the linear map of the parameters",
 "C27": "metamorphic monitor: estimation on pairs of layouts of the same choice situations",
 "C28": "differential monitor over pairs of equivalent public calls",
 "C24": "history monitor: results re-observed after interleaved operations; aliasing sanitizer on returned values",
}
NOTE = ("Held on every execution observed: randomised real-code workloads "
        "(counts, distinct configurations and per-oracle events in the "
        "evidence file). Trusts the independent reference in /verif/lib, "
        "numpy/scipy/pandas, and the stated domain and tolerances; nothing "
        "is claimed for inputs outside the generated families.")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": "./run.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "runtime monitoring: " + T[i],
            "level": "fault_enumeration" if i == "C21" else "exploration",
            "level_note": NOTE if i != "C21" else
            "Enumerates a fixed catalogue of input faults, each injected into randomly generated valid inputs; the fault must raise and the fault-free twin must be accepted. Faults outside the catalogue are not covered."})
    else:
        na.append({"property": i, "reason": "check not built yet"})
M = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks were added to /repo: instrumentation is installed from outside (scipy.optimize.minimize is wrapped before pylogit is imported). Replays: /verif/out/replay_*.json."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
