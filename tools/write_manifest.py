"""Writes MANIFEST.json: every property with a checks/<id>.py is claimed."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "G01": "runtime monitor: online kernels vs. batch reference over random update histories",
 "S02": "runtime monitor: scaler state vs. two-pass discounted moments after every update",
 "L03": "runtime monitor: linear estimator vs. reference weighted least squares after every update",
 "C04": "runtime monitor: feasibility, descent and stationarity oracle on coordinate descent runs",
 "R05": "runtime monitor: path invariants and replay of recorded Gramians",
 "M06": "trace monitor: recording estimation method / distribution plug-ins, criterion recomputed offline",
 "K07": "runtime monitor: round trip, monotonicity and numerical derivative oracles",
 "D08": "runtime monitor: mutual consistency of density, CDF and quantile functions",
 "D09": "runtime monitor: scores vs. Richardson differences of an independent log-density",
 "D10": "runtime monitor: curvature vs. quadrature of independent scores",
 "D11": "runtime monitor: independent reference distributions, row-wise goodness-of-fit of variates",
 "F12": "runtime monitor: likelihood stationarity oracle on converged fits",
 "F13": "trace monitor: working observations recorded per batch, normal equations re-solved offline",
 "T14": "runtime monitor: support oracle with injected out-of-support responses",
 "A15": "fault injection: rejected calls in histories, state compared with the fault-free history",
 "U16": "differential monitor: input fingerprints and bitwise replay of histories",
 "I17": "differential monitor: interleaved instances vs. isolated histories",
 "Q18": "runtime monitor: predictions recomputed from coefficients and reference distributions",
 "E19": "differential monitor: equivalent option encodings and covariate influence",
 "W20": "differential monitor: weights vs. replicated / removed rows",
 "V21": "metamorphic monitor: paired runs under permutations and affine maps",
 "X22": "runtime monitor: discount sums and measured influence of old observations",
 "Y23": "differential monitor: same numbers in different containers and layouts",
 "B24": "trace monitor: event log of solves and derivative evaluations vs. schedule specification",
 "Z25": "differential monitor: paired equivalent formulations over histories",
 "N26": "sanitizer: numba bounds checking, interpreted vs. compiled execution",
}
NOTE = ("Exploration: the real code of /repo runs under randomised and adversarial workloads (seeded by VERIF_SEED) while the oracle watches; "
        "violations are definite and replayable, absence of violations is evidence for the explored cases only. Trusted: numpy/scipy and the reference in vlib/ and checks/.")
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists(f"{R}/checks/{i}.py"):
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=T[i], level="exploration", level_note=NOTE))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="chmod +x check.sh && /opt/venv/bin/python -c 'import ondil, numba, scipy, pandas, polars; print(ondil.__file__)'",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: the monitors observe the public API and the plug-in interfaces (Distribution, EstimationMethod). "
                     "A check exits 3 when it cannot decide (harness error, too few decidable cases)."),
          open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
