#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a checks/cNN.py is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: random schemes, grids and data; conservation invariant over the history of states",
 "C02": "property-based testing: random uniform states and schemes; invariance of the state over the history",
 "C03": "property-based testing: differential comparison with an independent reference model of each published flux",
 "C04": "property-based testing: metamorphic relations (shift, exchange of axes, extension, mirroring, scaling)",
 "C05": "property-based testing: range, total variation and ordering invariants over generated histories",
 "C06": "property-based testing with planted inadmissible values (fault injection) in the library and the command line program",
 "C07": "property-based testing: differential comparison with a reference Runge-Kutta model, order on generated linear problems",
 "C08": "property-based testing: reference model of the step length, clock and stop over generated histories",
 "C09": "property-based testing: reference model of the ghost cells on generated volumes",
 "C10": "property-based testing: reference model and polynomial exactness of the reconstructions on generated stencils",
 "C11": "property-based testing: reference model of the output schedule over generated histories",
 "C12": "property-based testing: round trip of output files against the state seen in memory",
 "C13": "property-based testing: differential runs on generated process grids against one process (MPI)",
 "C14": "property-based testing: repeated, interleaved and threaded generated runs compared bit for bit",
 "C15": "property-based testing: reference model of the initial data for generated scripts",
 "C16": "property-based testing: round trips, derivatives and algebraic identities on generated states",
 "C17": "grammar-based fuzzing of configurations: valid ones honoured (differential), invalid ones refused",
 "C18": "property-based testing: reference model of the functionals on generated states",
 "C19": "property-based testing: reference model of the ensemble statistics on generated ensembles",
 "C20": "property-based testing: differential runs of one generated ensemble over several distributions on processes (MPI)",
 "C21": "property-based testing: reference model of the generators and distributions, moments and uniformity",
 "C22": "stateful model-based testing: random programs of container operations against a reference model",
 "C23": "property-based testing: reference model of decomposition and halo exchange on generated process grids (MPI)",
 "C24": "property-based testing of the python interface against direct runs of the programs",
 "C25": "property-based testing: reference model of time integrated outputs over generated histories",
 "C26": "property-based testing: entropy identity and inequality on generated states and histories",
 "C27": "property-based testing: convergence towards exact solutions of generated problems",
 "C29": "property-based testing: round trip of the recorded configuration, texts and facts of generated runs",
 "C28": "fuzzing under address and undefined behaviour sanitizers",
}
NOT = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in NOT and os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i,
            quick_cmd="python3 checks/run.py %s" % i,
            thorough_cmd="python3 checks/run.py %s --tier thorough" % i,
            technique=TECH[i], level="exploration",
            level_note="generated inputs against an explicit oracle on the code built from the working tree; bounds and counts are in DESIGN.md and the evidence file",
            evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=NOT.get(i, "no check yet")))
hooks = os.path.join(V, "hooks.json")
m = dict(version=1, setup_cmd="bash harness/build.sh && python3 checks/run.py C28 --build-only", checks=checks, not_applicable=na,
         notes="Every check builds /repo's working tree (out of tree, in /verif/build) and then searches; see DESIGN.md.")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
