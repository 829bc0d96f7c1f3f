#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that exist (run: python3 tools/mkmanifest.py)."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "property-based testing: generated directions/patterns/slants against closed-form gains",
 "C02": "property-based testing: generated panel configurations against closed-form grids",
 "C03": "property-based testing: generated options on both sides of each limit against an acceptance predicate",
 "C04": "property-based testing: generated placements against a NumPy geometry reference",
 "C05": "property-based testing: generated configurations and LoS mixes against golden tables",
 "C06": "property-based testing: generated states/requests against golden probabilities (exact binomial bounds)",
 "C07": "property-based testing: generated layouts, distribution tests against golden tables",
 "C08": "property-based testing: generated parameter sets, law reconstruction and invariants",
 "C09": "property-based testing: generated spreads/geometries, reconstruction and invariants",
 "C10": "property-based testing: generated rays/arrays/topologies against a NumPy reference of the equations (differential)",
 "C11": "property-based testing: generated orientations/directions, rotation algebra and metamorphic invariance",
 "C12": "property-based testing: generated carriers/elevations/weather against a NumPy link budget",
 "C13": "property-based testing: generated flags/directions/batches, gain-ratio reference",
 "C14": "property-based testing: generated full configurations, layout predicate and direction-swap relation",
 "C15": "stateful property-based testing: generated call histories against a Python model of the state",
 "C16": "property-based testing: generated arguments, geometric predicates",
 "C17": "property-based testing: generated impulse responses, direct-sum reference and Fourier relation",
 "C18": "property-based testing: generated motion/grids, metamorphic relations and spectral bounds",
 "C19": "property-based testing: generated TDL configurations against golden profiles and moments",
 "C21": "property-based testing: generated seeds/call orders, bit-identity and graph/eager differential",
 "C22": "property-based testing: generated configurations at both precisions (differential)",
 "C23": "property-based testing: generated inputs, round trips and closed forms",
}
N = {}
have = {f[:3].upper() for f in os.listdir(os.path.join(R, "checks")) if f.startswith("c") and f[1:3].isdigit()}
checks, na = [], []
for line in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in have:
        checks.append(dict(property=p, quick_cmd=f"/opt/venv/bin/python run.py {p} quick",
                           thorough_cmd=f"/opt/venv/bin/python run.py {p} thorough",
                           evidence_file=f"evidence/{p}.json", technique=T[p], level="exploration",
                           level_note=N.get(p, "Exploration of generated cases (seeded by VERIF_SEED) against an independent float64 NumPy oracle; "
                           "no alarm means no counterexample among the cases counted in the evidence file. Trusts TensorFlow/Sionna primitives, "
                           "the golden tables copied from the pinned models/*.json and the oracle code in harness/ and checks/.")))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python run.py setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Known findings: KNOWN_FINDINGS.txt. Replay a failure with: /opt/venv/bin/python run.py replay <file>")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
