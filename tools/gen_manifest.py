#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. The claimed properties are those the harness knows."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
known = set(re.findall(r'"(C\d\d)" =>', open(f"{here}/harness/src/props/mod.rs").read()))
TECH = {
 "model": "model-based stateful property-based testing: generated histories of messages against a reference model, with shrinking",
 "meta": "metamorphic stateful property-based testing: generated histories run twice on the real contract and compared, with shrinking",
 "fault": "property-based testing with generated bank faults on generated histories, with shrinking",
 "math": "property-based testing of conversions against exact big-integer arithmetic, with shrinking",
 "cost": "property-based testing of storage access counts on twin books and against a logarithmic bound, with shrinking",
 "fuzz": "structured fuzzing of messages and queries in generated histories, reference model as oracle, with shrinking",
}
T = dict(C05="meta", C09="meta", C13="math", C14="math", C19="fault", C21="cost", C22="fuzz", C25="meta", C26="fuzz", C27="meta", C28="meta", C29="meta", C30="meta", C31="meta", C32="meta", C33="meta")
NOTE = {}
SIM = "Evidence over the generated cases only, no proof. Trusts the chain simulator (rollback, bank, sub-message replies) and cosmwasm's mock address check; "
D = "the reference model is a naive queue per tick and side with 512-bit arithmetic, written from the documentation. Runs the real contract code natively (not compiled to wasm), through its JSON entry points."
checks = []
for p in props:
    i = p["id"]
    if i not in known: continue
    checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
        "evidence_file": f"evidence/{i}.json", "technique": TECH[T.get(i, "model")], "level": "exploration",
        "level_note": NOTE.get(i, SIM + D)})
na = [{"property": p["id"], "reason": "the check for it is not built yet"} for p in props if p["id"] not in known]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "One Rust harness (/verif/harness, path dependency on /repo's crate, no hooks). Known findings and repaired defects: known_findings.txt. Design: DESIGN.md."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
