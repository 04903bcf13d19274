#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE = {"C26", "C27", "C28"}
LATTICE = "bounded exhaustive exploration of the real samplers; the engine's outputs are the environment's choices"
NOTE = ("Every operation sequence and input within the bounds listed in DESIGN.md is executed on the real code, "
        "built from /repo's working tree under ASan, UBSan and libstdc++ assertions, in lock-step with a reference "
        "model; nothing is sampled. Trusts the reference model in the harness, the compiler and the sanitizers; says "
        "nothing beyond the bounds.")
NOTE_E = ("Every bounded sequence of engine outputs (extreme words; a complete lattice for frequencies) and every listed "
          "parameter is executed on the real code; the standard engine type is replaced at compile time by one whose "
          "outputs are chosen by the explorer. Frequencies are judged against reference distribution functions with a "
          "tolerance; says nothing about parameters outside the lists.")
checks = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if not os.path.exists(f"{V}/harness/{p}.cpp"):
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 bin/check.py {p} --tier quick",
        "thorough_cmd": f"python3 bin/check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "stateless explicit-state model checking of the implementation (" +
                     (LATTICE if p in ENGINE else "all operation sequences and inputs within bounds, lock-step with a reference model") + ")",
        "level": "model_checking",
        "level_note": NOTE_E if p in ENGINE else NOTE,
    })
claimed = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": "no check yet"} for l in open(V + "/properties.jsonl") if json.loads(l)["id"] not in claimed]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses use public API; the random engine is replaced by a force-included header of /verif. Known findings and repairs: known_findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
