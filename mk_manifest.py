#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": P.get("technique", "model-based property testing: generated call histories against a reference model, with shrinking"),
        "level": "exploration",
        "level_note": P.get("level_note", "Holds on every generated history of the run; nothing is claimed about histories that were not generated. "
                            "Trusts the reference model and harness in /verif/harness, rustc and std."),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS],
    "notes": "No hooks in /repo: the harness uses the public API only. Known findings and repaired defects: known-findings.json.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
