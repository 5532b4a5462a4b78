#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from vsa.registry import CHECKS, TECHNIQUE          # noqa: E402

NA = {
    "C22": "What Vector's products display for a recording is not part of the source; no static argument over this code can relate decoded values "
           "to it. The structural part, that each value comes from its documented byte position, is claimed as C03.",
    "C23": "The library never calls fsync, and whether data survives power loss is decided by the operating system and the storage device, which "
           "no analysis of this source can bound. What the library itself controls, the order of its file operations, is claimed as C20.",
    "C24": "Peak memory and run time are runtime quantities of CPython, zlib and the operating system; a sound static bound on them is out of reach. "
           "The loop rules behind C07 and C08 (every step advances) show termination only.",
}
NOTE = ("Sound relative to the models of the Python builtins and standard library calls the code uses (struct, zlib, io, datetime, enum, "
        "dataclasses), which are trusted; integer facts are decided by interval and difference reasoning without a solver. Obligations on paths "
        "the analysis cannot follow are reported as undecided in the evidence, never as violations. Nothing of the library is executed.")

props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 11)'", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": TECHNIQUE.get(p, "abstract interpretation of the source"),
                            "level": "other", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "Check not built yet.")})
m["notes"] = "No hooks in /repo. /repo carries 'fix:' commits only; see known-findings.txt and DESIGN.md."
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
