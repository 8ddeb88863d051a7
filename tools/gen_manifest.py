#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    c = CHECKS[i]
    modes = {b["mode"] for b in c["bins"]}
    san = "ThreadSanitizer" if modes == {"tsan"} else \
        "AddressSanitizer+UBSan" + ("+ThreadSanitizer" if "tsan" in modes else "")
    checks.append(dict(
        property=i,
        quick_cmd="python3 run_check.py %s --tier quick" % i,
        thorough_cmd="python3 run_check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=c.get("technique", "runtime monitoring: generated workloads, independent oracle on every result, %s" % san),
        level="exploration",
        level_note=c.get("note", "The real code is run on generated inputs under %s with NaN-filled matrices; an independently written oracle judges every observed result. Only what was executed is decided." % san)))
m = dict(version=1,
         setup_cmd="python3 -m py_compile run_check.py checks.py && clang++ --version > /dev/null",
         checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", [x["property"] for x in na])
