#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from /verif/seeded."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FIRST_MISSED = {
    "c01-negligible-weight": "inputs in units 1e-6..1e6", "c05-log-det-product": "units, larger extents",
    "c07-tiny-diagonal": "units", "c07-zero-rhs": "units", "c16-scores-sigma": "units",
    "c21-stale-complement": "section `moves`, stretch moves replayed", "c24-int-range": "ranges beyond 32 bits",
    "c22-gradient-race": "threaded vector gradients", "c22-metrics-accumulate": "recording aggregator",
    "c11-split-frames": "large payloads", "c14-float-weights": "nearly equal costs",
    "c21-log-underflow": "levels added to the objective", "c10-same-values": "load targets which differ in priors only",
    "c17-snap": "tiny changes", "c01-tiled-covariance": "exact multiples of block sizes",
    "c04-inducing-cache": "history walks", "c05-mixed-units": "units per entry", "c15-mixed-units": "units per entry",
    "c20-normal-equations": "nearly collinear, tall designs", "c23-fixed-buffer": "huge values",
}
extra = os.path.join(root, "tools", "missed.json")
if os.path.exists(extra):
    FIRST_MISSED.update(json.load(open(extra)))
rows = ["| planted bug | caught by | needs | missed at first; strengthened with |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/").rstrip("."), FIRST_MISSED.get(d, "")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- seeded table -->"), s.index("<!-- end of table -->")
open(p, "w").write(s[:a] + "<!-- seeded table -->\n" + "\n".join(rows) + "\n" + s[b:])
