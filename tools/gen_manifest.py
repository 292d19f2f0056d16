#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks_table import CHECKS
NA = {
    "C18": "a pure function of its input with no schedule, clock, fault, interleaving or history in it: preprocessing has no mutable state, so there is nothing for a simulator to decide (input generation alone would be property-based testing)",
    "C19": "pure string-to-number functions: no schedule, clock, fault, interleaving or history to simulate",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=c.get("technique", "deterministic simulation: seeded search over operation histories, invariants after every step, minimised replay"),
                           level=c["level"], level_note=c.get("note", "sampled histories: a clean run is evidence, not proof; trusts the simulator's own reference evaluation")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check is registered yet")))
m = dict(version=1, setup_cmd="python3 setup.py_check", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam is a public interface, the link line (--wrap) or the allocator. Repairs are the fix: commits listed in known_findings.txt.")
m["setup_cmd"] = "python3 tools/setup_check.py"
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
