#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the property list and the checks that exist"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; TLC-generated and seeded scenarios executed on the real code; recorded traces validated against the specification by TLC"
NOTE = ("Exhaustive on the specification within the constants of its configurations; the binding to the code is by conformance of "
        "recorded executions, so it covers the executed scenarios and schedules. Trusted: TLC, the trace recording in the Go driver, the Go toolchain.")
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    pr = json.loads(line)
    pid = pr["id"]
    if os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd="python3 bin/check.py " + pid, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + pid,
                           evidence_file="evidence/%s.json" % pid, technique=TECH, level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=pid, reason="specification and conformance check not built yet"))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: drivers use the public API; where a driver needs package-private knobs (size unit and clock of the rolling log file, which the package's own tests replace too) it adds a file to the package with go build -overlay.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not built")
