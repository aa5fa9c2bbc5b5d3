#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/catalogue.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/checks"]
import catalogue
NA = {
 "C34": "The cost of a scan is decided inside the standard library's regular-expression engine (recursion depth per input character); no static argument over this repository's source bounds stack or time for a given length.",
 "C35": "Intent has no oracle: the property quantifies over natural-language sentences, so there is nothing a static analysis could compare the code with.",
}
NOTE = "Static: the resolved program exported by clang from /repo's current source is interpreted over abstract domains, nothing is executed. A violation is reported only with a concrete witness consistent with the path; constructs outside the modelled C++/library subset make their path class undecided, which is counted in the evidence and raises no alarm. Trusted: clang's AST, the hand-written models of std::string, std::regex and boost::gregorian/posix_time."
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in catalogue.CHECKS:
        c = catalogue.CHECKS[i]
        cmd = "python3 checks/run.py --property " + i
        checks.append({"property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough", "technique": "static analysis: " + c.technique, "level": "other",
                       "level_note": "Rule: " + c.rule + ". " + NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: the analysis for it is under construction")})
json.dump({"version": 1, "setup_cmd": "bash tools/exporter/build.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", [x["property"] for x in na])
