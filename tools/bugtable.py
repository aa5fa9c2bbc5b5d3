#!/usr/bin/env python3
"""Table of planted bugs for DESIGN.md from the output files of tools/bugrun.py (later lines win)."""
import json, os, re, sys
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
res = {}
for f in sys.argv[1:]:
    for l in open(f, errors="replace"):
        m = re.match(r"(c\d\d-\S+) (C\d\d) rc (\d) (\d+)s (.*)", l)
        if m:
            res[m.group(1)] = (m.group(3), m.group(4), m.group(5))
print("| planted bug | needs | reported as |")
print("|---|---|---|")
for i in sorted(os.listdir(S)):
    me = json.load(open(os.path.join(S, i, "meta.json")))
    r = res.get(i)
    w = "not run" if r is None else ("**missed**" if r[0] == "0" else "no answer") if r[0] != "1" else re.sub(r"\|", "/", ": ".join(r[2].split(": ")[:2]))[:140]
    print("| `%s` | %s | %s |" % (i, me["needs"].replace("|", "/"), w))
