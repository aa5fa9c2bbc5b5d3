#!/usr/bin/env python3
"""Decides one property by static analysis of /repo's current source.

usage: run.py --property Cxx     (VERIF_TIER=quick|thorough, VERIF_SEED)
exit 0: the property holds on everything explored; 1: VIOLATION; 2: the analysis itself could not run
"""
import argparse
import json
import os
import sys
import time
import traceback
from multiprocessing import get_context

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [VERIF, HERE]
sys.setrecursionlimit(20000)

from sa import prog, interp  # noqa: E402
from sa.prog import AnalysisError  # noqa: E402
import catalogue  # noqa: E402

TASKS = []
SHARED = None


def work(i):
    t = TASKS[i]
    t0 = time.time()
    try:
        r = t.run(SHARED)
        r = r if isinstance(r, dict) else r.report()
    except AnalysisError as e:
        r = {"name": t.name, "anchor": str(e)}
    except MemoryError:
        r = {"name": t.name, "crash": "out of memory"}
    except RecursionError:
        r = {"name": t.name, "crash": "recursion limit"}
    except Exception as e:
        r = {"name": t.name, "crash": "%s: %s" % (type(e).__name__, str(e)[:200]), "tb": traceback.format_exc()[-1500:]}
    r["wall"] = round(time.time() - t0, 2)
    r["i"] = i
    return r


def known_findings(pid):
    """lines 'open: property=Cxx key=<rule|where> <what fails>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("open: property=%s " % pid):
                rest = l.split(" ", 2)[2].strip()
                key, _, what = rest.partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def main():
    global SHARED
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--only", default="")
    ap.add_argument("--tier", default="")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    pid = a.property
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    try:
        p = prog.load()
        SHARED = interp.Shared(p)
        spec = catalogue.CHECKS[pid]
        TASKS.extend(spec.tasks(SHARED, tier))
    except AnalysisError as e:
        print("ERROR: %s: %s" % (pid, e))
        return 2
    if a.only:
        TASKS[:] = [t for t in TASKS if a.only in t.name]
    if not TASKS:
        print("ERROR: %s: nothing to analyse" % pid)
        return 2
    order = sorted(range(len(TASKS)), key=lambda i: -TASKS[i].cost)
    reports = []
    late = []
    ctx = get_context("fork")
    with ctx.Pool(min(a.jobs, len(TASKS))) as pool:
        rs = [(i, pool.apply_async(work, (i,))) for i in order]
        for i, r in rs:
            left = budget - (time.time() - t0)
            try:
                reports.append(r.get(max(0.1, left)))
            except Exception as e:  # time budget
                late.append(TASKS[i].name)
                reports.append({"name": TASKS[i].name, "crash": "time budget (%s)" % type(e).__name__, "i": i, "wall": 0})
        pool.terminate()
    for r in reports:
        if "tb" in r and os.environ.get("VERIF_TRACE"):
            print(r["tb"], file=sys.stderr)
    reports.sort(key=lambda r: r["i"])
    anchors = [r for r in reports if "anchor" in r]
    viols = []
    for r in reports:
        for v in r.get("viol", []):
            v["task"] = r["name"]
            if spec.rules is None or v["rule"] in spec.rules:
                viols.append(v)
    known = known_findings(pid)
    fresh, seen = [], {}
    for v in viols:
        k = next((k for k, w in known if k in "%s | %s | %s" % (v["task"], v["rule"], v["msg"])), None)
        if k is None:
            fresh.append(v)
        else:
            seen[k] = v
    paths = sum(r.get("stats", {}).get("paths", 0) for r in reports)
    und = {}
    for r in reports:
        for w, n in r.get("stats", {}).get("undecided", {}).items():
            und[w] = und.get(w, 0) + n
    for r in reports:
        if "crash" in r or "anchor" in r:
            und["%s: %s" % (r["name"], r.get("crash") or r.get("anchor"))] = 1
    obligations = sum(r.get("obligations", 0) for r in reports)
    sites = sorted({s for r in reports for s in r.get("sites", [])})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(time.time() - t0, 1),
        "coverage": {
            "technique": spec.technique,
            "rule": spec.rule,
            "functions_in_program": len(p.functions),
            "units_analysed": len(reports),
            "path_classes_decided": paths,
            "path_classes_infeasible": sum(r.get("stats", {}).get("infeasible", 0) for r in reports),
            "path_classes_undecided": sum(und.values()),
            "undecided_reasons": und,
            "obligations_checked": obligations,
            "unconfirmed_paths": sum(r.get("unconfirmed", 0) for r in reports),
            "units": [{"name": r["name"], "paths": r.get("stats", {}).get("paths", 0), "undecided": sum(r.get("stats", {}).get("undecided", {}).values()),
                       "truncated": bool(r.get("stats", {}).get("truncated")),
                       "obligations": r.get("obligations", 0), "violations": r.get("nviol", 0), "wall_s": r["wall"]} for r in reports],
        },
    }
    if sites:
        evidence["coverage"]["sites"] = sites
    json.dump(evidence, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    if a.v:
        for r in reports:
            print(r["name"], r.get("stats"), "viol", r.get("nviol"), "obl", r.get("obligations"), "unconf", r.get("unconfirmed"), r.get("crash") or r.get("anchor") or "", r["wall"])
            if "tb" in r:
                print(r["tb"])
    for k, w in known:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if fresh:
        rp = os.path.join(ev, pid + ".replay.txt")
        with open(rp, "w") as f:
            for v in fresh:
                f.write("%s\n  rule: %s\n  at:   %s\n  what: %s\n  text: %r\n" % (v["task"], v["rule"], v.get("at"), v["msg"], v.get("text", "")))
                if v.get("path"):
                    f.write("  path:\n")
                    for s in v["path"]:
                        f.write("    %s\n" % (s,))
        for v in fresh[:3]:
            print("%s: %s: %s (at %s, e.g. %r)" % (v["task"], v["rule"], v["msg"], v.get("at"), v.get("text", "")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if paths == 0 and obligations == 0:
        print("ERROR: %s: nothing could be analysed: %s" % (pid, list(und)[:3]))
        return 2
    print("%s holds on everything analysed: %d units, %d path classes, %d obligations, %d undecided, %.1f s" %
          (pid, len(reports), paths, obligations, sum(und.values()), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print("ERROR: the analysis could not run")
        rc = 2
    sys.exit(rc)
