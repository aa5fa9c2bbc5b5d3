"""Loads the resolved program of /repo (exported by tools/exporter through clang) into Python."""
import glob
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """The analysis cannot run (anchor vanished, source does not parse)."""


def ensure_exporter():
    exe = os.path.join(BUILD, "exporter")
    src = os.path.join(VERIF, "tools/exporter/exporter.cpp")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(["bash", os.path.join(VERIF, "tools/exporter/build.sh")], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("exporter does not build: " + r.stderr[-2000:])
    return exe


_resdir = None


def resource_dir():
    global _resdir
    if _resdir is None:
        _resdir = subprocess.run(["clang-18", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    return _resdir


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    h.update(open(os.path.join(VERIF, "tools/exporter/exporter.cpp"), "rb").read())
    return h.hexdigest()[:24]


def source_files():
    r = []
    for d, ds, fs in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        ds[:] = [x for x in ds if not x.startswith((".", "_", "bazel-")) and x not in ("test", "tests", "build")]
        for f in fs:
            if f.endswith((".cpp", ".hpp", ".h", ".cc", ".cxx")):
                r.append(os.path.join(d, f))
    return sorted(r)


def export(path, out):
    exe = ensure_exporter()
    cmd = [exe, REPO, out, path, "--", "-std=c++17", "-I" + REPO, "-I" + REPO + "/src", "-resource-dir", resource_dir(),
           "-Wno-everything", "-x", "c++"]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    if not os.path.exists(out):
        raise AnalysisError("exporter failed on %s: %s" % (path, r.stderr[-1500:]))
    d = json.loads(open(out, encoding="utf-8").read().replace("__cxx11::", ""))
    if d["errors"]:
        raise AnalysisError("%s does not compile: %s" % (path, r.stderr[-1500:]))
    return d


class Program:
    def __init__(self):
        self.functions = {}   # key -> function (first definition seen)
        self.by_qn = {}
        self.globals = {}     # qn -> (var, tu)
        self.gids = {}        # (tu, id) -> qn
        self.records = {}
        self.clash = set()
        self.enums = {}
        self.files = []
        self.tus = []

    def add(self, d, tu):
        for f in d["functions"]:
            f["tu"] = tu
            if f["key"] not in self.functions:
                self.functions[f["key"]] = f
                self.by_qn.setdefault(f["qn"], []).append(f)
        for g in d["globals"]:
            self.gids[(tu, g["id"])] = g["qn"]
            if g["qn"] not in self.globals or ("init" in g and "init" not in self.globals[g["qn"]][0]):
                self.globals[g["qn"]] = (g, tu)
        for r in d["records"]:
            o = self.records.setdefault(r["qn"], r)
            if o.get("loc") != r.get("loc"):
                self.clash.add(r["qn"])      # two local classes of one name: neither is modelled
        for e in d["enums"]:
            self.enums.setdefault(e["qn"], e)
        self.tus.append(tu)

    def bases(self, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            if c in self.records:
                todo += self.records[c]["bases"]
        return out

    def derived(self, base):
        return [c for c in self.records if base in self.bases(c) and c != base]

    def method(self, cls, name):
        for c in self.bases(cls):
            fs = [f for f in self.by_qn.get(c + "::" + name, [])]
            if fs:
                return fs
        return []

    def override_of(self, cls, key):
        """the definition that a virtual call of `key` on an object of dynamic class `cls` reaches"""
        for c in self.bases(cls):
            for f in self.functions.values():
                if f.get("cls") == c and (f["key"] == key or self._overrides(f, key)):
                    return f
        return self.functions.get(key)

    def _overrides(self, f, key):
        for o in f.get("overrides", []):
            if o == key:
                return True
            g = self.functions.get(o)
            if g and self._overrides(g, key):
                return True
        return False


def load():
    files = source_files()
    if not any(f.endswith("time.cpp") for f in files):
        raise AnalysisError("anchor vanished: time.cpp")
    h = tree_hash()
    cache = os.path.join(BUILD, "cache", h)
    os.makedirs(cache, exist_ok=True)

    def one(path):
        rel = os.path.relpath(path, REPO)
        out = os.path.join(cache, rel.replace("/", "__") + ".json")
        if os.path.exists(out):
            try:
                return rel, json.loads(open(out, encoding="utf-8").read().replace("__cxx11::", ""))
            except ValueError:
                pass
        tmp = os.path.join(BUILD, "%d.%s.tmp" % (os.getpid(), os.path.basename(out)))
        try:
            d = export(path, tmp)
            os.makedirs(cache, exist_ok=True)
            os.replace(tmp, out)
        finally:
            if os.path.exists(tmp):
                os.remove(tmp)
        return rel, d
    cpps = [f for f in files if not f.endswith((".hpp", ".h"))]
    # headers that the command line program does not include are analysed as units of their own
    guess = [f for f in files if f.endswith("ENRelativeDateFormatParser.hpp")]
    ensure_exporter()
    resource_dir()
    p = Program()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, cpps + guess))
        covered = set()
        for rel, d in res:
            covered.add(rel)
            for k in ("functions", "globals", "records", "enums"):
                for x in d[k]:
                    if "loc" in x:
                        covered.add(x["loc"].split(":")[0])
        rest = [f for f in files if f.endswith((".hpp", ".h")) and os.path.relpath(f, REPO) not in covered]
        more = []
        for f in rest:
            try:
                more.append(one(f))
            except AnalysisError:
                pass  # a header not meant to stand alone and not part of any unit
    # time.cpp last: identical keys, ids are per unit
    for rel, d in res + more:
        p.add(d, rel)
    for q in p.clash:
        p.records.pop(q, None)
        for k in [k for k, f in p.functions.items() if f.get("cls") == q]:
            p.by_qn[p.functions[k]["qn"]].remove(p.functions.pop(k))
    p.files = sorted(os.path.relpath(f, REPO) for f in files)
    p.hash = h
    prune_cache(h)
    return p


def prune_cache(keep):
    base = os.path.join(BUILD, "cache")
    try:
        ds = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
    except OSError:
        return
    for _, d in ds[:-6]:
        if d != keep:
            for f in glob.glob(os.path.join(base, d, "*.json")):
                try:
                    os.remove(f)
                except OSError:
                    pass
            try:
                os.rmdir(os.path.join(base, d))
            except OSError:
                pass
