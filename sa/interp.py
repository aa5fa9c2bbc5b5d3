"""Abstract interpretation of the exported program.

Every function body of /repo is evaluated on abstract values: regular languages for text, linear forms
with bounds for numbers, calendar terms for dates.  One evaluation covers all inputs of a path class."""
import re
from fractions import Fraction
from . import prog as progmod
from . import tn, rx, srch
from .val import *
from .state import *

STEP_LIMIT = 400000


def last_name(fn):
    """'a<b::c>::d' -> 'd'"""
    i = fn.rfind("operator")
    if i >= 0 and (i == 0 or fn[i - 1] == ":"):
        return fn[i:]
    depth = 0
    for j in range(len(fn) - 1, -1, -1):
        c = fn[j]
        if c == ">":
            depth += 1
        elif c == "<":
            depth -= 1
        elif c == ":" and depth == 0:
            return strip_targs(fn[j + 1:])
    return strip_targs(fn)


def strip_targs(n):
    i = n.find("<")
    return n[:i] if i > 0 else n


def base_type(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:].strip()
        elif t.startswith("struct ") or t.startswith("class "):
            t = t.split(" ", 1)[1]
        elif t.endswith("&"):
            t = t[:-1].strip()
        elif t.endswith(" const"):
            t = t[:-6].strip()
        else:
            return t


INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False), "short": (16, True),
        "unsigned short": (16, False), "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
        "long long": (64, True), "unsigned long long": (64, False)}
FLOATS = {"float", "double", "long double"}


def targs(t):
    """template arguments of a type string"""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, depth, cur = [], 0, ""
    for c in t[i + 1:-1]:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


class CmpR:
    """result of comparing two strings: its sign matters only through comparison with 0"""

    def __init__(self, a, b):
        self.a, self.b = a, b


class FindR:
    def __init__(self, s, n, pos=0, kind="find"):
        self.s, self.n, self.pos, self.kind = s, n, pos, kind


class RetSig(Exception):
    pass


BRK, CONT = ("brk",), ("cont",)
NPOS = 2 ** 64 - 1


class Shared:
    """what all paths share: the program, evaluated globals, coverage"""

    def __init__(self, prog):
        self.prog = prog
        self.gcache = {}
        self.fns = set()
        self.branches = set()
        self.calls = set()
        self.vcache = {}


class Interp:
    def __init__(self, shared, st):
        from . import lib
        self.sh = shared
        self.prog = shared.prog
        self.st = st
        self.env = {}
        self.this = None
        self.tu = None
        self.depth = 0
        self.steps = 0
        self.swept = None
        self.globals = {}
        self.statics = {}
        self.temps = []
        self.hooks = {}
        self.lib = lib.Lib(self)
        self.stack = []

    # ------------------------------------------------------------------ cells
    def load(self, x):
        if isinstance(x, Cell):
            if x.dead or (x.own is not None and x.own.dead):
                self.st.event("dangling", x.name or "reference")
            v = x.v
            if v is UNINIT:
                self.st.event("uninit", x.name or "?")
                raise Undecided("uninitialised value read")
            return v
        return x

    def store(self, c, v):
        if not isinstance(c, Cell):
            raise Undecided("assignment to something that is not an object")
        if c.g:
            self.st.event("gwrite", c.g)
        if c.own is not None:
            self.lib.store_char(c, v)
            return
        c.v = v
        c.ver += 1

    def touch(self, obj):
        g = getattr(obj, "g", None)
        if g:
            self.st.event("gwrite", g)

    def copy(self, v):
        """copy construction"""
        if isinstance(v, Obj):
            f = self.copy_ctor(v.cls)
            if f is not None:
                o = Obj(v.cls)
                self.run_ctor(f, o, [Cell(v)])
                return o
            return Obj(v.cls, {k: self.copy_cell(c) for k, c in v.f.items()})
        if isinstance(v, Vec):
            return Vec(v.kind, v.et, [Cell(self.copy(c.v)) for c in v.e])
        if isinstance(v, Map):
            m = Map(v.kind, v.kt, v.vt)
            m.e = {k: Cell(self.copy(c.v)) for k, c in v.e.items()}
            if v.lazy:
                m.lazy = v.lazy
                m.name = v.name
            return m
        if isinstance(v, MatchV):
            return v.copy()
        return v

    def copy_cell(self, c):
        n = Cell(c.v if c.v is UNINIT else self.copy(c.v), c.name)
        return n

    def copy_ctor(self, cls):
        k = ("cc", cls)
        if k not in self.sh.vcache:
            r = None
            for f in self.prog.by_qn.get(cls + "::" + cls.rsplit("::", 1)[-1], []):
                if len(f["params"]) == 1 and base_type(f["params"][0]["t"]) == cls and not f.get("defaulted"):
                    r = f
            self.sh.vcache[k] = r
        return self.sh.vcache[k]

    # ------------------------------------------------------------------ construction by type
    def default(self, t, zero=False):
        t = base_type(t)
        if t in INTS or t in FLOATS:
            return 0 if zero else UNINIT
        if t == "bool":
            return False if zero else UNINIT
        if t.endswith("*"):
            return Ptr(None) if zero else UNINIT
        if t in self.prog.enums:
            return 0 if zero else UNINIT
        m = re.match(r"(.*?)\s*\[(\d+)\]((?:\[\d+\])*)$", t)
        if m:
            et = m.group(1) + m.group(3)
            if int(m.group(2)) > 4096:
                return Unknown("value of type " + t)
            return Vec("array", et, [Cell(self.default(et, zero)) for _ in range(int(m.group(2)))])
        v = self.lib.default(t, zero)
        if v is not None:
            return v
        if t in self.prog.records:
            return self.construct_default(t)
        return Unknown("value of type " + t)

    def construct_default(self, cls):
        for f in self.prog.by_qn.get(cls + "::" + cls.rsplit("::", 1)[-1], []):
            if not f["params"]:
                o = Obj(cls)
                self.run_ctor(f, o, [])
                return o
        o = Obj(cls)
        self.fill_fields(o, cls)
        return o

    def fill_fields(self, o, cls):
        r = self.prog.records.get(cls)
        if not r:
            return
        for b in r["bases"]:
            self.fill_fields(o, b)
        for fd in r["fields"]:
            if fd["name"] not in o.f:
                if fd.get("init") is not None:
                    o.f[fd["name"]] = Cell(self.rv(fd["init"]), fd["name"])
                else:
                    o.f[fd["name"]] = Cell(self.default(fd["t"]), fd["name"])

    def run_ctor(self, f, o, args):
        cell = Cell(o)
        sav = self.enter(f, cell, args)
        try:
            for i in f.get("inits", []):
                if i.get("deleg"):
                    e = i["e"]
                    g = self.prog.functions.get(e.get("key"))
                    if g:
                        self.run_ctor(g, o, self.args(g, e["a"]))
                elif i.get("base"):
                    e = i["e"]
                    g = self.prog.functions.get(e.get("key"))
                    if g:
                        self.run_ctor(g, o, self.args(g, e["a"]))
                    else:
                        self.fill_fields(o, e.get("cls"))
                elif i.get("f"):
                    e = i["e"]
                    o.f[i["f"]] = Cell(self.rv(e) if e is not None else UNINIT, i["f"])
            self.fill_fields(o, f.get("cls") or o.cls)
            self.stmt(f["body"]) if f.get("body") else None
        finally:
            self.leave(sav)
        return o

    # ------------------------------------------------------------------ functions
    def enter(self, f, this, args):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Undecided("recursion too deep")
        sav = (self.env, self.this, self.tu, self.st.loc, self.temps)
        self.temps = []
        self.env = {}
        self.this = this
        self.tu = f.get("tu", self.tu)
        self.sh.fns.add(f["key"])
        self.stack.append(f)
        for p, a in zip(f["params"], args):
            if p.get("ref"):
                self.env[p["id"]] = a if isinstance(a, Cell) else Cell(a, p["name"])
            else:
                self.env[p["id"]] = Cell(a, p["name"])
        return sav

    def leave(self, sav):
        self.depth -= 1
        self.stack.pop()
        self.env, self.this, self.tu, self.st.loc, self.temps = sav

    def args(self, f, nodes):
        out = []
        ps = f["params"]
        for i, a in enumerate(nodes):
            if i < len(ps) and ps[i].get("ref"):
                out.append(self.ev(a))
            else:
                out.append(self.rv(a))
        return out

    def call(self, f, this, args):
        h = self.hooks.get(f["qn"])
        if h is not None:
            return h(self, f, this, args)
        sav = self.enter(f, this, args)
        try:
            r = self.stmt(f["body"])
            if r is not None and r[0] == "ret":
                v = r[1]
                if not f["ret"].rstrip().endswith("&"):
                    v = self.load(v) if isinstance(v, Cell) else v
                return v
            return None
        finally:
            self.leave(sav)

    def call_named(self, this, cls, name, args=()):
        fs = self.prog.method(cls, name)
        fs = [f for f in fs if len(f["params"]) == len(args)]
        if not fs:
            raise progmod.AnalysisError("anchor vanished: %s::%s" % (cls, name))
        return self.call(fs[0], this, list(args))

    def variant(self, node, args, key):
        """the instantiation of a generic lambda that a call uses"""
        vs = node["variants"]
        for v in vs:
            if key is not None and v["key"] == key:
                return v
        if len(vs) > 1:
            vs = [v for v in vs if len(v["params"]) == len(args) and all(self.fits(p["t"], a) for p, a in zip(v["params"], args))]
        if len(vs) != 1:
            raise Undecided("which instantiation of a generic lambda is called")
        return vs[0]

    def fits(self, t, a):
        b = base_type(t)
        a = self.load(a) if isinstance(a, Cell) else a
        if isinstance(a, Obj):
            return a.cls == b or b.endswith("::" + a.cls) or a.cls in b
        if isinstance(a, bool):
            return b == "bool"
        if isinstance(a, (bytes, Span)):
            return "string" in b or "char" in b
        return not ("string" in b or "<" in b or "parse::" in b)

    def call_closure(self, c, args, key=None):
        node = c.node
        if "variants" in node:
            node = self.variant(node, args, key)
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Undecided("recursion too deep")
        sav = (self.env, self.this, self.tu, self.st.loc, self.temps)
        try:
            self.temps = []
            self.env = dict(c.env)
            self.this = c.this
            self.tu = c.tu
            for p, a in zip(node["params"], args):
                if p.get("ref"):
                    self.env[p["id"]] = a if isinstance(a, Cell) else Cell(a, p["name"])
                else:
                    self.env[p["id"]] = Cell(self.load(a) if isinstance(a, Cell) else a, p["name"])
            r = self.stmt(node["body"])
            return r[1] if r is not None and r[0] == "ret" else None
        finally:
            self.depth -= 1
            self.env, self.this, self.tu, self.st.loc, self.temps = sav

    def apply(self, fn, args, key=None):
        """call a function object"""
        fn = self.load(fn)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, key)
        if isinstance(fn, FnRef):
            n = fn.node
            f = self.prog.functions.get(n.get("key"))
            if f and n.get("repo"):
                return self.call(f, None, [a if p.get("ref") else self.load(a) for p, a in zip(f["params"], args)])
            return self.lib.free(n.get("qn") or n.get("fn"), args, n)
        if isinstance(fn, Obj):
            if fn.cls.startswith("std::"):
                r = self.lib.algo.functor(fn.cls, args)
                if r is not NotImplemented:
                    return r
            fs = self.prog.method(fn.cls, "operator()")
            if fs:
                return self.call(fs[0], Cell(fn), args)
        if isinstance(fn, Ptr) and fn.cell is not None:
            return self.apply(fn.cell, args)
        if isinstance(fn, Ptr):
            raise Throw("std::bad_function_call", "empty function", self.st.loc)
        raise Undecided("call of an unmodelled function object")

    # ------------------------------------------------------------------ globals
    def global_cell(self, e):
        qn = e["qn"]
        c = self.globals.get(qn)
        if c is not None:
            return c
        if qn not in self.prog.globals:
            v = self.lib.global_value(e)
            c = Cell(v, qn)
            self.globals[qn] = c
            return c
        if qn not in self.sh.gcache:
            self.sh.gcache[qn] = None
            sub = Interp(self.sh, State())
            sub.st.quiet = 1
            g, tu = self.prog.globals[qn]
            sub.tu = tu
            try:
                if g.get("init") is not None:
                    v = sub.rv(g["init"])
                else:
                    v = sub.default(g["t"], zero=True)
                if sub.st.pos:
                    v = Unknown("global %s is not constant" % qn)
            except (Undecided, Throw, Infeasible) as x:
                v = Unknown("initialiser of %s: %s" % (qn, x))
            self.sh.gcache[qn] = v
        v = self.sh.gcache[qn]
        if v is None:
            v = Unknown("cyclic initialisation of " + qn)
        c = Cell(self.clone(v, qn), qn, qn)
        self.globals[qn] = c
        return c

    def clone(self, v, g):
        if isinstance(v, Obj):
            o = Obj(v.cls, {k: self._gcell(c, g) for k, c in v.f.items()})
            o.g = g
            return o
        if isinstance(v, Vec):
            n = Vec(v.kind, v.et, [self._gcell(c, g) for c in v.e])
            n.g = g
            return n
        if isinstance(v, Map):
            m = Map(v.kind, v.kt, v.vt)
            m.e = {k: self._gcell(c, g) for k, c in v.e.items()}
            m.g = g
            m.name = g
            return m
        return v

    def _gcell(self, c, g):
        return Cell(self.clone(c.v, g), g, g)

    def const_global(self, qn):
        """value of a global as initialised"""
        return self.global_cell({"qn": qn, "name": qn, "t": ""}).v

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None:
            return None
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Undecided("too many steps")
        return getattr(self, "s_" + s["k"])(s)

    def full(self, fn):
        """evaluate a full expression: its temporaries die afterwards"""
        sav = self.temps
        self.temps = []
        try:
            return fn()
        finally:
            for c in self.temps:
                c.dead = True
            self.temps = sav

    def dtors(self):
        """classes whose destructor the program defines"""
        d = self.sh.vcache.get("dtors")
        if d is None:
            d = {}
            for fs in self.prog.by_qn.values():
                for f in fs:
                    if f["name"].startswith("~") and f.get("body") and f["body"].get("b"):
                        d[f["cls"]] = f
            self.sh.vcache["dtors"] = d
        return d

    def s_block(self, s):
        if not self.dtors():
            for x in s["b"]:
                r = self.stmt(x)
                if r is not None:
                    return r
            return None
        own = []

        def leave():
            for c in reversed(own):
                v = c.v
                f = self.dtors().get(v.cls) if isinstance(v, Obj) else None
                if f is not None and not c.dead:
                    self.call(f, c, [])
        try:
            for x in s["b"]:
                r = self.stmt(x)
                if x["k"] == "decl":
                    own += [self.env[v["id"]] for v in x["v"] if not v.get("ref") and not v.get("static") and v["id"] in self.env]
                if r is not None:
                    if r[0] == "ret" and isinstance(r[1], Cell) and not self.stack[-1]["ret"].rstrip().endswith("&"):
                        r = ("ret", self.copy(self.load(r[1])))
                    leave()
                    return r
        except Throw:
            leave()
            raise
        leave()
        return None

    def s_null(self, s):
        return None

    def s_label(self, s):
        return self.stmt(s["b"])

    def s_unknown(self, s):
        self.st.loc = s.get("loc", self.st.loc)
        raise Undecided("statement " + str(s.get("what")))

    def s_expr(self, s):
        self.st.loc = s.get("loc", self.st.loc)
        self.full(lambda: self.ev(s["e"]))
        return None

    def s_decl(self, s):
        for v in s["v"]:
            self.declare(v)
        return None

    def declare(self, v):
        self.st.loc = v.get("loc", self.st.loc)
        if v.get("static"):
            k = (self.tu, v["id"])
            if k not in self.statics:
                c = Cell(None, v["name"])
                self.statics[k] = c
                p0 = self.st.pos
                c.v = self.rv(v["init"]) if v.get("init") is not None else self.default(v["t"], zero=True)
                if self.st.pos != p0 or depends(c.v):
                    self.st.event("gwrite", "static local %s keeps a value of the first call" % v["name"])
                if not v.get("const"):
                    g = "static local " + v["name"]
                    c.v = self.clone(c.v, g)
                    c.g = g
            self.env[v["id"]] = self.statics[k]
            return
        if v.get("ref"):
            def bind():
                e = v["init"]
                x = self.ev(e)
                if not isinstance(x, Cell):
                    x = Cell(x, v["name"])
                elif e and e.get("k") == "mat" and x in self.temps:
                    self.temps.remove(x)      # lifetime extended
                return x
            c = self.full(bind)
        else:
            if v.get("init") is not None:
                c = Cell(UNINIT, v["name"])
                self.env[v["id"]] = c        # a lambda in the initialiser may capture the variable
                c.v = self.full(lambda: self.rv(v["init"]))
            else:
                c = Cell(self.default(v["t"]), v["name"])
        c.t = v["t"]
        self.env[v["id"]] = c
        if v.get("bindings"):
            self.bind_all(v["bindings"], c)

    def bind_all(self, bs, c):
        o = self.load(c)
        for i, b in enumerate(bs):
            if isinstance(o, Obj):
                f = list(o.f.values())[i]
            elif isinstance(o, Vec):
                f = o.e[i]
            else:
                raise Undecided("structured binding")
            self.env[b["id"]] = f
            if b.get("hv"):
                self.env[b["hv"]["id"]] = f

    def cond(self, e):
        self.st.loc = e.get("loc", self.st.loc)
        loc = self.st.loc
        r = self.full(lambda: self.truth(self.rv(e)))
        self.sh.branches.add((loc, r))
        return r

    def s_if(self, s):
        self.st.loc = s.get("loc", self.st.loc)
        self.stmt(s.get("init"))
        if s.get("var"):
            self.declare(s["var"])
        if self.cond(s["c"]):
            return self.stmt(s["th"])
        return self.stmt(s.get("el"))

    def loop_limit(self):
        return self.st.opts.get("loops", 400)

    def s_while(self, s):
        if not s.get("var") and self.sweep_loop(s["c"], None, s["b"]):
            return None
        n = 0
        while True:
            if s.get("var"):
                self.declare(s["var"])
            if not self.cond(s["c"]):
                return None
            n += 1
            if n > self.loop_limit():
                raise Undecided("loop bound")
            r = self.stmt(s["b"])
            if r is not None:
                if r is BRK:
                    return None
                if r is not CONT:
                    return r

    def s_do(self, s):
        n = 0
        while True:
            n += 1
            if n > self.loop_limit():
                raise Undecided("loop bound")
            r = self.stmt(s["b"])
            if r is not None:
                if r is BRK:
                    return None
                if r is not CONT:
                    return r
            if not self.cond(s["c"]):
                return None

    def s_for(self, s):
        self.stmt(s.get("init"))
        if self.sweep_loop(s.get("c"), s.get("inc"), s["b"]):
            return None
        n = 0
        while True:
            if s.get("c") is not None and not self.cond(s["c"]):
                return None
            n += 1
            if n > self.loop_limit():
                raise Undecided("loop bound")
            r = self.stmt(s["b"])
            if r is not None:
                if r is BRK:
                    return None
                if r is not CONT:
                    return r
            if s.get("inc") is not None:
                self.full(lambda: self.ev(s["inc"]))

    def s_range(self, s):
        self.stmt(s.get("init"))
        self.st.loc = s.get("loc", self.st.loc)
        rc = self.ev(s["rng"])
        rng = self.load(rc)
        var = s["var"]
        if isinstance(rng, (bytes, Span, Cat, OpStr)):
            return self.range_string(s, rc, rng)
        cells = self.lib.elements(rng)
        for c in cells:
            if var.get("ref"):
                x = c
            else:
                x = Cell(self.copy(self.load(c)), var["name"])
            x.t = var["t"]
            self.env[var["id"]] = x
            if s.get("bindings"):
                self.bind_all(s["bindings"], x)
            r = self.stmt(s["b"])
            if r is not None:
                if r is BRK:
                    break
                if r is not CONT:
                    return r
        return None

    def range_string(self, s, rc, rng):
        var = s["var"]
        if isinstance(rng, bytes):
            out = bytearray()
            for i, b in enumerate(rng):
                x = Cell(schar(b), var["name"])
                self.env[var["id"]] = x
                r = self.stmt(s["b"])
                out.append(self.load(x) & 255)
                if r is not None:
                    if r is BRK:
                        out += rng[i + 1:]
                        break
                    if r is not CONT:
                        return r
            if var.get("ref") and not var.get("const") and bytes(out) != rng:
                self.store(rc, bytes(out))
            return None
        if not isinstance(rng, Span):
            raise Undecided("loop over the characters of a text")

        def body(b, x):
            x.name = var["name"]
            self.env[var["id"]] = x
            return self.stmt(s["b"])
        self.sweep(rng, rc if isinstance(rc, Cell) and var.get("ref") and not var.get("const") else None, body)
        return None

    def sweep(self, span, target, body):
        """a loop that visits every character of a text once: summarised by its effect on each of the 256 characters
        (a rewritten character and characters appended to other texts)"""
        if self.swept is not None:
            raise Undecided("loop over the characters of a text")
        before = {id(c): (c, c.ver) for c in self.env.values() if isinstance(c, Cell)}
        tabs, apps = {}, {}
        env = dict(self.env)
        p = self.st.pos
        try:
            for b in range(256):
                self.swept = {"span": span, "b": b, "cells": {}, "app": {}}
                x = Cell(schar(b), "character")
                if target is not None:
                    self.swept["cells"][id(target)] = (target, x)
                r = body(b, x)
                if (r is not None and r is not CONT) or self.st.pos != p:
                    raise Undecided("loop over the characters of a text")
                for i, (c, y) in self.swept["cells"].items():
                    v = int(y.v) if isinstance(y.v, bool) else y.v
                    if not isinstance(v, int):
                        raise Undecided("loop over the characters of a text")
                    tabs.setdefault(i, (c, {}))[1][b] = v & 255
                for i, (c, vs) in self.swept["app"].items():
                    if len(vs) != 1 or len(apps.setdefault(i, (c, []))[1]) != b:
                        raise Undecided("loop over the characters of a text")
                    apps[i][1].append(vs[0])
                for c, v in before.values():
                    if c.ver != v:
                        raise Undecided("loop over the characters of a text")
        finally:
            self.swept = None
            self.env = env
        for c, t in tabs.values():
            f = fold_of([t.get(b, b) for b in range(256)])
            if f != "id":
                self.store(c, self.lib.folded(span, f))
            elif len(t) == 256 and self.lib.text(c).f != span.f:
                self.store(c, span)
        for c, t in apps.values():
            if len(t) != 256:
                raise Undecided("loop over the characters of a text")
            f = fold_of(t)
            self.store(c, self.lib.cat(self.lib.text(c), span if f == "id" else self.lib.folded(span, f)))

    def sweep_loop(self, cond, inc, loop):
        """a loop that takes an index or an iterator through all characters of a text (for, or while with the step in
        the body); -> True when the loop was summarised"""
        def strip(e):
            while isinstance(e, dict) and e.get("k") in ("cast", "mat", "paren") and isinstance(e.get("e"), dict):
                e = e["e"]
            return e
        c = strip(cond)
        if not c or self.swept is not None or c.get("k") not in ("bin", "op") or c.get("op") not in ("<", "!="):
            return False
        l, r = (strip(c["l"]), strip(c["r"])) if c["k"] == "bin" else (strip(c["a"][0]), strip(c["a"][1])) if len(c.get("a", ())) == 2 else (None, None)
        if not l or l.get("k") != "ref":
            return False
        cell = self.env.get(l.get("id"))
        if not isinstance(cell, Cell) or cell.own is not None or cell.g:
            return False
        v = cell.v
        if r.get("k") == "mcall" and last_name(r.get("fn")) in ("size", "length", "end", "cend") and not r.get("a") and "basic_string" in str(r.get("cls")):
            pass
        elif r.get("k") == "ref":
            pass
        else:
            return False
        if isinstance(v, bool) or not (isinstance(v, int) and v == 0 or isinstance(v, It) and isinstance(v.c, Cell) and isinstance(v.k, int) and v.k == 0):
            return False
        lim = self.rv(r)
        src = None
        if isinstance(v, It):
            if not isinstance(lim, It) or lim.c is not v.c or not isinstance(self.load(v.c), Span) or lim.k != self.lib.length(self.load(v.c)):
                return False
            src = self.load(v.c)
        else:
            if not isinstance(lim, Lin):
                return False
            if r.get("k") == "mcall":
                o = self.ev(r["obj"])
                o = self.load(o) if isinstance(o, Cell) else o
                if isinstance(o, Ptr):
                    return False
                src = o
            else:
                for x in self.env.values():
                    if isinstance(x, Cell) and isinstance(x.v, Span) and self.lib.length(x.v) == lim:
                        src = x.v
                        break
            if not isinstance(src, Span) or self.lib.length(src) != lim:
                return False
        k = atom("sweep")
        saved, ver = cell.v, cell.ver
        at = (lambda n: It(v.c, n)) if isinstance(v, It) else (lambda n: n)

        def body(b, x):
            cell.v = at(k)
            r = self.stmt(loop)
            if r is not None and r is not CONT:
                return r
            if inc is not None:
                self.ev(inc)
            n = cell.v
            if isinstance(n, It) != isinstance(v, It) or (isinstance(n, It) and (n.c is not v.c or n.k != add(k, 1))) or (not isinstance(n, It) and n != add(k, 1)):
                raise Undecided("loop over the characters of a text")
            cell.v, cell.ver = saved, ver
            return None
        try:
            self.sweep(src, None, body)
        finally:
            cell.v, cell.ver = saved, ver
        cell.v = at(self.lib.length(src))
        cell.ver += 1
        return True

    def s_ret(self, s):
        self.st.loc = s.get("loc", self.st.loc)
        if s.get("e") is None:
            return ("ret", None)
        return ("ret", self.ev(s["e"]))

    def s_break(self, s):
        return BRK

    def s_cont(self, s):
        return CONT

    def s_switch(self, s):
        self.stmt(s.get("init"))
        v = self.rv(s["c"])
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        flat = []

        def flatten(x):
            labels = []
            while x["k"] in ("case", "default"):
                labels.append(("case", x["c"]) if x["k"] == "case" else ("default", None))
                x = x["b"]
            flat.append((labels, x))
        for x in body:
            flatten(x)
        start = None
        dflt = None
        for i, (ls, x) in enumerate(flat):
            for k, e in ls:
                if k == "default":
                    dflt = i
                elif start is None and self.truth(self.binop("==", v, self.rv(e), "int", "int")):
                    start = i
            if start is not None:
                break
        if start is None:
            for i, (ls, x) in enumerate(flat):
                if any(k == "default" for k, _ in ls):
                    dflt = i
            start = dflt
        if start is None:
            return None
        for ls, x in flat[start:]:
            r = self.stmt(x)
            if r is not None:
                return None if r is BRK else r
        return None

    def s_try(self, s):
        sav = (self.env, self.this, self.tu, self.depth, self.temps, len(self.stack))
        self.trydepth = getattr(self, "trydepth", 0)
        try:
            return self.stmt(s["b"])
        except Throw as t:
            for h in s["h"]:
                ht = base_type(h["t"]) if h.get("t") else None
                if ht is None or exc_is(t.ty, ht):
                    self.env, self.this, self.tu, self.depth, self.temps = sav[:5]
                    del self.stack[sav[5]:]
                    if h.get("var"):
                        self.env[h["var"]["id"]] = Cell(OpStr("exception", t.ty), h["var"]["name"])
                    self.st.note_branch("%s caught (%s)" % (t.ty, t.why))
                    self.caught = t
                    return self.stmt(h["b"])
            raise

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        """value or Cell (glvalue)"""
        self.steps += 1
        if self.steps > STEP_LIMIT:
            raise Undecided("too many steps")
        return getattr(self, "e_" + e["k"])(e)

    def rv(self, e):
        x = self.ev(e)
        if isinstance(x, Cell):
            if x.v is UNINIT or x.dead or x.own is not None:
                self.st.loc = e.get("loc", self.st.loc)
            return self.load(x)
        return x

    def e_unknown(self, e):
        raise Undecided("expression " + str(e.get("what")))

    def e_int(self, e):
        return int(e["v"])

    def e_char(self, e):
        return schar(e["v"])

    def e_float(self, e):
        return fr(Fraction(e["v"]))

    def e_bool(self, e):
        return e["v"]

    def e_str(self, e):
        return e["v"].encode("latin-1")

    def e_null(self, e):
        return Ptr(None)

    def e_zero(self, e):
        return self.default(e["t"], zero=True)

    def e_this(self, e):
        return Ptr(self.this)

    def e_ref(self, e):
        dk = e["dk"]
        if dk == "enum":
            return e["v"]
        if dk == "fn":
            return FnRef(e)
        if "cv" in e:
            return int(e["cv"]) if e["name"] != "npos" else NPOS
        c = self.env.get(e["id"])
        if c is not None:
            return c
        if e.get("sl"):
            c = self.statics.get((self.tu, e["id"]))
            if c is not None:
                return c
        if e.get("global"):
            return self.global_cell(e)
        raise Undecided("unbound name " + e["name"])

    def e_mem(self, e):
        x = self.ev(e["e"])
        v = self.load(x)
        if e.get("arrow"):
            v = self.load(self.deref(v))
        return self.field(v, e["f"])

    def field(self, v, name):
        if isinstance(v, Obj):
            c = v.f.get(name)
            if c is None and v.cls == "tm":
                raise Undecided("member " + name)
            if c is None:
                raise Undecided("member " + name)
            return c
        if isinstance(v, SubM):
            if name == "matched":
                return self.lib.sub_matched(v)
            if name in ("first", "second"):
                raise Undecided("match iterators")
        if isinstance(v, It):
            return self.field(self.load(self.deref(v)), name)
        raise Undecided("member %s of %s" % (name, type(v).__name__))

    def deref(self, v):
        if isinstance(v, Ptr):
            if v.cell is None:
                raise Undecided("null pointer")
            return v.cell
        if isinstance(v, It):
            return self.lib.it_deref(v)
        if isinstance(v, Obj) and v.cls == "arrowproxy":
            return v.f["v"]
        raise Undecided("dereference")

    def e_mat(self, e):
        v = self.rv(e["e"])
        c = Cell(v, "temporary")
        self.temps.append(c)
        return c

    def e_lambda(self, e):
        env = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = self.this
            elif "init" in c:
                env[c["id"]] = Cell(self.rv(c["init"]), c["name"])
            elif c.get("byref"):
                x = self.env.get(c["id"])
                if x is not None:
                    env[c["id"]] = x
            else:
                x = self.env.get(c["id"])
                if x is not None:
                    env[c["id"]] = Cell(self.copy(self.load(x)), c["name"])
        return Closure(e, env, this or self.this, self.tu)

    def e_throw(self, e):
        if e.get("e") is None:
            raise getattr(self, "caught", None) or Undecided("rethrow")
        t = base_type(e["e"]["t"])
        raise Throw(t, "thrown explicitly", e.get("loc", ""))

    def e_new(self, e):
        return Ptr(Cell(self.rv(e["e"]) if e.get("e") else self.default(e["at"])))

    def e_delete(self, e):
        self.ev(e["e"])
        return None

    def e_cond(self, e):
        if self.truth(self.rv(e["c"])):
            return self.ev(e["th"])
        return self.ev(e["el"])

    def e_sub(self, e):
        b = self.rv(e["e"])
        i = self.rv(e["i"])
        if isinstance(b, Vec):
            return self.lib.vec_at(b, i, "[]")
        if isinstance(b, Ptr) and i == 0:
            return b.cell
        if isinstance(b, Vec) is False and isinstance(b, It):
            return self.lib.it_deref(It(b.c, add(b.k, i)))
        if isinstance(b, (bytes, Span)):
            return self.lib.str_index(Cell(b), i)
        raise Undecided("subscript")

    def e_assign(self, e):
        r = self.rv(e["r"])
        l = self.ev(e["l"])
        self.store(l, r)
        return l

    def e_cassign(self, e):
        r = self.rv(e["r"])
        l = self.ev(e["l"])
        op = e["op"][:-1]
        ct = base_type(e.get("ct", e["t"]))
        v = self.binop(op, self.load(l), r, ct, ct)
        self.store(l, self.convert(v, ct, base_type(e["l"]["t"])))
        return l

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            return self.truth(self.rv(e["l"])) and self.truth(self.rv(e["r"]))
        if op == "||":
            return self.truth(self.rv(e["l"])) or self.truth(self.rv(e["r"]))
        if op == ",":
            self.ev(e["l"])
            return self.ev(e["r"])
        a, b = self.rv(e["l"]), self.rv(e["r"])
        self.st.loc = e.get("loc", self.st.loc)
        return self.binop(op, a, b, base_type(e["l"]["t"]), base_type(e["t"]))

    def num(self, v):
        """numeric value of v"""
        if isinstance(v, bool):
            return int(v)
        if is_num(v):
            return v
        if isinstance(v, (FindR, Chr, CmpR)):
            return self.lib.to_num(v)
        if v is UNINIT:
            self.st.event("uninit", "?")
            raise Undecided("uninitialised value read")
        if isinstance(v, Unknown):
            raise Undecided(v.why)
        if isinstance(v, SubM):
            raise Undecided("sub_match as number")
        raise Undecided("number expected, got " + type(v).__name__)

    def binop(self, op, a, b, lt, rt):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b, lt)
        if isinstance(a, It) or isinstance(b, It):
            if op == "-" and isinstance(a, It) and isinstance(b, It):
                if a.c is not b.c or a.rev != b.rev:
                    raise Undecided("distance of iterators of different containers")
                return self.lib.it_distance(b, a)
            if op == "+" or op == "-" and isinstance(a, It):
                i, k = (a, b) if isinstance(a, It) else (b, a)
                return self.lib.algo.step(i, k if op == "+" else sub(0, self.num(k)))
        a, b = self.num(a), self.num(b)
        if op == "+":
            r = add(a, b)
        elif op == "-":
            r = sub(a, b)
        elif op == "*":
            if not isinstance(b, Lin):
                r = scale(a, b)
            elif not isinstance(a, Lin):
                r = scale(b, a)
            else:
                r = atom("mul", *sorted((a, b), key=repr))
        elif op == "/":
            r = self.div(a, b, rt)
        elif op == "%":
            r = self.mod(a, b)
        elif op in ("&", "|", "^", "<<", ">>") and isinstance(a, int) and isinstance(b, int):
            r = {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b if 0 <= b < 64 else 0, ">>": a >> b if 0 <= b < 64 else 0}[op]
        else:
            raise Undecided("operator " + op)
        if isinstance(r, int) and rt in INTS:
            r = wrap(r, rt)
        return r

    def div(self, a, b, t):
        if isinstance(b, Lin):
            raise Undecided("division by a variable")
        if b == 0:
            raise Undecided("division by zero")
        if t in FLOATS:
            return scale(a, Fraction(1) / Fraction(b))
        if not isinstance(a, Lin):
            q = abs(a) // abs(b)
            return int(q if (a >= 0) == (b > 0) else -q)
        if a.c % b == 0 and all(v % b == 0 for v in a.t.values()):
            return scale(a, Fraction(1, b))
        return atom("div", a, b)

    def mod(self, a, b):
        if isinstance(b, Lin):
            raise Undecided("remainder by a variable")
        if b == 0:
            raise Undecided("division by zero")
        if not isinstance(a, Lin):
            m = abs(a) % abs(b)
            return int(m if a >= 0 else -m)
        if a.c % b == 0 and all(v % b == 0 for v in a.t.values()):
            return 0
        lo, hi = self.st.range_of(a)
        if lo is not None and hi is not None and 0 <= lo and hi < b:
            return a
        return atom("mod", a, b)

    def compare(self, op, a, b, lt=""):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            raise Undecided((a if isinstance(a, Unknown) else b).why)
        if a is UNINIT or b is UNINIT:
            self.st.event("uninit", "?")
            raise Undecided("uninitialised value read")
        r = self.lib.compare(op, a, b)
        if r is not None:
            return r
        a, b = self.num(a), self.num(b)
        if lt in INTS and not INTS[lt][1]:
            a, b = self.to_int(a, lt), self.to_int(b, lt)
        return self.st.cmp(op, a, b)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int) or isinstance(v, Fraction):
            return v != 0
        if isinstance(v, Lin):
            return self.st.cmp("!=", v, 0)
        if isinstance(v, Ptr):
            return v.cell is not None
        if isinstance(v, (CmpR, FindR, Chr)):
            return self.compare("!=", v, 0)
        if v is UNINIT:
            self.st.event("uninit", "?")
            raise Undecided("uninitialised value read")
        if isinstance(v, Unknown):
            raise Undecided(v.why)
        if isinstance(v, Stream):
            return not v.bad
        if isinstance(v, Obj) and v.cls == "optional":
            return self.load(v.f["has"])
        raise Undecided("truth of " + type(v).__name__)

    def e_un(self, e):
        op = e["op"]
        if op == "!":
            return not self.truth(self.rv(e["e"]))
        if op == "*":
            return self.deref(self.rv(e["e"]))
        if op == "&":
            x = self.ev(e["e"])
            return Ptr(x if isinstance(x, Cell) else Cell(x))
        if op == "-":
            return neg(self.num(self.rv(e["e"])))
        if op == "+":
            return self.num(self.rv(e["e"]))
        if op == "~":
            v = self.num(self.rv(e["e"]))
            if isinstance(v, int):
                return wrap(~v, base_type(e["t"]))
            raise Undecided("~")
        if op in ("++", "--"):
            c = self.ev(e["e"])
            old = self.load(c)
            if isinstance(old, It):
                new = self.lib.it_step(old, 1 if op == "++" else -1)
            else:
                new = add(self.num(old), 1 if op == "++" else -1)
                t = base_type(e["t"])
                if isinstance(new, int) and t in INTS:
                    new = wrap(new, t)
            self.store(c, new)
            return old if e.get("post") else c
        if op == "__extension__":
            return self.ev(e["e"])
        raise Undecided("operator " + op)

    def to_float(self, v):
        """conversion to single precision: exact up to 2^24"""
        top = 1 << 24
        if isinstance(v, int):
            return v if abs(v) <= top else single(v)
        if not isinstance(v, Lin) or any(isinstance(x, Fraction) for x in list(v.t.values()) + [v.c]):
            return v
        l, h = self.st.range_of(v)
        if (h is None or h > top) and self.st.cmp(">", v, top) or (l is None or l < -top) and self.st.cmp("<", v, -top):
            return atom("f32", v)
        return v

    def to_int(self, v, t):
        """conversion to an integer type"""
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Fraction):
            v = int(v)
        if isinstance(v, int):
            return wrap(v, t)
        bits, signed = INTS[t]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        l, h = self.st.range_of(v)
        if h is None and all(a[0] in ("P", "usize") for a in v.t):
            h = 1 << 30          # texts are far shorter than this
        if l is not None and l >= lo and h is not None and h <= hi:
            return v
        if bits == 64 and not signed and l is not None and l >= 0:
            return v
        if bits >= 32 and signed:
            return v          # sizes and counters stay far below these limits
        if not signed and (l is None or l < 0) and self.st.cmp("<", v, 0):
            return add(v, 1 << bits)
        if bits == 64:
            return v
        if h is not None and h <= hi:
            return v
        if self.st.cmp(">", v, hi):
            w = sub(v, 1 << bits)
            l2, h2 = self.st.range_of(w)
            if h2 is not None and h2 <= hi:
                return w
            w = atom("mod", v, 1 << bits)
            return sub(w, 1 << bits) if signed and self.st.cmp(">", w, hi) else w
        if signed and self.st.cmp("<", v, lo):
            w = atom("mod", v, 1 << bits)
            return add(w, 1 << bits) if self.st.cmp("<", w, lo) else w
        return v

    def convert(self, v, frm, to):
        if to in INTS:
            if isinstance(v, (bool, int, Fraction, Lin)):
                if isinstance(v, Lin) and frm in FLOATS and any(isinstance(x, Fraction) for x in list(v.t.values()) + [v.c]):
                    return atom("trunc", v)
                return self.to_int(v, to)
            if isinstance(v, (FindR, CmpR, Chr)):
                return v
        if to == "bool":
            return self.truth(v)
        return v

    def e_cast(self, e):
        v = self.rv(e["e"])
        ck = e["ck"]
        self.st.loc = e.get("loc", self.st.loc)
        t = base_type(e["t"])
        if ck == "ToVoid":
            return None
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.truth(v)
        if ck in ("IntegralCast", "FloatingToIntegral", "BooleanToSignedIntegral"):
            if t in INTS:
                return self.convert(v, base_type(e["e"]["t"]), t)
            return int(v) if isinstance(v, bool) else v
        if ck in ("IntegralToFloating", "FloatingCast"):
            v = int(v) if isinstance(v, bool) else v
            return self.to_float(v) if t == "float" else v
        return v

    def e_ilist(self, e):
        t = base_type(e["t"])
        if len(e["a"]) == 1 and base_type(e["a"][0].get("t", "")) == t:
            return self.rv(e["a"][0])
        if e.get("fields") and t.startswith("std::array<"):
            x = self.rv(e["a"][0]) if e["a"] else None
            v = self.lib.default(t, True)
            if isinstance(x, Vec):
                for c, d in zip(v.e, x.e):
                    c.v = d.v
            return v
        if e.get("fields") and not t.startswith("std::") and not t.startswith("boost::"):
            o = Obj(t)
            for n, a in zip(e["fields"], e["a"]):
                o.f[n] = Cell(self.rv(a), n)
            for n in e["fields"][len(e["a"]):]:
                o.f[n] = Cell(0, n)
            if t in self.prog.records:
                self.fill_fields(o, t)
            return o
        if t.endswith("]") or t.startswith("std::initializer_list"):
            v = Vec("array", "", [Cell(self.rv(a)) for a in e["a"]])
            n = e.get("n")
            if n and t.endswith("]"):
                while len(v.e) < n:
                    v.e.append(Cell(self.rv(e["filler"]) if e.get("filler") else self.default(t[:t.rfind("[")].strip(), zero=True)))
            return v
        if len(e["a"]) == 1:
            return self.rv(e["a"][0])
        if not e["a"]:
            return self.default(t, zero=True)
        raise Undecided("initialiser list of type " + t)

    # ------------------------------------------------------------------ calls
    def e_ctor(self, e):
        cls = e["cls"]
        f = self.prog.functions.get(e["key"]) if e.get("repo") else None
        if f is not None and not (f.get("defaulted") and (e.get("copy") or e.get("move"))):
            args = self.args(f, e["a"])
            self.st.loc = e.get("loc", self.st.loc)
            o = Obj(cls)
            return self.run_ctor(f, o, args)
        if (e.get("copy") or e.get("move")) and e["a"]:
            x = self.ev(e["a"][0])
            v = self.copy(self.load(x))
            if e.get("move"):
                self.moved(x, e["a"][0].get("t", ""))
            return v
        if cls in self.prog.records:
            if e.get("def"):
                return self.construct_default(cls)
            f = self.inherited_ctor(cls, e)
            if f is not None:
                args = self.args(f, e["a"])
                self.st.loc = e.get("loc", self.st.loc)
                o = self.run_ctor(f, Obj(cls), args)
                self.fill_fields(o, cls)
                return o
            raise Undecided("constructor of " + cls)
        args = [self.ev(a) for a in e["a"]]
        self.st.loc = e.get("loc", self.st.loc)
        return self.lib.construct(base_type(e["t"]), args, e)

    def inherited_ctor(self, cls, e):
        """constructor of a base class that a using-declaration makes available"""
        for b in self.prog.bases(cls)[1:]:
            for f in self.prog.by_qn.get(b + "::" + b.rsplit("::", 1)[-1], []):
                if len(f["params"]) == len(e["a"]) and [base_type(p["t"]) for p in f["params"]] == \
                        [base_type(a.get("t", "")) for a in e["a"]]:
                    return f
        return None

    def moved(self, c, t=""):
        """what a move leaves behind (libstdc++: texts and containers are empty afterwards, smart pointers null)"""
        if not isinstance(c, Cell) or c.g or c.own is not None:
            return
        v = c.v
        t = base_type(t)
        if isinstance(v, (bytes, Span, Cat)) and (not t or t.startswith("std::basic_string<")):
            self.store(c, b"")
        elif isinstance(v, Vec) and not t.startswith("std::array") and v.kind != "array":
            self.store(c, Vec(v.kind, v.et))
        elif isinstance(v, Map):
            self.store(c, Map(v.kind, v.kt, v.vt))
        elif isinstance(v, Ptr) and (t.startswith("std::unique_ptr<") or t.startswith("std::shared_ptr<")):
            self.store(c, Ptr(None))
        elif isinstance(v, Obj) and v.cls in self.prog.records:
            ts = {f["name"]: f["t"] for b in self.prog.bases(v.cls) for f in self.prog.records.get(b, {}).get("fields", [])}
            for n, x in v.f.items():
                if base_type(ts.get(n, "")).startswith("std::"):
                    self.moved(x, ts[n])
        elif isinstance(v, Obj) and v.cls in ("pair", "tuple"):
            for x, a in zip(v.f.values(), targs(t) or []):
                if base_type(a).startswith("std::"):
                    self.moved(x, a)

    def e_call(self, e):
        if "callee" in e:
            fn = self.rv(e["callee"])
            return self.apply(fn, [self.ev(a) for a in e["a"]])
        f = self.prog.functions.get(e["key"]) if e.get("repo") else None
        if f is not None:
            args = self.args(f, e["a"])
            self.st.loc = e.get("loc", self.st.loc)
            self.sh.calls.add((e.get("loc"), f["qn"]))
            return self.call(f, None, args)
        args = [self.ev(a) for a in e["a"]]
        self.st.loc = e.get("loc", self.st.loc)
        self.sh.calls.add((e.get("loc"), e["fn"]))
        return self.lib.free(e["fn"], args, e)

    def find_virtual(self, cls, key):
        k = (cls, key)
        if k not in self.sh.vcache:
            self.sh.vcache[k] = self.prog.override_of(cls, key)
        return self.sh.vcache[k]

    def e_mcall(self, e):
        oc = self.ev(e["obj"]) if e.get("obj") else None
        obj = self.load(oc)
        if e.get("arrow"):
            if isinstance(obj, (Ptr, It)):
                oc = self.deref(obj)
                obj = self.load(oc)
        self.sh.calls.add((e.get("loc"), e["fn"]))
        if isinstance(obj, Obj) and (e.get("repo") or obj.cls in self.prog.records):
            f = self.prog.functions.get(e["key"])
            if e.get("virt") and not e.get("qual"):
                f = self.find_virtual(obj.cls, e["key"]) or f
            if f is None:
                raise Undecided("method " + e["fn"])
            args = self.args(f, e["a"])
            self.st.loc = e.get("loc", self.st.loc)
            if not isinstance(oc, Cell):
                oc = Cell(obj)
            return self.call(f, oc, args)
        args = [self.ev(a) for a in e["a"]]
        self.st.loc = e.get("loc", self.st.loc)
        if isinstance(oc, Cell):
            obj = self.load(oc)          # an argument may have changed the object
        elif isinstance(obj, (bytes, Span, Cat, Vec, Map)):
            oc = Cell(obj, "temporary")
        name = last_name(e["fn"])
        r = self.lib.method(oc, obj, name, args, e)
        if "&&)" in e.get("key", "") and name in ("push_back", "emplace_back", "push_front", "insert", "emplace") and len(args) == 1:
            self.moved(args[0], e["a"][0].get("t", ""))
        return r

    def e_op(self, e):
        op = e["op"]
        self.sh.calls.add((e.get("loc"), e.get("fn")))
        f = self.prog.functions.get(e.get("key")) if e.get("repo") else None
        if f is not None and not f.get("defaulted"):
            if e.get("memop"):
                oc = self.ev(e["a"][0])
                args = self.args(f, e["a"][1:])
                self.st.loc = e.get("loc", self.st.loc)
                return self.call(f, oc if isinstance(oc, Cell) else Cell(oc), args)
            args = self.args(f, e["a"])
            self.st.loc = e.get("loc", self.st.loc)
            return self.call(f, None, args)
        if op == "=" and len(e["a"]) == 2:
            rc = self.ev(e["a"][1])
            r = self.load(rc)
            l = self.ev(e["a"][0])
            self.st.loc = e.get("loc", self.st.loc)
            if e.get("key", "").endswith("&&)") and isinstance(rc, Cell) and rc is not l and not rc.dead:
                r = self.copy(r)
                self.moved(rc, e["a"][1].get("t", ""))
            lv = l.v if isinstance(l, Cell) else None
            lo = lv if isinstance(l, Cell) else l
            if isinstance(lo, Obj) and lo.cls in ("tuple", "pair") and isinstance(r, Obj) and r.cls in ("tuple", "pair"):
                for c, x in list(zip(lo.f.values(), [self.copy(self.load(x)) for x in r.f.values()])):
                    if not (isinstance(c.v, Obj) and c.v.cls == "ignore"):
                        self.store(c, x)
                return l
            if isinstance(lv, Obj) and isinstance(r, Obj) and lv.cls in self.prog.records:
                self.touch(lv)
                for k, c in list(r.f.items()):
                    if k in lv.f:
                        self.store(lv.f[k], c.v if c.v is UNINIT else self.copy(c.v))
                    else:
                        lv.f[k] = self.copy_cell(c)
                return l
            self.store(l, self.lib.assign_value(lv, r))
            return l
        if op == "()":
            fn = self.rv(e["a"][0])
            return self.apply(fn, [self.ev(a) for a in e["a"][1:]], e.get("key"))
        args = [self.ev(a) for a in e["a"]]
        self.st.loc = e.get("loc", self.st.loc)
        return self.lib.operator(op, args, e)


def schar(b):
    b &= 255
    return b - 256 if b >= 128 else b


def wrap(v, t):
    bits, signed = INTS[t]
    v &= (1 << bits) - 1
    if signed and v >= 1 << (bits - 1):
        v -= 1 << bits
    return v


def depends(v, seen=None):
    """does a value depend on the input of the parse?"""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Cell):
        return depends(v.v, seen)
    if isinstance(v, Obj):
        return any(depends(c, seen) for c in v.f.values())
    if isinstance(v, Vec):
        return any(depends(c, seen) for c in v.e)
    if isinstance(v, (Lin, Span, Cat, Chr, OpStr)):
        return True
    if isinstance(v, Map):
        return any(depends(c, seen) for c in v.e.values())
    if isinstance(v, D):
        return v.base == ("ref",) or depends(v.base, seen) or depends(v.ops, seen)
    if isinstance(v, (PT, Dur, DDur, NDow)):
        return bool(getattr(v, "k", 0)) or any(depends(getattr(v, n), seen) for n in v.__slots__)
    if isinstance(v, (tuple, list)):
        return any(depends(x, seen) for x in v)
    return False


def fold_of(table):
    """a byte map -> 'id' / 'lower' / 'upper' / None"""
    if table == list(range(256)):
        return "id"
    if table == [b + 32 if 65 <= b <= 90 else b for b in range(256)]:
        return "lower"
    if table == [b - 32 if 97 <= b <= 122 else b for b in range(256)]:
        return "upper"
    return ("map", tuple(table))
