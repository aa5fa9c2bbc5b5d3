"""Analyses of the result and component objects themselves (properties C01-C04): call histories over the public
interface with symbolic values, compared with a plain table of component -> (stated?, value)."""
from itertools import product
from sa.scn import *
from sa import tn, rx, state, cal, interp
from sa.prog import AnalysisError
from sa.val import *

COMPS_CLS = "parse::ParsedComponents"
RESULT = "parse::ParsedResult"
SETTER = {"year": "setYear", "month": "setMonth", "mday": "set_mDay", "wday": "set_wDay", "hour": "setHour", "min": "setMinute",
          "sec": "setSeconds", "tzoffset": "setTimeZoneOffset"}
NAMES = [n for n, _ in COMPS]


class Api:
    """drives the analysed classes through their public interface"""

    def __init__(self, shared, st, task):
        self.it = interp.Interp(shared, st)
        self.st, self.task, self.sh = st, task, shared
        self.n = 0

    def fresh(self, what):
        self.n += 1
        return atom("sym", "%s#%d" % (what, self.n))

    def new(self, cls):
        o = self.it.default(cls)
        if not isinstance(o, Obj):
            raise AnalysisError("anchor vanished: class " + cls)
        return Cell(o)

    def call(self, c, name, *args):
        r = self.it.call_named(c, c.v.cls, name, list(args))
        return self.it.load(r) if isinstance(r, Cell) else r

    def set(self, c, comp, v):
        self.call(c, SETTER[comp], v)

    def imply(self, c, comp, v):
        self.call(c, "implyComponent", comp.encode() if isinstance(comp, str) else comp, v)

    def value(self, c, comp):
        return self.call(c, GETTER[comp])

    def certain(self, c, comp):
        return self.it.truth(self.call(c, "isCertain", comp.encode()))

    def assign(self, dst, src):
        """dst = src, through the analysed operator= when there is one"""
        cls = dst.v.cls
        fs = [f for f in self.sh.prog.method(cls, "operator=") if len(f["params"]) == 1 and interp.base_type(f["params"][0]["t"]) == cls
              and not f.get("defaulted")]
        for f in fs:
            p = f["params"][0]
            if p["t"].rstrip().endswith("&&"):
                continue
            self.it.call(f, dst, [src if p.get("ref") else self.it.copy(src.v)])
            return
        for k, x in src.v.f.items():
            self.it.store(dst.v.f[k], self.it.copy(x.v)) if x.v is not UNINIT else None

    def apply(self, c, comp, mode):
        """bring a component into a mode; returns the model entry (stated, value)"""
        m = (False, 0)
        for k in mode:
            v = self.fresh(comp)
            if k == "S":
                self.set(c, comp, v)
                m = (True, v)
            else:
                self.imply(c, comp, v)
                if not m[0]:
                    m = (False, v)
        return m

    def agree(self, rule, c, model, what):
        pairs = []
        for n in NAMES:
            self.task.obligations += 2
            if n in model:
                got = self.certain(c, n)
                if got != model[n][0]:
                    raise Fail(rule, "%s: %s is reported as %s" % (what, n, "certain" if got else "not certain"), shown=True)
                v = self.value(c, n)
                if not same(v, model[n][1]):
                    raise Fail(rule, "%s: %s reads %s instead of %s" % (what, n, show(v), show(model[n][1])), shown=True)

    def snapshot(self, c):
        return {n: (self.certain(c, n), self.value(c, n)) for n in NAMES}


def one(shared, name, body, limit=4000, seconds=200):
    task = Task(name, limit, seconds)

    def run(st):
        a = Api(shared, st, task)
        try:
            return body(a)
        except Throw as x:
            raise Fail("no exception escapes", "an exception is thrown: %s" % x, shown=True)
    return explore_task(task, run)


MODES = ["", "I", "S", "II", "IS", "SI", "SS"]
SHORT = ["", "I", "S", "IS", "SI"]


def c01(shared, x):
    """after any history, setting x is visible exactly there"""
    def body(a):
        others = [n for n in NAMES if n != x]
        y = others[a.st.choose(len(others), "other component")]
        mx = MODES[a.st.choose(len(MODES), "history of " + x)]
        my = SHORT[a.st.choose(len(SHORT), "history of " + y)]
        rest = ["", "S", "I"][a.st.choose(3, "history of the others")]
        order = a.st.choose(2, "order")
        c = a.new(COMPS_CLS)
        model = {}
        seq = [(x, mx), (y, my)]
        for n, m in (seq if order == 0 else seq[::-1]) + [(n, rest) for n in NAMES if n not in (x, y)]:
            model[n] = a.apply(c, n, m)
        before = a.snapshot(c)
        v = a.fresh(x)
        what = "after %s(%s) with history %s:%s %s:%s others:%s" % (SETTER[x], "v", x, mx or "-", y, my or "-", rest or "-")
        a.set(c, x, v)
        before[x] = (True, v)
        a.agree("setting one component changes exactly that component", c, before, what)
        # reading must not change anything
        a.agree("reading changes nothing", c, before, what + ", read again")
    return one(shared, "set " + x, body)


def c02(shared, x):
    def body(a):
        others = [n for n in NAMES if n != x]
        y = others[a.st.choose(len(others), "other component")]
        mx = MODES[a.st.choose(len(MODES), "history of " + x)]
        my = SHORT[a.st.choose(len(SHORT), "history of " + y)]
        rest = ["", "S", "I"][a.st.choose(3, "history of the others")]
        order = a.st.choose(2, "order")
        c = a.new(COMPS_CLS)
        seq = [(x, mx), (y, my)]
        for n, m in (seq if order == 0 else seq[::-1]) + [(n, rest) for n in NAMES if n not in (x, y)]:
            a.apply(c, n, m)
        before = a.snapshot(c)
        v = a.fresh(x)
        stated = "S" in mx
        what = "after implying %s with history %s:%s %s:%s others:%s" % (x, x, mx or "-", y, my or "-", rest or "-")
        a.imply(c, x, v)
        if not stated:
            before[x] = (False, v)
        elif not before[x][0]:
            raise Fail("a stated component stays certain", what + ": %s was stated but is not certain" % x, shown=True)
        a.agree("implying fills only an unstated component", c, before, what)
    return one(shared, "imply " + x, body)


def c02_unknown(shared):
    """a name that is none of the eight components changes nothing"""
    lang = tn.anything()

    def body(a):
        mode = ["", "I", "S"][a.st.choose(3, "history")]
        c = a.new(COMPS_CLS)
        for n in NAMES:
            a.apply(c, n, mode)
        before = a.snapshot(c)
        t = a.st.new_text(lang)
        for n in NAMES:
            if a.st.pred(t, tn.d_word(n.encode()), "name is " + n):
                return
        a.imply(c, t, a.fresh("v"))
        a.agree("an unknown component name changes nothing", c, before, "after implying a component of another name")
        a.task.obligations += 1
        if a.it.truth(a.call(c, "isCertain", t)):
            raise Fail("an unknown component is never certain", "isCertain answers yes for a name that is no component", shown=True)
    return one(shared, "unknown component name", body)


# --------------------------------------------------------------------------- C03
MIX = ["S", "I", "", "IS", "SI", "S", "I", ""]


def fill(a, c, rot):
    m = {n: a.apply(c, n, MIX[(i + rot) % len(MIX)]) for i, n in enumerate(NAMES)}
    for i, n in enumerate(NAMES):
        if not MIX[(i + rot) % len(MIX)]:
            m[n] = (a.certain(c, n), a.value(c, n))
    return m


def position(a):
    i = a.fresh("index")
    if a.st.cmp("<", i, 0) or a.st.cmp(">", i, 10 ** 9):
        raise Infeasible()
    return i


def c03_components(shared):
    def body(a):
        rot = a.st.choose(len(MIX), "content")
        how = a.st.choose(5, "kind of copy")
        src = a.new(COMPS_CLS)
        model = fill(a, src, rot)
        what = ["copy construction", "assignment to a fresh object", "assignment to another content", "self assignment", "copy of a copy"][how]
        if how == 0:
            dst = Cell(a.it.copy(src.v))
        elif how == 3:
            a.assign(src, src)
            dst = src
        elif how == 4:
            dst = Cell(a.it.copy(Cell(a.it.copy(src.v)).v))
        else:
            dst = a.new(COMPS_CLS)
            if how == 2:
                fill(a, dst, (rot + 1 + a.st.choose(3, "other content")) % len(MIX))
            a.assign(dst, src)
        a.agree("a copy has every component's value and certainty", dst, model, what)
        if dst is not src:
            for n in NAMES:
                a.set(src, n, a.fresh(n))
            a.agree("a copy does not change with its source", dst, model, what + ", source changed afterwards")
    return one(shared, "copies of components", body)


def tag_values(prog):
    for e in prog.enums.values():
        if e["qn"].lower().endswith("modifiers"):
            return {c["name"]: c["v"] for c in e["c"]}
    raise AnalysisError("anchor vanished: enumeration of tags")


def build(a, tags=(), end=False, rot=0, index=None, text=None, full=None):
    """a result built through its public interface -> (cell, model)"""
    r = a.new(RESULT)
    index = position(a) if index is None else index
    text = OpStr("text", a.n) if text is None else text
    a.call(r, "setIndex", index)
    a.call(r, "setText", text)
    m = {"index": index, "text": text, "tags": set(tags), "end": end}
    for t in tags:
        a.call(r, "setTag", t)
    m["start"] = fill(a, r.v.f["startDate"], rot) if full is None else full(a, r.v.f["startDate"], "s")
    m["enddate"] = None
    if end:
        a.call(r, "makeEndDateValid")
        m["enddate"] = fill(a, r.v.f["endDate"], rot + 3) if full is None else full(a, r.v.f["endDate"], "e")
    return r, m


def agree_result(a, rule, r, m, tags, what):
    def ck(cond, msg):
        a.task.obligations += 1
        if not cond:
            raise Fail(rule, what + ": " + msg, shown=True)
    i = a.call(r, "getIndex")
    ck(same(i, m["index"]), "position is %s instead of %s" % (show(i), show(m["index"])))
    ln, le = a.call(r, "textLength"), a.it.lib.length(m["text"])
    ck(same(ln, le), "text length is %s instead of %s" % (show(ln), show(le)))
    got = a.it.truth(a.call(r, "end"))
    ck(got == m["end"], "the copy is %s range" % ("a" if got else "no"))
    for n, t in sorted(tags.items()):
        g = a.it.truth(a.call(r, "getTag", t))
        ck(g == (t in m["tags"]), "tag %s is %s" % (n, "set" if g else "missing"))
    a.agree(rule, r.v.f["startDate"], m["start"], what + ", start")
    if m["end"]:
        a.agree(rule, r.v.f["endDate"], m["enddate"], what + ", end")


def c03_results(shared):
    tags = tag_values(shared.prog)
    vals = sorted(tags.values())

    def body(a):
        ts = [(), (vals[0],), (vals[-1], vals[2]), tuple(vals)][a.st.choose(4, "tags")]
        end = bool(a.st.choose(2, "range"))
        rot = a.st.choose(3, "content")
        how = a.st.choose(6, "kind of copy")
        src, model = build(a, ts, end, rot)
        what = ["copy construction", "assignment to a fresh object", "assignment to a range", "assignment to a single date", "self assignment",
                "copy of a copy"][how]
        if how == 0:
            dst = Cell(a.it.copy(src.v))
        elif how == 4:
            a.assign(src, src)
            dst = src
        elif how == 5:
            dst = Cell(a.it.copy(Cell(a.it.copy(src.v)).v))
        elif how == 1:
            dst = a.new(RESULT)
            a.assign(dst, src)
        else:
            dst, _ = build(a, (vals[1],), how == 2, rot + 1)
            a.assign(dst, src)
        agree_result(a, "a copy of a result is faithful", dst, model, tags, what)
        if dst is not src:
            a.call(src, "setIndex", position(a))
            for n in NAMES:
                a.set(src.v.f["startDate"], n, a.fresh(n))
                a.set(src.v.f["endDate"], n, a.fresh(n))
            a.call(src, "setTag", vals[3])
            a.call(src, "makeEndDateValid")
            agree_result(a, "a copy does not change with its source", dst, model, tags, what + ", source changed afterwards")
    return one(shared, "copies of results", body)


def c03_list(shared):
    """results survive being collected in a list, which copies them"""
    tags = tag_values(shared.prog)
    vals = sorted(tags.values())

    def body(a):
        end = bool(a.st.choose(2, "range"))
        src, model = build(a, (vals[4],), end, a.st.choose(3, "content"))
        v = Vec("vector", RESULT)
        c = Cell(v)
        a.it.lib.method(c, v, "push_back", [src], {})
        w = Cell(a.it.copy(v))
        agree_result(a, "a collected result is faithful", w.v.e[0], model, tags, "in a copied list")
    return one(shared, "results in lists", body)


# --------------------------------------------------------------------------- C04
def c04(shared):
    tags = tag_values(shared.prog)
    tz = tags.get("ExtractTimeZoneAbbreviation")
    if tz is None:
        raise AnalysisError("anchor vanished: timezone tag")

    def full(a, c, p):
        st = a.st
        m = {}
        how = a.st.choose(2, "stated or implied")
        for n in NAMES:
            v = atom("sym", p + n)
            lo, hi = {"year": (1400, 9999), "month": (1, 12), "mday": (1, 28), "hour": (0, 23), "min": (0, 59), "sec": (0, 59), "wday": (0, 6),
                      "tzoffset": (-1440, 1440)}[n]
            if st.cmp("<", v, lo) or st.cmp(">", v, hi):
                raise Infeasible()
            a.set(c, n, v) if how == 0 else a.imply(c, n, v)
            m[n] = (how == 0, v)
        return m

    def stamp(a, m, off):
        d = cal.make_date(a.st, m["year"][1], m["month"][1], m["mday"][1])
        s = add(add(scale(m["hour"][1], 3600), scale(m["min"][1], 60)), m["sec"][1])
        return OpStr("to_simple_string", cal.mkpt(a.st, d, 0, add(s, scale(off, 60))))

    def body(a):
        end = bool(a.st.choose(2, "range"))
        ts = [(), (tz,), tuple(t for t in sorted(tags.values()) if t != tz)][a.st.choose(3, "tags")]
        r, m = build(a, ts, end, 0, full=full)
        if end and not same(m["start"]["tzoffset"][1], m["enddate"]["tzoffset"][1]):
            # a recognised offset is the same for both ends
            a.set(r.v.f["endDate"], "tzoffset", m["start"]["tzoffset"][1])
        got = a.call(r, "toDate")
        off = m["start"]["tzoffset"][1] if tz in ts else 0
        want = [stamp(a, m["start"], off)]
        if end:
            want.append(stamp(a, m["enddate"], off))
        have = parts(got)
        a.task.obligations += 1 + len(want)
        stamps = [p for p in have if isinstance(p, OpStr)]
        if any(not isinstance(p, (OpStr, bytes)) for p in have) or any(isinstance(p, OpStr) and p.k[0] not in ("to_simple_string", "to_iso_string", "to_iso_extended_string") for p in have):
            raise Undecided("rendering")
        if len(stamps) != len(want):
            raise Fail("an end is shown exactly for a range", "%d moments are shown for a %s" % (len(stamps), "range" if end else "single date"), shown=True)
        for p, w, n in zip(stamps, want, ("start", "end")):
            if p.k[1] != w.k[1]:
                raise Fail("the rendering shows the result's own components", "the %s shown is %s instead of %s" % (n, show(p.k[1]), show(w.k[1])), shown=True)
        again = a.call(r, "toDate")
        a.task.obligations += 1
        if parts(again) != have:
            raise Fail("rendering changes nothing", "a second rendering differs", shown=True)
    return one(shared, "rendering", body)


def parts(s):
    return list(s.parts) if isinstance(s, Cat) else [s]
