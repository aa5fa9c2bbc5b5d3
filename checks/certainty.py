"""C37 / C38: which components an expression fixes, and what the others read, for every phrase family."""
import families as fam
from sa.scn import *

CALF = {"year", "month", "mday"}
CLK = {"hour", "min", "sec"}
TIMEU = {"second", "minute", "hour"}


def casual_word(c):
    g = c.st.split(c.span("w"), [(x.encode(),) for x in ("now", "today", "tonight", "tomorrow", "tmr", "yesterday")], "keyword")
    return g[0].decode() if g else "last night"


def casual_date(c, r):
    w = casual_word(c)
    zero = {"now": set(), "tonight": set(), "yesterday": set()}.get(w, CLK)
    return CALF | (CLK if w == "now" else set()), set(), zero


def casual_time(c, r):
    return set(), set(), set()        # their minute and second are implied from the reference


def weekday(c, r):
    m = c.word("m") if c.has("m") else ""
    return (CALF if m in ("last", "next") else set()), set(), set() if c.has("t") else CLK


def has_half(c):
    return "half" in c.fields and c.has("half")


def nothing(unit):
    def f(c, r):
        return set(), set(), set() if unit in TIMEU or (unit == "day" and has_half(c)) else CLK
    return f


def this(c, r):
    u = c.word("u")
    k = {"week": set(), "month": {"year", "month"}, "year": {"year"}}[u]
    return k, set(), CLK


def week(c, r):
    return set(), set(), CLK


def iso(c, r):
    if not c.has("h"):
        return CALF, set(), CLK
    k = CALF | {"hour", "min", "tzoffset"}
    return (k | {"sec"}, set(), set()) if c.has("s") else (k, set(), {"sec"})


def month_name(c, r):
    return {"month"} | ({"year"} if c.has("y") else set()), set(), CLK


def month_day(c, r):
    return CALF | ({"wday"} if c.has("wd") else set()), set(), CLK


def clock(c, r):
    s = c.has("s")
    return {"hour", "min"} | ({"sec"} if s else set()), set(), set() if s else {"sec"}


def holiday(c, r):
    return CALF, {"wday"}, CLK


def ago(units):
    def f(c, r):
        k, z = set(), CLK
        for i, u in enumerate(units):
            if u in TIMEU or (u == "day" and ("half%d" % i) in c.fields and c.has("half%d" % i)):
                k, z = k | CLK, set()
            else:
                k = k | CALF
        return k, set(), z
    return f


def ends(kind, c, r, k, z):
    """what holds of the end of a range"""
    if kind == "month_day":
        return k | {"hour", "min"}, set()
    if kind == "clock_range":
        s = c.has("s2")
        return {"hour", "min"} | ({"sec"} if s else set()), set() if s else {"sec"}
    if kind == "this":
        return k, CLK
    return k, set()


UNITS = ("second", "minute", "hour", "day", "week", "month", "year")


def groups():
    """(kind, expectation, families)"""
    g = [("casual_date", casual_date, fam.casual_date()), ("casual_time", casual_time, fam.casual_time()), ("weekday", weekday, fam.weekday()),
         ("week", week, fam.week()[:2]), ("iso", iso, fam.iso()), ("month_name", month_name, fam.month_name()), ("month_day", month_day, fam.month_day()),
         ("clock", clock, fam.clock_time()), ("clock_range", clock, fam.clock_range()), ("holiday", holiday, fam.holiday())]
    for u, f in zip(UNITS, fam.deadline()):
        g.append(("deadline", nothing(u), [f]))
    rel = fam.relative()
    for u, f in zip(UNITS, rel):
        g.append(("relative", nothing(u), [f]))
    g.append(("this", this, rel[7:]))
    for w in ("ago", "later"):
        for u, f in zip(UNITS, fam.ago_later(w)):
            g.append(("ago", ago([u]), [f]))
        for a, b in (("day", "hour"), ("minute", "second"), ("year", "month"), ("hour", "week")):
            g.append(("ago", ago([a, b]), fam.ago_later(w, two=True, units=[(a, b)])))
    return g


def fields_of(text):
    return {m[1] for m in text.markers() if m[0] == "$"}


def known(c, comps, names, where, must, may):
    for n in names:
        got = c.certain(comps, n)
        if n in may and n not in must:
            continue
        c.check("exactly what the expression fixes is certain", got == (n in must), "%s %s is reported as %s" % (where, n, "certain" if got else "implied only"))


def families(which):
    out = []
    for kind, exp, fs in groups():
        for name, cls, text, spec, o in fs:
            def sp(c, r, kind=kind, exp=exp, text=text):
                if r is None:
                    return
                c.fields = fields_of(text)
                must, may, zero = exp(c, r)
                parts = [("start", c.start(r), must, zero)]
                if c.is_range(r):
                    parts.append(("end", c.end(r)) + ends(kind, c, r, must, zero))
                for where, comps, m, z in parts:
                    if which == "certain":
                        known(c, comps, [n for n, _ in COMPS], where, m, may)
                    else:
                        c.equal("clock fields that are neither stated nor implied read zero", [("%s %s" % (where, n), c.comp(comps, n), 0) for n in ("hour", "min", "sec") if n in z])
                        if "tzoffset" not in m:
                            c.equal("the offset is zero unless stated", [(where + " tzoffset", c.comp(comps, "tzoffset"), 0)])
            o = dict(o)
            o["cover"] = False
            o.pop("fm", None)
            out.append((name, cls, text, sp, o))
    return out
