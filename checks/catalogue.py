"""Which analyses decide which property."""
import families as fam
from sa import scn

RECOGNISED = {"the whole expression is recognised", "the expression is recognised"}


class Unit:
    def __init__(self, name, run, cost=1):
        self.name, self.run, self.cost = name, run, cost


class Check:
    def __init__(self, technique, rule, make, rules=None):
        self.technique, self.rule, self.make, self.rules = technique, rule, make, rules

    def tasks(self, shared, tier):
        return self.make(shared, tier)


def units(fs, tier, cost=1):
    out = []
    for name, cls, text, spec, o in fs:
        o = dict(o)
        o.setdefault("seconds", 120)
        if tier == "thorough":
            o["seconds"] = 1500
            o["limit"] = 40000

        def run(shared, name=name, cls=cls, text=text, spec=spec, o=o):
            return scn.scenario(shared, name, cls, text, spec, **o)
        out.append(Unit(name, run, cost))
    return out


ABS = "path-sensitive abstract interpretation (regular-language, linear and calendar-term domains) over the resolved AST"

FAMILIES = {
    "C15": lambda: fam.casual_date(),
    "C16": lambda: fam.casual_time(),
    "C17": lambda: fam.weekday(),
    "C18": lambda: fam.deadline(),
    "C19": lambda: fam.ago_later("ago") + fam.ago_later("later") + fam.ago_later("ago", two=True) + fam.ago_later("later", two=True),
    "C20": lambda: fam.relative(),
    "C21": lambda: fam.week(),
    "C22": lambda: fam.iso(),
    "C23": lambda: fam.month_name(),
    "C24": lambda: fam.month_day(),
    "C25": lambda: fam.clock_time(),
    "C26": lambda: fam.clock_range(),
    "C27": lambda: fam.holiday(),
}


def family(pid):
    return Check(ABS, "on every path class of the parser for the phrase family, the reported components equal the specified terms", lambda sh, tier: units(FAMILIES[pid](), tier))


CHECKS = {pid: family(pid) for pid in FAMILIES}


def c11(sh, tier):
    out = []
    for pid in sorted(FAMILIES):
        out += units(FAMILIES[pid](), tier)
    return out


CHECKS["C11"] = Check(ABS, "every text of every documented phrase family yields a result whose matched text is the whole phrase", c11, RECOGNISED)


import certainty as cert  # noqa: E402

CHECKS["C37"] = Check(ABS, "on every path class of the phrase families, exactly the components the expression fixes are certain", lambda sh, tier: units(cert.families("certain"), tier))
CHECKS["C38"] = Check(ABS, "on every path class of the phrase families, clock fields neither stated nor implied and an offset not stated read zero", lambda sh, tier: units(cert.families("zero"), tier))


import whole  # noqa: E402


def whole_units(fs):
    def make(sh, tier):
        out = []
        for name, text, spec, o in fs():
            def run(shared, name=name, text=text, spec=spec, o=o):
                return whole.program(shared, name, text, spec, limit=40000 if tier == "thorough" else 2000, seconds=1500 if tier == "thorough" else 110, **o)
            out.append(Unit(name, run, whole.COST.get(name, 1)))
        return out
    return make


CHECKS["C39"] = Check(ABS, "main interpreted with every parser and refiner on every text of a phrase family: the moment shown is the one the expression denotes", whole_units(whole.single))
CHECKS["C40"] = Check(ABS, "main interpreted with every parser and refiner on a date and a clock time side by side: the moment shown has the date of the one and the clock of the other", whole_units(whole.pairs))
CHECKS["C41"] = Check(ABS, "main interpreted with every parser and refiner on two dates joined by a range word: one range is shown, the earlier date first", whole_units(whole.ranges))
CHECKS["C42"] = Check(ABS, "main interpreted with every parser and refiner on two and three expressions with unrelated words between them: the first one's moment is shown; no moment without an expression", whole_units(whole.several))
CHECKS["C43"] = Check(ABS, "main interpreted with every parser and refiner on a date next to a clock range: one range on that date is shown, ending on the next day when the end's clock is the earlier one", whole_units(whole.dated_ranges))
CHECKS["C44"] = Check(ABS, "main interpreted with every parser and refiner on clock times with a timezone abbreviation, alone and next to a date: the shown result carries the zone's offset and its mark", whole_units(whole.zones))


# --------------------------------------------------------------------------- the objects themselves
import data  # noqa: E402
import generic as gen  # noqa: E402

INTERP = "abstract interpretation of call histories over the resolved AST (symbolic component values)"
CHECKS["C01"] = Check(INTERP, "after every history of up to two earlier operations per component, a setter changes exactly its component's value and certainty",
                      lambda sh, tier: [Unit("set " + n, lambda sh, n=n: data.c01(sh, n)) for n in data.NAMES])
CHECKS["C02"] = Check(INTERP, "after every history, implying fills exactly an unstated component; unknown names change nothing",
                      lambda sh, tier: [Unit("imply " + n, lambda sh, n=n: data.c02(sh, n)) for n in data.NAMES] + [Unit("unknown name", data.c02_unknown)])
CHECKS["C03"] = Check(INTERP, "every way of copying a result or its components yields equal observers and an independent object",
                      lambda sh, tier: [Unit("components", data.c03_components), Unit("results", data.c03_results), Unit("lists", data.c03_list)])
CHECKS["C04"] = Check(INTERP, "the rendered calendar terms equal the terms built from the result's components, shifted by the recognised offset",
                      lambda sh, tier: [Unit("rendering", data.c04)])


# --------------------------------------------------------------------------- scan loop and arbitrary text
HEAVY = {"parser::ENTimeAgoFormatParser": ("C19",), "parser::ENTimeLaterParser": ("C19",), "parser::ENTimeExpressionParser": ("C25", "C26"),
         "parser::ENMonthNameMiddleEndianParser": ("C24",)}


def scan_units(fn):
    def mk(sh):
        return [Unit(t.name, lambda sh, t=t, b=b: scn.explore_task(t, b)) for t, b in fn(sh)]
    return mk


def any_text(fn, sh, tier):
    out = []
    for cls in gen.parsers(sh.prog):
        kw = {"seconds": 40} if tier == "quick" else {"seconds": 1800, "limit": 60000}
        out.append(Unit(cls + " on any text", lambda sh, cls=cls, kw=kw: fn(sh, cls, **kw), 10 if cls in HEAVY else 2))
        if cls in HEAVY or tier == "thorough":
            for name, c, text, spec, o in single_families(cls):
                kw2 = {"seconds": 20, "limit": 300} if tier == "quick" else {"seconds": 600, "limit": 20000}
                out.append(Unit("%s on %s" % (cls, name), lambda sh, cls=cls, text=text, kw2=kw2: fn(sh, cls, text=text, **kw2)))
    return out


_fam = {}


def single_families(cls):
    if not _fam:
        for pid in FAMILIES:
            fs = fam.ago_later("ago") + fam.ago_later("later") if pid == "C19" else FAMILIES[pid]()
            for f in fs:
                _fam.setdefault(f[1], []).append(f)
    return _fam.get(cls, [])


def on_text(pid, technique, rule, fn, scans=()):
    CHECKS[pid] = Check(technique, rule, lambda sh, tier: any_text(fn, sh, tier) + [u for s in scans for u in scan_units(s)(sh)])


def per_pattern(fn):
    return lambda sh: [Unit("pattern of " + cls, lambda sh, cls=cls: fn(sh, cls)) for cls in gen.parsers(sh.prog)]


EFFECT = "path-sensitive effect and typestate analysis over the resolved AST (arbitrary text)"
CHECKS["C05"] = Check(ABS, "a result is appended exactly when its start and, for a range, its end are existing dates, for a symbolic extraction result", lambda sh, tier: scan_units(gen.c05_scan)(sh))
CHECKS["C06"] = Check(ABS + "; regular-language emptiness of the patterns", "each search of the scan loop starts at the end of the previous match and covers the rest; no pattern matches the empty text",
                      lambda sh, tier: scan_units(gen.c06_scan)(sh) + per_pattern(gen.c06_pattern)(sh))
on_text("C07", ABS, "the position handed to an extraction is the absolute offset of its match, and every reported result keeps it and the matched text", gen.c07, (gen.c07_scan,))
on_text("C08", EFFECT, "no test on text whose letter case was not folded separates two casings", gen.c08)
_c08 = CHECKS["C08"].make
CHECKS["C08"].make = lambda sh, tier: _c08(sh, tier) + [Unit("later matches of " + cls, lambda sh, cls=cls: gen.c08_scan(sh, cls)) for cls in gen.parsers(sh.prog)]
on_text("C09", EFFECT + ": exception flow", "no exception raised by a library operation or conversion leaves the scan", gen.c09, (gen.c09_scan,))
on_text("C10", EFFECT, "no write to state outliving the call, no read of clock, uninitialised, dead or changed storage, reference unchanged", gen.c10)
on_text("C13", ABS, "no path on which a vocabulary lookup misses reports a result", gen.c13)
on_text("C14", ABS, "every reported result carries exactly its parser's tag", gen.c14)
_c14 = CHECKS["C14"].make
CHECKS["C14"].make = lambda sh, tier: _c14(sh, tier) + [Unit("tag queries", gen.c14_query)]
CHECKS["C36"] = Check("regular-language analysis of the patterns in their matching context", "the language of a match contains no text ending in white space", lambda sh, tier: per_pattern(gen.c36)(sh))


# --------------------------------------------------------------------------- vocabulary tables
import tables as tab  # noqa: E402

CHECKS["C12"] = Check("constant evaluation of the vocabulary tables' initialisers against the standard meanings", "every word of the vocabulary is present and stands for its standard value",
                      lambda sh, tier: [Unit("table of " + k, lambda sh, k=k: tab.c12(sh, k)) for k in tab.KINDS])


# --------------------------------------------------------------------------- refiners and the program
import refine as rf   # noqa: E402
import program as prg  # noqa: E402

REFINE = "path-sensitive abstract interpretation of the refiner over lists of symbolic results and arbitrary text"


def U(fn, *args):
    return Unit(fn.__name__ + " " + " ".join(map(str, args)), lambda sh: fn(sh, *args))


def tag_units():
    """the refiner analyses, reduced to what they say about tags"""
    us = [U(rf.c29, p, r, ()) for p in (("date", "time"), ("time", "date"), ("casual", "casual")) for r in ((), (0,), (1,))]
    us += [U(rf.c30, ("date", "date"), r) for r in ((), (0,))] + [U(rf.c30, ("time", "time"), ())]
    us += [U(rf.c29, p, (), (), h) for p in (("date", "time"), ("time", "date")) for h in ("halves", "single")] + [U(rf.c30, ("date", "date"), (), h) for h in ("halves", "single")]
    us += [U(rf.c31, "zone", False, "", 1, 0, 0), U(rf.c31, "zone", True, ""), U(rf.c31, "unknown", False, ""), U(rf.c31, "zone", False, "s"), U(rf.c31, "zone", False, "", 2, 1)]
    us += [U(rf.c28, 2), U(rf.c28, 3), U(rf.c32, "date and time", 3), U(rf.c32, "date range", 3)]

    def only(u):
        def run(sh, f=u.run):
            r = f(sh).report()
            r["viol"] = [v for v in r["viol"] if "tag" in v["rule"] or "marked" in v["rule"] or "mixes up" in v["msg"] or ": tag " in v["msg"]]
            r["nviol"] = len(r["viol"])
            return r
        return Unit("tags: " + u.name, run)
    return [only(u) for u in us]


_c14r = CHECKS["C14"].make
CHECKS["C14"].make = lambda sh, tier: _c14r(sh, tier) + tag_units()


def c29_units(sh, tier):
    out = []
    for p in rf.DT_PAIRS:
        for r in ((), (0,), (1,), (0, 1)):
            for z in (((), (0, 1)) if tier == "quick" else ((), (0,), (1,), (0, 1))):
                out.append(U(rf.c29, p, r, z))
    return out + [U(rf.c29, p, (), (), h) for p in (("date", "time"), ("time", "date")) for h in ("halves", "single")]


def c30_units(sh, tier):
    ks = ["date", "full date", "time", "date and time", "casual", "month", "weekday"]
    return [U(rf.c30, (a, b), r) for a in ks for b in ks for r in ((), (0,), (1,), (0, 1)) if not r or a == b] + [U(rf.c30, ("date", "date"), (), h) for h in ("halves", "single")]


def c31_units(sh, tier):
    out = [U(rf.c31, "zone", False, "", 1, 0, i) for i in range(rf.ZONE_SETS)]
    out += [U(rf.c31, w, e, z) for w in ("zone", "unknown", "longer word", "other") for e, z in ((False, ""), (True, ""), (True, "s"), (True, "e"), (True, "se"), (False, "s"))]
    out += [U(rf.c31, w, False, "", 2, i) for w in ("zone", "unknown", "other") for i in (0, 1)]
    return out


CHECKS["C28"] = Check(REFINE, "the surviving results are a subsequence without overlapping neighbours, nothing dominant is lost, and survivors are unchanged",
                      lambda sh, tier: [U(rf.c28, n) for n in range(5 if tier == "quick" else 6)])
CHECKS["C29"] = Check(REFINE, "a merged date and time has the specified components, certainty, end, position, text and tags; they merge exactly when a joining word stands between", c29_units)
CHECKS["C30"] = Check(REFINE, "two single dates joined by a range word become one ordered range with the specified content; otherwise nothing changes", c30_units)
CHECKS["C31"] = Check(REFINE, "a known abbreviation after a clock time sets exactly its offset, tag and text; everything else is unchanged", c31_units)
CHECKS["C32"] = Check(REFINE, "the output covers every given result exactly once, in order; unmerged results are unchanged",
                      lambda sh, tier: [U(rf.c32, k, n) for k in ("date and time", "date range", "timezone") for n in range({"timezone": 4}.get(k, 5) + (tier != "quick"))])
CHECKS["C33"] = Check("interprocedural call-order (typestate) and dataflow analysis of the program over its resolved AST", "parsers, sorting, refiners and output occur in the required order and number on the right data",
                      lambda sh, tier: [U(prg.c33, n) for n in (1, 2, 3, 4)])
