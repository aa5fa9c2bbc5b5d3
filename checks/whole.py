"""C39, C40: the whole program - every parser, every refiner - on an expression, or on two of them side by side."""
import families as fam
from sa.scn import *
from sa import interp, tn, cal
from sa.prog import AnalysisError
from families import seq, opt, need, alt
from sa.val import *
from data import RESULT
from program import main_of
from generic import tags_of


CLOCK = ("hour", "min", "sec", "tzoffset")


class Shown(Ctx):
    """what the program shows for a text; clauses about texts without a result belong to the single parsers"""
    part = None                 # "date", "time" or both

    def mine(self, name):
        n = name.split()[-1]
        return self.part is None or (n in CLOCK) == (self.part == "time") or (self.part == "time" and n == "range")

    def of(self, part):
        c = Shown(self.task, self.st, self.it)
        c.part = part
        return c

    def equal(self, rule, pairs, where=None):
        Ctx.equal(self, rule, [p for p in pairs if self.mine(p[0])], where)

    def certain(self, comps, name):
        return Ctx.certain(self, comps, name)

    def check(self, rule, cond, msg):
        if "no result" in rule or "no range" in rule:
            return
        if rule == "certainty" and not self.mine(msg.split()[0]):
            return
        Ctx.check(self, rule, cond, msg)


def run_main(shared, st, text):
    """-> (interp, the result shown or None)"""
    it = interp.Interp(shared, st)
    st.opts["refdate"] = REFPT
    out, got = [], []

    def to_date(it2, f, this, args):
        got.append(it2.copy(this.v))
        return OpStr("date", len(got) - 1)
    it.hooks[RESULT + "::toDate"] = to_date
    st.opts["onout"] = lambda it2, s, v: out.append((s.name, v))
    args = Vec("array", "char *", [Cell(b"time"), Cell(text), Cell(OpStr("reference", 0))])
    it.call(main_of(shared.prog), None, [3, args])
    flat = [p for n, v in out if n == "cout" and isinstance(v, (bytes, OpStr, Cat)) for p in (v.parts if isinstance(v, Cat) else [v])]
    ds = [p.k[1] for p in flat if isinstance(p, OpStr) and p.k[0] == "date"]
    if not flat:
        raise Undecided("output of the program")
    return it, got[ds[0]] if ds else None


def program(shared, name, text, spec, limit=2000, seconds=120, dows=False, fm=False):
    task = Task(name, limit, seconds)

    def body(st):
        if dows:
            st.const[("ref", "dow")] = st.choose(7)
        st.fm = fm
        t = st.new_text(text)
        try:
            it, r = run_main(shared, st, t)
        except Throw as x:
            raise Fail("no exception escapes", "the program throws %s" % x)
        c = Shown(task, st, it)
        spec(c, r)
        return c
    return explore_task(task, body)


def pick(fs, *names):
    out = [f for f in fs if f[0] in names]
    if len(out) != len(names):
        raise AnalysisError("family missing: %s" % (names,))
    return out


# the families that take longest are started first
COST = {"ISO timestamps": 9, "weekday month day": 9, "month day year": 9, "month day": 8, "month day range": 8, "month day ago": 5, "week day later": 5, "day hour later": 5,
        "weekdays, modifier after": 4, "hour, then weekday": 3, "hour and minute, then weekday": 3}


def single():
    """(name, text, spec, options) for one expression alone"""
    md = fam.month_day()
    mspec = md[0][3]
    mon = lambda: F("mon", "feb\\.?|may|july?")
    dn = lambda t: seq(F("dn" + t, "[0-9]{1,2}"), "(st|th)?")
    o = {"fm": True}
    fs = fam.casual_date()
    ct = fam.casual_time()[0]
    fs.append((ct[0], ct[1], phrase(opt("this *"), F("w", "morning|afternoon|evening|night")), ct[3], ct[4]))
    wd = fam.weekday(False)[0][3]
    D = lambda: F("d", "sun|tue(s(day)?)?|fri(day)?|saturday")
    fs.append(("weekdays, modifier before", "", phrase(opt(F("m", "this|last|next"), " *"), D()), wd, {"dows": True}))
    fs.append(("weekdays, modifier after", "", phrase(D(), " *", F("m", "this|last|next"), opt(" *week")), wd, {"dows": True}))
    fs += fam.week()[:2] + fam.deadline() + fam.holiday()
    fs += [f for w in ("ago", "later") for f in fam.ago_later(w) if not f[0].startswith("year")]
    fs += fam.ago_later("ago", True, (("hour", "minute"), ("month", "day"))) + fam.ago_later("later", True, (("day", "hour"), ("week", "day")))
    isos = fam.iso()
    fs.append(isos[0])
    date = seq(F("y", "20[0-9]{2}"), "-", F("m", "[01][0-9]"), "-", F("d", "[0-3]?[0-9]"))
    fs.append(("ISO timestamps", "", phrase(date, "T", F("h", "[0-9]{1,2}"), ":", F("mi", "[0-9]{2}"), opt(":", F("s", "[0-9]{2}")), opt("Z")), isos[1][3], {}))
    fs += [f for f in fam.clock_time() if f[0] != "noon and midnight"] + [f for f in fam.clock_range() if f[0] != "from noon"]
    mn = fam.month_name()
    fs += [f for f in mn if f[0].startswith("month alone")]
    fs.append(("month with year", "", phrase(mon(), " *[,-]? *", F("y", "[12][0-9]{3}")), mn[0][3], o))
    fs.append(("month day", "", phrase(mon(), "(-|/| *,? *)", dn("")), mspec, o))
    fs.append(("month day year", "", phrase(F("mon", "feb|july"), " +", dn(""), "( *, *| +|/)", F("y", "[12][0-9]{3}")), mspec, o))
    fs.append(("month ordinal", "", phrase(F("mon", "feb|july?"), " +", F("do", "first|ninth|twenty[ -]third|thirty[ -]first")), mspec, o))
    fs.append(("month day range", "", phrase(F("mon", "may"), " +", dn(""), "( *- *| to )", dn("2")), mspec, o))
    fs.append(("weekday month day", "", phrase("(on +)?", F("wd", "sat|sunday"), " *,? *", F("mon", "july"), " +", dn("")), mspec, o))
    return [(n, t, s, {"dows": o.get("dows", False), "fm": o.get("fm", False)}) for n, _, t, s, o in fs]


def clock_of(c, r):
    """the clock written in the fields th, tm, tap"""
    st = c.st
    h = c.number("th")
    ap = c.word("tap") if c.has("tap") else ""
    if ap == "am":
        h = 0 if st.cmp("==", h, 12) else h
    elif ap == "pm" and not st.cmp("==", h, 12):
        h = add(h, 12)
    s = c.start(r)
    c.equal("the clock time next to the date", [("hour", c.comp(s, "hour"), h), ("min", c.comp(s, "min"), c.number("tm") if c.has("tm") else 0)])
    fam.certain(c, s, ("hour", "min"))


def pairs():
    """(name, text, spec, options): a date expression and a clock time side by side"""
    md = fam.month_day()[0][3]
    wd = fam.weekday(False)[0][3]
    dl = {f[0]: f[3] for f in fam.deadline()}
    ago = {f[0]: f[3] for f in fam.ago_later("ago")}
    hol = {f[0]: f for f in fam.holiday()}
    cd = fam.casual_date()[0][3]
    iso = fam.iso()[0][3]
    mn = fam.month_name()[0][3]
    o, w = {"fm": True}, {"dows": True}
    at, any_, on = "( +at +|, +at +)", "( +at +|, +| +)", "( +on +|, *| +)"
    day = "[1-9]|1[0-9]|2[0-8]"
    dates = [
        ("casual date", lambda: F("w", "today|tomorrow|tmr|yesterday"), cd, {}, any_, on),
        ("weekday", lambda: F("d", "fri(day)?|sunday"), wd, w, any_, on),
        ("weekday and modifier", lambda: seq(F("m", "last|next"), " +", F("d", "monday")), wd, w, any_, on),
        ("deadline", lambda: seq("(in|within) ", F("n", "[1-9][0-9]?"), " ", F("u", "days?")), dl["deadline in days"], {}, any_, "(, *| +)"),
        ("ago", lambda: seq(F("n0", "[1-9]"), " weeks? ", "ago"), ago["week ago"], {}, any_, "(, *| +)"),
        ("month day", lambda: seq(F("mon", "july?"), " ", F("dn", day)), md, o, any_, on),
        ("month day year", lambda: seq(F("mon", "may"), " ", F("dn", day), ", ", F("y", "20[0-9]{2}")), md, o, any_, on),
        ("month year", lambda: seq(F("mon", "august"), " ", F("y", "20[0-9]{2}")), mn, o, at, "(, *)"),  # a month directly behind a number is taken for something else
        ("ISO date", lambda: seq(F("y", "20[0-9]{2}"), "-", F("m", "0[1-9]|1[0-2]"), "-", F("d", "0[1-9]|1[0-9]|2[0-8]")), iso, {}, any_, None),
    ]
    for n in ("christmas", "labor"):
        dates.append(("holiday " + n, lambda n=n: seq(F("w", n), "( day)?"), hol[n][3], {}, any_, on))
    clocks = [("hour", lambda: seq(F("th", "[1-9]|1[0-2]"), " ?", F("tap", "am|pm"))),
              ("hour and minute", lambda: alt(seq(F("th", "[1-9]|1[0-2]"), ":", F("tm", "[0-5][0-9]"), " ?", F("tap", "am|pm")),
                                              seq(F("th", "[01]?[0-9]|2[0-3]"), ":", F("tm", "[0-5][0-9]"))))]
    out = []
    for dn, dt, ds, do, j1, j2 in dates:
        for cn, cl in clocks:
            def spec(c, r, ds=ds):
                need(r)
                ds(c.of("date"), r)
                clock_of(c, r)
            opts = {"dows": do.get("dows", False), "fm": do.get("fm", False)}
            out.append(("%s, then %s" % (dn, cn), tn.concat([dt(), R(j1), cl()]), spec, opts))
            if j2:
                out.append(("%s, then %s" % (cn, dn), tn.concat([cl(), R(j2), dt()]), spec, opts))
    return out


def ranges():
    """(name, text, spec, options): two dates joined by a range word"""
    join = lambda dash=True: R("( +to +| +through +| +and +%s)" % ("| *- *" if dash else ""))

    def day(c, y, m, d):
        return D(("ymd", y, m, d))

    def spec_of(da, db, clk=None):
        def spec(c, r):
            st = c.st
            need(r, "a range")
            a, b = da(c), db(c)
            h1, h2 = clk(c) if clk else (0, 0)
            swap = st.cmp(">", cal.dn(a), cal.dn(b))
            if clk and not swap and st.cmp("==", cal.dn(a), cal.dn(b)):
                swap = st.cmp(">", h1, h2)
            if swap:
                a, b, h1, h2 = b, a, h2, h1
            c.task.obligations += 1
            if not c.is_range(r):
                raise Fail("two joined dates are one range", "the result is a single moment")
            s, e = c.start(r), c.end(r)
            want = fam.dates(c, s, a) + [("end " + n, x, y) for n, x, y in fam.dates(c, e, b)]
            if clk:
                want += [("hour", c.comp(s, "hour"), h1), ("end hour", c.comp(e, "hour"), h2), ("min", c.comp(s, "min"), 0), ("end min", c.comp(e, "min"), 0)]
            c.equal("joined dates", want)
        return spec

    def md(t):
        return lambda c: day(c, c.number("y" + t), fam.month_no(c.word("mon" + t)), c.number("dn" + t))

    def mdf(t, mon):
        return seq(F("mon" + t, mon), " ", F("dn" + t, "[1-9]|1[0-9]|2[0-8]"), ", ", F("y" + t, "20[0-9]{2}"))

    def isod(t):
        return lambda c: day(c, c.number("y" + t), c.number("m" + t), c.number("d" + t))

    def isof(t):
        return seq(F("y" + t, "20[0-9]{2}"), "-", F("m" + t, "0[1-9]|1[0-2]"), "-", F("d" + t, "0[1-9]|1[0-9]|2[0-8]"))

    def cas(t):
        def f(c):
            w = c.word("w" + t)
            if w == "tomorrow":
                return REF.plus("d", 1) if c.st.cmp(">", fam.refc(c, "hour"), 0) else REF
            return {"today": REF, "yesterday": REF.plus("d", -1)}[w]
        return f

    def dead(t):
        return lambda c: REF.plus("d", c.number("n" + t))

    def hours(c):
        h1, h2 = c.number("h1"), c.number("h2")
        return (0 if c.st.cmp("==", h1, 12) else h1), (h2 if c.st.cmp("==", h2, 12) else add(h2, 12))
    H = lambda t, ap: seq(F("h" + t, "[1-9]|1[0-2]"), " ?" + ap)
    hol = {"christmas": (12, 25), "independence": (7, 4)}
    he = lambda c: day(c, fam.refc(c, "year"), 12, 31)
    hs = lambda c: day(c, fam.refc(c, "year"), *hol[c.word("w1")])
    fs = [
        ("month days with years", seq(mdf("1", "may|november"), join(), mdf("2", "june")), spec_of(md("1"), md("2")), {}),
        ("ISO dates", seq(isof("1"), join(False), isof("2")), spec_of(isod("1"), isod("2")), {}),
        ("casual dates", seq(F("w1", "today|tomorrow|yesterday"), join(), F("w2", "today|tomorrow|yesterday")), spec_of(cas("1"), cas("2")), {}),
        ("holidays", seq(F("w1", "christmas|independence"), "( day)?", join(), "new year's eve"), spec_of(hs, he), {}),
        ("deadlines", seq("in ", F("n1", "[1-9][0-9]?"), " days?", join(False), "in ", F("n2", "[1-9][0-9]?"), " days?"), spec_of(dead("1"), dead("2")), {}),
        ("moments", seq(F("w1", "yesterday"), " at ", H("1", "am"), " to ", F("w2", "today"), " at ", H("2", "pm")), spec_of(cas("1"), cas("2"), hours), {}),
        ("moments in reverse", seq(F("w1", "today|tomorrow"), " at ", H("1", "am"), join(), F("w2", "yesterday|today"), " at ", H("2", "pm")), spec_of(cas("1"), cas("2"), hours), {}),
    ]
    return fs


DAY = "[1-9]|1[0-9]|2[0-8]"


def several():
    """(name, text, spec, options): several expressions with unrelated words between them; the first is shown"""
    md = fam.month_day()[0][3]
    wd = fam.weekday(False)[0][3]
    dl = {f[0]: f[3] for f in fam.deadline()}
    ago = {f[0]: f[3] for f in fam.ago_later("ago")}
    hol = {f[0]: f for f in fam.holiday()}
    later = {f[0]: f[3] for f in fam.ago_later("later")}
    ct = fam.clock_time()[0][3]
    first = [
        ("casual date", lambda: F("w", "today|tomorrow|tonight"), fam.casual_date()[0][3], {}),
        ("casual time", lambda: seq("this ", F("w", "morning|evening")), fam.casual_time()[0][3], {}),
        ("weekday", lambda: seq(opt(F("m", "last|next"), " "), F("d", "fri(day)?|sunday")), wd, {"dows": True}),
        ("deadline in days", lambda: seq("(in|within) ", F("n", "[1-9][0-9]?"), " ", F("u", "days?")), dl["deadline in days"], {}),
        ("weeks ago", lambda: seq(F("n0", "[1-9]"), " weeks? ", "ago"), ago["week ago"], {}),
        ("hours later", lambda: seq(F("n0", "[1-9]"), " hours? ", "later"), later["hour later"], {}),
        ("month day year", lambda: seq(F("mon", "may"), " ", F("dn", DAY), ", ", F("y", "20[0-9]{2}")), md, {"fm": True}),
        ("ISO date", lambda: seq(F("y", "20[0-9]{2}"), "-", F("m", "0[1-9]|1[0-2]"), "-", F("d", "0[1-9]|1[0-9]|2[0-8]")), fam.iso()[0][3], {}),
        ("clock time", lambda: seq(F("h", "[1-9]|1[0-2]"), " ?", F("ap", "am|pm")), ct, {}),
        ("holiday", lambda: seq(F("w", "christmas"), "( day)?"), hol["christmas"][3], {}),
    ]
    others = "today|next friday|5pm|2018-05-06|in 3 days|2 weeks ago|christmas|may 5, 2019"
    o2 = lambda o: {"dows": o.get("dows", False), "fm": o.get("fm", False)}
    out = []
    for n, t, s, o in first:
        def spec(c, r, s=s):
            need(r)
            s(c, r)
        few = "today|next friday|5pm|christmas" if o.get("dows") else others
        out.append((n + " before another", tn.concat([R("(see you )?"), t(), R("( or | but not )(%s)" % few)]), spec, o2(o)))
        out.append((n + " before two others", tn.concat([t(), R(" or (today|5pm%s)( or |\\. see you )(friday|2018-05-06%s)" % (("", "") if o.get("dows") else ("|in 3 days|christmas", "|yesterday")))]), spec, o2(o)))

    def none(c, r):
        c.check("a text without an expression is shown none", r is None, "a moment is shown")
    out.append(("no expression", R("[bcfgjklpqvwxz ,.]*"), none, {}))
    return out


def casual_day(c):
    if c.word("w") == "tomorrow":
        return REF.plus("d", 1) if c.st.cmp(">", fam.refc(c, "hour"), 0) else REF
    return {"today": REF, "yesterday": REF.plus("d", -1)}[c.word("w")]


def dated_ranges():
    """(name, text, spec, options): a date next to a clock range"""
    def spec_of(day):
        def spec(c, r):
            st = c.st
            need(r, "a range")
            hs = []
            for t in "12":
                h, ap = c.number("h" + t), c.word("ap" + t)
                twelve = st.cmp("==", h, 12)
                hs.append((0 if twelve else h) if ap == "am" else (h if twelve else add(h, 12)))
            ms = [c.number("m" + t) if c.has("m" + t) else 0 for t in "12"]
            a = b = day(c)
            if st.cmp("<", add(scale(hs[1], 60), ms[1]), add(scale(hs[0], 60), ms[0])):
                b = a.plus("d", 1)
            c.task.obligations += 1
            if not c.is_range(r):
                raise Fail("a date and a clock range are one range", "the result is a single moment")
            s, e = c.start(r), c.end(r)
            want = fam.dates(c, s, a) + [("end " + n, x, y) for n, x, y in fam.dates(c, e, b)]
            want += [("hour", c.comp(s, "hour"), hs[0]), ("end hour", c.comp(e, "hour"), hs[1]), ("min", c.comp(s, "min"), ms[0]), ("end min", c.comp(e, "min"), ms[1])]
            c.equal("range on the day", want)
        return spec

    def clock(mins):
        f = lambda t: seq(F("h" + t, "[1-9]" if mins else "[1-9]|1[0-2]"), seq(":", F("m" + t, "[0-5][0-9]")) if mins else "", " ?", F("ap" + t, "pm" if mins else "am|pm"))
        return seq("(from )?", f("1"), "( - | to )", f("2"))

    num = lambda c: D(("ymd", c.number("y"), fam.month_no(c.word("mon")) if c.has("mon") else c.number("m"), c.number("dn")))
    dates = [
        ("casual date", lambda: F("w", "today|tomorrow|yesterday"), casual_day),
        ("deadline", lambda: seq("in ", F("n", "[1-9][0-9]?"), " days?"), lambda c: REF.plus("d", c.number("n"))),
        ("month day year", lambda: seq(F("mon", "may|december"), " ", F("dn", DAY), ", ", F("y", "20[0-9]{2}")), num),
        ("ISO date", lambda: seq(F("y", "20[0-9]{2}"), "-", F("m", "0[1-9]|1[0-2]"), "-", F("dn", "0[1-9]|1[0-9]|2[0-8]")), num),
        ("holiday", lambda: R("(christmas|christmas day)"), lambda c: D(("ymd", fam.refc(c, "year"), 12, 25))),
    ]
    out = []
    for n, t, d in dates:
        for mins in (False, True):
            w = "hours" if not mins else "hours and minutes"
            out.append(("%s, then %s" % (n, w), tn.concat([t(), R("(, | )"), clock(mins)]), spec_of(d), {}))
            if n not in ("ISO date", "month day year"):
                out.append(("%s, then %s" % (w, n), tn.concat([clock(mins), R("(, | on | )" if n != "deadline" else "(, | )"), t()]), spec_of(d), {}))
    return out


ZONES = {"est": -300, "aest": 600, "cet": 60, "npt": 345, "utc": 0}


def zones():
    """(name, text, spec, options): a clock time, alone or next to a date, followed by a timezone"""
    def spec_of(inner):
        def spec(c, r):
            need(r, "a time with a timezone")
            inner(c, r)
            z = ZONES[c.word("z")]
            s = c.start(r)
            c.equal("the offset of the timezone", [("offset", c.comp(s, "tzoffset"), z)] + ([("end offset", c.comp(c.end(r), "tzoffset"), z)] if c.is_range(r) else []))
            tag = tags_of(c.it.prog)["ExtractTimeZoneAbbreviation"]
            c.check("the shown result is marked as shifted by a timezone", c.it.truth(c.ask(r, "getTag", tag)), "the mark is missing")
            fam.certain(c, s, ("tzoffset",))
        return spec
    Z = lambda: alt(seq(" +", F("z", "|".join(ZONES))), seq(" \\(", F("z", "est|cet"), "\\)"))
    cd = fam.casual_date()[0][3]
    iso = fam.iso()[0][3]

    def on(date):
        def f(c, r):
            date(c.of("date"), r)
            clock_of(c, r)
        return f

    def clk(c, r):
        clock_of(c, r)
        c.equal("the day of the reference", fam.dates(c, c.start(r), REF))

    def rng(c, r):
        need(r)
        c.task.obligations += 1
        if not c.is_range(r):
            raise Fail("a clock range keeps both ends", "the result is a single moment")
        h = c.number("h2")
        c.equal("the end of the clock range", [("end hour", c.comp(c.end(r), "hour"), h if c.st.cmp("==", h, 12) else add(h, 12)), ("end min", c.comp(c.end(r), "min"), 0)])
        clock_of(c, r)
    t = lambda: seq(F("th", "[1-9]|1[0-2]"), opt(":", F("tm", "[0-5][0-9]")), " ?", F("tap", "am|pm"))
    w = lambda: F("w", "today|tomorrow|yesterday")
    i = lambda: seq(F("y", "20[0-9]{2}"), "-", F("m", "0[1-9]|1[0-2]"), "-", F("d", "0[1-9]|1[0-9]|2[0-8]"))
    return [
        ("clock time", tn.concat([t(), Z()]), spec_of(clk), {}),
        ("clock time without marker", tn.concat([F("th", "[01]?[0-9]|2[0-3]"), R(":"), F("tm", "[0-5][0-9]"), Z()]), spec_of(clk), {}),
        ("clock range", tn.concat([seq(F("th", "[1-9]|1[0-2]"), " ?", F("tap", "am|pm")), R("( - | to )"), F("h2", "[1-9]|1[0-2]"), R(" ?pm"), Z()]), spec_of(rng), {}),
        ("date, then clock time", tn.concat([w(), R("( at |, | )"), t(), Z()]), spec_of(on(cd)), {}),
        ("clock time, then date", tn.concat([t(), Z(), R("(, | on | )"), w()]), spec_of(on(cd)), {}),
        ("ISO date, then clock time", tn.concat([i(), R("( at |, | )"), t(), Z()]), spec_of(on(iso)), {}),
        ("date, then clock range", tn.concat([w(), R("(, | )"), seq(F("th", "[1-9]|1[0-2]"), " ?", F("tap", "pm")), R("( - | to )"), F("h2", "[1-9]|1[0-2]"), R(" ?pm"), Z()]), spec_of(lambda c, r: (rng(c, r), c.equal("the date next to the clock range", fam.dates(c, c.start(r), casual_day(c))))), {}),
        ("another expression follows", tn.concat([t(), Z(), R(" or (today|friday|2018-05-06)")]), spec_of(clk), {}),
        ("another expression stands before", tn.concat([w(), R(" or "), R("5pm est")]), cd, {}),
    ]
