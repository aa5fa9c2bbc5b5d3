"""Phrase families of the properties C15-C27 (and C11) with what each phrase means."""
import itertools
from sa.scn import *
from sa import tn

NUMS = ["one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "ten", "eleven", "twelve"]
NUMVAL = {w: i + 1 for i, w in enumerate(NUMS)}
ORD = ["first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "ninth", "tenth", "eleventh", "twelfth", "thirteenth",
       "fourteenth", "fifteenth", "sixteenth", "seventeenth", "eighteenth", "nineteenth", "twentieth", "twenty first", "twenty second",
       "twenty third", "twenty fourth", "twenty fifth", "twenty sixth", "twenty seventh", "twenty eighth", "twenty ninth", "thirtieth",
       "thirty first"]
ORDVAL = {w: i + 1 for i, w in enumerate(ORD)}
MONTHS = ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"]
DAYS = ["sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"]
CAL = (("year", "year"), ("month", "month"), ("mday", "day"))


def alt(*parts):
    return tn.union([R(p) if isinstance(p, str) else p for p in parts])


def opt(*parts):
    return tn.union([tn.concat([R(p) if isinstance(p, str) else p for p in parts]), R("")])


def seq(*parts):
    return tn.concat([R(p) if isinstance(p, str) else p for p in parts])


def need(r, what="the expression", when=()):
    """a result must be reported (whenever the terms `when` have a value in the calendar)"""
    if r is None:
        raise Fail("the expression is recognised", "no result is reported for %s" % what, when=when)


def dates(c, comps, d):
    return [(n, c.comp(comps, n), cal.proj(c.st, k, d)) for n, k in CAL]


def clock(c, comps, p):
    return [(n, c.comp(comps, n), cal.tod_part(c.st, w, p.k, p.secs)) for n, w in (("hour", "hour"), ("min", "min"), ("sec", "sec"))]


def moment(c, comps, secs, sign=1):
    p = cal.mkpt(c.st, REF, 1, scale(secs, sign))
    return dates(c, comps, cal.pt_date(c.st, p)) + clock(c, comps, p)


def certain(c, comps, names, yes=True):
    for n in names:
        c.check("certainty", c.certain(comps, n) == yes, "%s is reported as %s" % (n, "implied only" if yes else "certain"))


def refc(c, what):
    return cal.proj(c.st, what, REF) if what in ("year", "month", "day", "dow") else cal.tod_part(c.st, what, 1, 0)


def not_range(c, r):
    c.check("a single moment", not c.is_range(r), "the result is a range")


# --------------------------------------------------------------------------- C15
def casual_date():
    text = phrase(F("w", r"now|today|tonight|last\s*night|tomorrow|tmr|yesterday".replace(r"\s", " ")))

    def spec(c, r):
        w = c.word("wl") if False else None
        s = c.span("w")
        ws = ["now", "today", "tonight", "tomorrow", "tmr", "yesterday"]
        g = c.st.split(s, [(x.encode(),) for x in ws], "keyword")
        w = g[0].decode() if g else "last night"
        need(r, '"%s"' % w)
        st = c.start(r)
        d = REF
        if w in ("tomorrow", "tmr"):
            d = REF.plus("d", 1) if c.st.cmp(">", refc(c, "hour"), 0) else REF
        elif w == "yesterday":
            d = REF.plus("d", -1)
        elif w == "last night":
            d = REF.plus("d", -1) if c.st.cmp(">=", refc(c, "hour"), 7) else REF
        c.equal('date of "%s"' % w, dates(c, st, d))
        certain(c, st, ("year", "month", "mday"))
        if w == "now":
            c.equal("time of now", [(n, c.comp(st, n), refc(c, n)) for n in ("hour", "min", "sec")])
            certain(c, st, ("hour", "min", "sec"))
        h = {"tonight": 22, "last night": 0, "yesterday": refc(c, "hour")}.get(w)
        if h is not None:
            c.equal('hour of "%s"' % w, [("hour", c.comp(st, "hour"), h)])
            certain(c, st, ("hour",), False)
        not_range(c, r)
    return [("casual dates", "parser::ENCasualDateParser", text, spec, {})]


# --------------------------------------------------------------------------- C16
def casual_time():
    text = phrase(opt("this *"), F("w", "morning|afternoon|evening|noon|night"))

    def spec(c, r):
        w = c.word("w")
        need(r, '"%s"' % w)
        st = c.start(r)
        h = {"morning": 6, "noon": 12, "afternoon": 15, "evening": 20, "night": 20}[w]
        c.equal("casual time", [("hour", c.comp(st, "hour"), h), ("wday", c.comp(st, "wday"), refc(c, "dow"))] + dates(c, st, REF))
        certain(c, st, ("hour", "year", "month", "mday", "wday", "min", "sec"), False)
        not_range(c, r)
    return [("casual times", "parser::ENCasualTimeParser", text, spec, {"dows": True})]


# --------------------------------------------------------------------------- C17
DAYRE = "sun(day)?|mon(day)?|tue(s(day)?)?|wed(nesday)?|thu(r(s(day)?)?)?|fri(day)?|sat(urday)?"


def weekday(timed=True):
    fams = []
    timing = opt(F("t", "earlier|early|late"), " *") if timed else R("")
    for name, body in (("before", seq(timing, opt(F("m", "this|last|next"), " *"), F("d", DAYRE))),
                       ("after", seq(timing, F("d", DAYRE), " *", F("m", "this|last|next"), opt(" *week")))):
        def spec(c, r, name=name):
            d = c.word("d")
            m = c.word("m") if c.has("m") else ""
            need(r, "weekday %s %s" % (d, m))
            st = c.start(r)
            k = [i for i, x in enumerate(DAYS) if x.startswith(d[:3])][0]
            shift = {"last": -7, "next": 7}.get(m, 0)
            dow = refc(c, "dow")
            c.equal("%s with modifier '%s'" % (d, m), dates(c, st, REF.plus("d", sub(add(k, shift), dow))))
            certain(c, st, ("year", "month", "mday"), m in ("last", "next"))
            t = c.word("t") if c.has("t") else None
            if t:
                c.equal("hour of '%s'" % t, [("hour", c.comp(st, "hour"), 20 if t == "late" else 6)])
                certain(c, st, ("hour",), False)
            not_range(c, r)
        fams.append(("weekday, modifier " + name, "parser::ENDayOfWeekParser", phrase(body), spec, {"dows": True, "limit": 6000}))
    return fams


# --------------------------------------------------------------------------- amounts
UNIT_SECS = {"second": 1, "minute": 60, "hour": 3600}


def unit_of(w):
    if w.startswith("s"):
        return "second"
    if w.startswith("min"):
        return "minute"
    if w.startswith("h"):
        return "hour"
    if w.startswith("d"):
        return "day"
    if w.startswith("w"):
        return "week"
    if w.startswith("mo"):
        return "month"
    return "year"


def amount(tag="", digits="[0-9]{1,9}", few="an? +few", half="half( +an?)?", one="an?", few2=None):
    parts = [F("w" + tag, "|".join(NUMS)), F("n" + tag, digits)]
    if one:
        parts.append(F("one" + tag, one))
    if few:
        parts.append(F("few" + tag, few))
    if half:
        parts.append(F("half" + tag, half))
    return alt(*parts)


def read_amount(c, tag=""):
    if c.has("n" + tag):
        return c.number("n" + tag)
    if c.has("one" + tag):
        return 1
    if c.has("few" + tag):
        return 3
    if c.has("half" + tag):
        return "half"
    return NUMVAL[c.word("w" + tag)]


def steps(n, u):
    """-> list of (kind, count): 'd' days, 'm' months, 's' seconds"""
    if n == "half":
        return {"minute": ("s", 30), "hour": ("s", 1800), "day": ("s", 43200), "week": ("d", 3), "month": ("d", 15), "year": ("m", 6)}[u]
    if u in UNIT_SECS:
        return ("s", scale(n, UNIT_SECS[u]))
    return {"day": ("d", n), "week": ("d", scale(n, 7)), "month": ("m", n), "year": ("m", scale(n, 12))}[u]


def apply_steps(c, sts, sign):
    p = PT(REF, 1, 0)
    for k, n in sts:
        if k == "s":
            p = cal.mkpt(c.st, p.d, p.k, add(p.secs, scale(n, sign)))
        else:
            p = PT(p.d.plus(k, scale(n, sign)), p.k, p.secs)
    return p


def in_calendar(c, n, unit):
    """restrict to results the calendar can hold (the property says nothing about others)"""
    top = {"year": 6000, "month": 72000, "week": 300000, "day": 2000000, "hour": 48000000}.get(unit)
    if top and not isinstance(n, (int, str)) and c.st.cmp(">", n, top):
        raise Infeasible()


def deadline():
    fams = []
    for unit, ure in (("second", "sec(ond)?s?"), ("minute", "min(ute)?s?"), ("hour", "h(ou)?rs?"), ("day", "days?"), ("week", "w(ee)?ks?"),
                      ("month", "months?"), ("year", "y(ea)?rs?")):
        def spec(c, r, unit=unit):
            n = read_amount(c)
            in_calendar(c, n, unit)
            s = steps(n, unit)
            p = apply_steps(c, [s], 1)
            need(r, "a deadline in %ss" % unit, (p,))
            st = c.start(r)
            what = "deadline of %s %s" % (n, unit)
            pairs = dates(c, st, cal.pt_date(c.st, p))
            if s[0] == "s":
                pairs += clock(c, st, p)
            c.equal(what, pairs)
            not_range(c, r)
        half = None if unit == "second" else "half( +an?)?"
        fams.append(("deadline in %ss" % unit, "parser::ENDeadlineFormatParser",
                     phrase("(within|in) +", amount(half=half), " +", F("u", ure)), spec, {}))
    return fams


AGO_UNITS = (("second", "sec(onds?)?"), ("minute", "min(ute)?s?"), ("hour", "hours?"), ("day", "days?"), ("week", "weeks?"), ("month", "months?"),
             ("year", "years?"))


def ago_later(which, two=False, units=None):
    cls, sign, tail = {"ago": ("parser::ENTimeAgoFormatParser", -1, "ago|before|earlier"),
                       "later": ("parser::ENTimeLaterParser", 1, "later|after|from now|henceforth|forward|out")}[which]
    fams = []

    def spec(c, r, us):
        ns = [read_amount(c, str(i)) for i in range(len(us))]
        for n, u in zip(ns, us):
            in_calendar(c, n, u)
        ss = [steps(n, u) for n, u in zip(ns, us)]
        need(r, "%s of %s" % (which, " and ".join(us)), (apply_steps(c, ss, sign), apply_steps(c, ss[::-1], sign)))
        st = c.start(r)
        orders = [ss] if len(ss) == 1 else [ss, ss[::-1]]
        if len(ss) == 2 and ss[0][0] == ss[1][0]:
            orders.append([(ss[0][0], add(ss[0][1], ss[1][1]))])
        clk = any(u in UNIT_SECS for u in us) or any(s[0] == "s" for s in ss)
        err = None
        for o in orders:
            p = apply_steps(c, o, sign)
            try:
                pairs = dates(c, st, cal.pt_date(c.st, p))
                if clk:
                    pairs += clock(c, st, p)
                c.equal("%s: %s %s" % (which, " ".join("%s %s" % (n, u) for n, u in zip(ns, us)), which), pairs)
                err = None
                break
            except Fail as f:
                err = err or f
        if err:
            raise err
        if clk:
            certain(c, st, ("hour", "min", "sec"))
        if any(u not in UNIT_SECS and n != "half" for n, u in zip(ns, us)):
            certain(c, st, ("year", "month", "mday"))
        not_range(c, r)
    D1 = "[1-9][0-9]{0,8}"
    if not two:
        for unit, ure in AGO_UNITS:
            half = None if unit == "second" else "half( +an?)?"
            body = seq(amount("0", D1, half=half), " +", ure, " +", tail)
            if which == "ago":
                body = seq(opt("within +"), body)
            fams.append(("%s %s" % (unit, which), cls, phrase(body), lambda c, r, u=unit: spec(c, r, [u]), {}))
    else:
        am = lambda t: alt(F("w" + t, "three|twelve"), F("n" + t, D1))      # the words have families of their own
        for u1, r1 in AGO_UNITS:
            for u2, r2 in AGO_UNITS:
                if units and (u1, u2) not in units:
                    continue
                body = seq(am("0"), " ", r1, " ", am("1"), " ", r2, " ", tail)
                fams.append(("%s %s %s" % (u1, u2, which), cls, phrase(body), lambda c, r, a=u1, b=u2: spec(c, r, [a, b]), {}))
    return fams


# --------------------------------------------------------------------------- C20
def relative():
    cls = "parser::ENRelativeDateFormatParser"
    fams = []
    for unit, ure in (("second", "seconds?"), ("minute", "min(ute)?s?"), ("hour", "hours?"), ("day", "days?"), ("week", "weeks?"),
                      ("month", "months?"), ("year", "years?")):
        half = None if unit == "second" else "half( +an?)?"
        body = seq(F("m", "next|last|past"), " +", opt(amount(half=half, one=None, few="few"), " +"), ure)

        def spec(c, r, unit=unit):
            m = c.word("m")
            n = 1
            if c.has("n") or c.has("w") or c.has("few") or (unit != "second" and c.has("half")):
                n = read_amount(c)
            in_calendar(c, n, unit)
            s = steps(n, unit)
            p = apply_steps(c, [s], 1 if m == "next" else -1)
            need(r, "%s %s %s" % (m, n, unit), (p,))
            st = c.start(r)
            pairs = dates(c, st, cal.pt_date(c.st, p))
            if s[0] == "s":
                pairs += clock(c, st, p)
            c.equal("%s %s %s" % (m, n, unit), pairs)
            not_range(c, r)
        fams.append(("next/last %ss" % unit, cls, phrase(body), spec, {}))

    def this(c, r):
        u = c.word("u")
        need(r, "this " + u)
        c.check("this %s is a range" % u, c.is_range(r), "the result is no range")
        st, en = c.start(r), c.end(r)
        y, m = refc(c, "year"), refc(c, "month")
        if u == "week":
            dow = refc(c, "dow")
            c.equal("this week", dates(c, st, REF.plus("d", neg(dow))) + [("end " + a, b, x) for a, b, x in dates(c, en, REF.plus("d", sub(6, dow)))])
        elif u == "month":
            c.equal("this month", [("year", c.comp(st, "year"), y), ("month", c.comp(st, "month"), m), ("mday", c.comp(st, "mday"), 1),
                                   ("end year", c.comp(en, "year"), y), ("end month", c.comp(en, "month"), m),
                                   ("end mday", c.comp(en, "mday"), atom("eom", y, m))])
        else:
            c.equal("this year", [("year", c.comp(st, "year"), y), ("month", c.comp(st, "month"), 1), ("mday", c.comp(st, "mday"), 1),
                                  ("end year", c.comp(en, "year"), y), ("end month", c.comp(en, "month"), 12), ("end mday", c.comp(en, "mday"), 31)])
    fams.append(("this week/month/year", cls, phrase("this +", F("u", "week|month|year")), this, {"dows": True}))
    return fams


# --------------------------------------------------------------------------- C21
def week():
    cls = "parser::ENWeekExpressionParser"
    nw = "|".join(NUMS)

    def spec(c, r):
        m = c.word("m")
        n = 1
        if c.has("n"):
            n = c.number("n")
        elif c.has("w"):
            n = NUMVAL[c.word("w")]
        d = REF.plus("d", scale(n, 7 if m == "next" else -7))
        need(r, "%s %s weeks" % (m, n), (d,))
        c.equal("%s %s weeks" % (m, n), dates(c, c.start(r), d))
        not_range(c, r)

    def this(c, r):
        need(r, "this week")
        c.equal("this week", dates(c, c.start(r), REF))

    def none(c, r):
        c.check("a word that is no number gives no result", r is None, "a result is reported")
    words = tn.restrict(tn.tagged(R("[a-z]{3,9}"), ("$", "x", "o"), ("$", "x", "c")), ("$", "x", "o"), ("$", "x", "c"),
                        tn.d_regex(b"(%s)" % nw.encode(), True).complement())
    return [("last/next weeks", cls, phrase(F("m", "last|next"), " +", opt(alt(F("n", "[0-9]{1,9}"), F("w", nw)), " +"), "weeks?"), spec, {}),
            ("this week", cls, phrase("this *week"), this, {}),
            ("unknown word", cls, tn.concat([R("(last|next) +"), words, R(" +weeks")]), none, {"cover": False})]


# --------------------------------------------------------------------------- C22
def valid_date(c, y, m, d):
    """does the day exist (gregorian 1400..9999)?  splits the path"""
    st = c.st
    if st.cmp("<", y, 1400) or st.cmp(">", y, 9999) or st.cmp("<", m, 1) or st.cmp(">", m, 12) or st.cmp("<", d, 1) or st.cmp(">", d, 31):
        return False
    lo, hi = st.range_of(d)
    if hi <= 28:
        return True
    for k in range(1, 13):
        if st.cmp("==", m, k):
            break
    return not st.cmp(">", d, cal.eom(st, y, k))


def iso():
    cls = "parser::ENISOFormatParser"
    date = seq(F("y", "[0-9]{4}"), "-", F("m", "[0-9]{1,2}"), "-", F("d", "[0-9]{1,2}"))
    time = seq("T", F("h", "[0-9]{1,2}"), ":", F("mi", "[0-9]{1,2}"), opt(":", F("s", "[0-9]{1,2}"), "(\\.[0-9]{1,4})?"))
    zone = seq(F("sg", "[+-]"), F("zh", "[0-9]{2}"), opt(":?", F("zm", "[0-9]{2}")))

    def spec(c, r):
        y, m, d = [c.number(x) for x in ("y", "m", "d")]
        st = c.st
        t = c.has("h")
        ok = valid_date(c, y, m, d)
        sec = None
        if ok and t:
            ok = not (st.cmp(">", c.number("h"), 24) or st.cmp(">", c.number("mi"), 59))
            if ok and c.has("s"):
                sec = c.number("s")
                ok = not st.cmp(">", sec, 59)
        if not ok:
            c.check("fields out of range give no result", r is None, "a result is reported although a field is out of range")
            return
        need(r, "a valid ISO date")
        s = c.start(r)
        pairs = [("year", c.comp(s, "year"), y), ("month", c.comp(s, "month"), m), ("mday", c.comp(s, "mday"), d)]
        names = ["year", "month", "mday"]
        if t:
            pairs += [("hour", c.comp(s, "hour"), c.number("h")), ("min", c.comp(s, "min"), c.number("mi"))]
            names += ["hour", "min"]
            if sec is not None:
                pairs.append(("sec", c.comp(s, "sec"), sec))
                names.append("sec")
            off = 0
            if c.has("zh"):
                off = scale(c.number("zh"), 60)
                if c.has("zm"):
                    off = add(off, c.number("zm"))
                if c.word("sg") == "-":
                    off = neg(off)
            pairs.append(("tzoffset", c.comp(s, "tzoffset"), off))
            names.append("tzoffset")
        else:
            certain(c, s, ("hour", "min", "sec"), False)
        c.equal("ISO fields", pairs)
        certain(c, s, names)
        not_range(c, r)
    return [("ISO dates", cls, phrase(date), spec, {"limit": 2000}),
            ("ISO timestamps", cls, phrase(date, time, opt("Z")), spec, {"limit": 2000, "seconds": 150}),
            ("ISO timestamps with offset", cls, phrase(date, time, zone), spec, {"limit": 6000, "seconds": 240})]


# --------------------------------------------------------------------------- C23 / C24
MONRE = ("jan(uary|\\.)?|feb(ruary|\\.)?|mar(ch|\\.)?|apr(il|\\.)?|may\\.?|jun(e|\\.)?|jul(y|\\.)?|aug(ust|\\.)?|sep(\\.|t(\\.|ember)?)?|"
         "oct(ober|\\.)?|nov(\\.|ember)?|dec(\\.|ember)?")


def month_no(w):
    return [i for i, x in enumerate(MONTHS) if x[:3] == w[:3]][0] + 1


def month_value(c):
    """month number in field mon; splits by month, not by spelling"""
    s = c.span("mon")
    ws = c.st.words(Span(0, s.o, s.c), 4000)
    if ws is None:
        raise Undecided("month field")
    by = {}
    for w in ws:
        lw = w.decode("latin-1").lower()
        by.setdefault(month_no(lw), set()).add(lw.encode())
    ks = sorted(by)
    if len(ks) == 1:
        return ks[0]
    g = c.st.split(s, [tuple(sorted(by[k])) for k in ks], "month")
    return month_no(g[0].decode())


def nearest(c, y, m, d, rule):
    """y is the year that puts month m, day d closest to the reference"""
    t = lambda k: dn_of(c, add(y, k), m, d)
    c.task.obligations += 1
    ref = cal.dn(REF)
    n = 0
    if all(proved_nearer(c.st, t, ref, k) for k in (-1, 1)):
        return

    def midway(e, rnd):
        """days about half a year away from the day of the year"""
        yy = rnd.choice((2003, 2004, 2005, 2007, 2008, 2011, 2012, 1899, 1999, 2096, 2099))
        o = teval.ordinal(yy, e.num(m), e.num(d))
        return [o + s * (182 + k) for s in (1, -1) for k in (-1, 0, 1, 2)]
    for e in itertools.chain(teval.envs(c.st, 200), teval.envs_on(c.st, midway, 150)):
        try:
            x = e.num(ref)
            ds = [abs(e.num(t(k)) - x) for k in (-1, 0, 1)]
        except teval.NoVal:
            continue
        n += 1
        if ds[1] > min(ds):
            raise Fail(rule, "the year chosen is not the closest: %s gives year %s" % (teval.show_env(e), e.num(y)), shown=True)
    c.residual += 1
    if not n:
        raise Undecided("nearest year not settled")


def proved_nearer(st, t, ref, k):
    """do the conditions of the path imply |t(0) - ref| <= |t(k) - ref| ?"""
    a, b = sub(t(k), ref), sub(t(0), ref)
    for i in (1, -1):
        for j in (1, -1):
            x, y = scale(a, i), scale(b, j)
            if st.fm_ok([x, y, sub(sub(y, x), 1)]):
                return False
    return True


def dn_of(c, y, m, d):
    return atom("dn", D(("ymd", y, m, d)))


def era_year(c):
    y = c.number("y")
    if c.has("era"):
        e = c.word("era")
        if e == "be":
            y = sub(y, 543)
        elif e == "bc":
            y = neg(y)
    return y


YEAR4 = "[0-9]{4}"


def written_era(c):
    """four digits below 100 without an era (0050) are not covered by the property"""
    if not c.has("era") and c.st.cmp("<", c.number("y"), 100):
        raise Infeasible()


def month_name():
    cls = "parser::ENMonthNameParser"
    year = seq(" *[,-]? *", F("y", YEAR4), opt(" *", F("era", "BE|AD|BC")))

    def spec(c, r):
        m = month_value(c)
        has = c.has("y")
        st = c.st
        if has:
            y = era_year(c)
            written_era(c)
            if st.cmp("<", y, 1400) or st.cmp(">", y, 9999):
                c.check("years that can not be represented give no result", r is None, "a result is reported")
                return
        need(r, "month %d" % m)
        s = c.start(r)
        pairs = [("month", c.comp(s, "month"), m), ("mday", c.comp(s, "mday"), 1)]
        if has:
            pairs.append(("year", c.comp(s, "year"), y))
        c.equal("month name", pairs)
        certain(c, s, ("month",))
        certain(c, s, ("mday",), False)
        certain(c, s, ("year",), has)
        if not has:
            nearest(c, c.comp(s, "year"), m, 1, "nearest year")
        not_range(c, r)
    mon = F("mon", MONRE)
    tail = phrase
    pre = lambda x: tn.concat([R("(in|until|before) +"), tn.tagged(x, ("$", "phrase", "o"), ("$", "phrase", "c")), BLANKS])
    out = [("month with year", cls, tail(seq(mon, year)), spec, {"limit": 1500, "seconds": 120}),
           ("month after a word", cls, pre(seq(mon, opt(year))), spec, {"limit": 1500, "seconds": 150, "fm": True})]
    for i in range(4):
        ms = "|".join(MONRE.split("|jan")[0:1])
        out.append(("month alone, part %d" % (i + 1), cls, tail(F("mon", "|".join(month_res(k) for k in range(3 * i, 3 * i + 3)))), spec,
                    {"limit": 1500, "seconds": 120, "fm": True}))
    return out


MONPARTS = ["jan(uary|\\.)?", "feb(ruary|\\.)?", "mar(ch|\\.)?", "apr(il|\\.)?", "may\\.?", "jun(e|\\.)?", "jul(y|\\.)?", "aug(ust|\\.)?",
            "sep(\\.|t(\\.|ember)?)?", "oct(ober|\\.)?", "nov(\\.|ember)?", "dec(\\.|ember)?"]


def month_res(k):
    return MONPARTS[k]


ORDRE = "|".join(w.replace(" ", "[ -]") for w in ORD)


def day_value(c, tag):
    if c.has("dn" + tag):
        return c.number("dn" + tag)
    w = c.word("do" + tag)
    return ORDVAL[w.replace("-", " ")]


def day_field(tag, suffix="(st|nd|rd|th)?"):
    return alt(seq(F("dn" + tag, "[0-9]{1,2}"), suffix), F("do" + tag, ORDRE))


def month_day():
    cls = "parser::ENMonthNameMiddleEndianParser"
    mon = lambda: F("mon", "|".join(MONPARTS))
    wd = seq(F("wd", DAYRE), " *,? *")
    year = alt(seq("(-|/| *, *| +)", F("y", YEAR4)), seq("( *, *| +)", F("y", YEAR4), " *", F("era", "BE|AD|BC")))
    dnum = lambda t: seq(F("dn" + t, "[0-9]{1,2}"), "(st|nd|rd|th)?")
    dord = lambda t: F("do" + t, ORDRE)

    def spec(c, r):
        m = month_value(c)
        d = day_value(c, "")
        st = c.st
        has = c.has("y")
        y = era_year(c) if has else refc(c, "year")
        if has:
            written_era(c)
            ok = valid_date(c, y, m, d)
        else:
            if m == 2 and not (isinstance(d, int) and d != 29):
                if st.cmp("==", d, 29):
                    raise Infeasible()       # 29 February without a year: not covered by the property
            ok = not st.cmp("<", d, 1) and not st.cmp(">", d, 31)
            ok = ok and not st.cmp(">", d, {2: 28, 4: 30, 6: 30, 9: 30, 11: 30}.get(m, 31))
        rng = False
        if ok and (c.has("dn2") or c.has("do2")):
            rng = True
            d2 = day_value(c, "2")
            ry = y if has else None
            if ry is None:
                if m == 2 and st.cmp("==", d2, 29):
                    raise Infeasible()
                ok = not st.cmp("<", d2, 1) and not st.cmp(">", d2, {2: 28, 4: 30, 6: 30, 9: 30, 11: 30}.get(m, 31))
            else:
                ok = valid_date(c, y, m, d2)
        if not ok:
            c.check("days that do not exist give no result", r is None, "a result is reported for month %s day %s" % (m, show(d)))
            return
        need(r, "month %d and day" % m)
        s = c.start(r)
        pairs = [("month", c.comp(s, "month"), m), ("mday", c.comp(s, "mday"), d)]
        if has:
            pairs.append(("year", c.comp(s, "year"), y))
        if c.has("wd"):
            w = c.word("wd")
            pairs.append(("wday", c.comp(s, "wday"), [i for i, x in enumerate(DAYS) if x.startswith(w[:3])][0]))
            certain(c, s, ("wday",))
        certain(c, s, ("month", "mday"))
        if rng:
            c.check("a day range is a range", c.is_range(r), "no range is reported")
            e = c.end(r)
            pairs += [("end month", c.comp(e, "month"), m), ("end mday", c.comp(e, "mday"), d2), ("end year", c.comp(e, "year"), c.comp(s, "year")),
                      ("end hour", c.comp(e, "hour"), 23), ("end min", c.comp(e, "min"), 59)]
        else:
            not_range(c, r)
        c.equal("month and day", pairs)
        if not has:
            nearest(c, c.comp(s, "year"), m, d, "nearest year")
    o = {"limit": 2500, "seconds": 200, "fm": True}
    out = []
    for q in range(4):
        ms = F("mon", "|".join(MONPARTS[3 * q:3 * q + 3]))
        out.append(("month day, part %d" % (q + 1), cls, phrase(ms, "(-|/| *,? *)", dnum("")), spec, o))
        out.append(("month day year, part %d" % (q + 1), cls, phrase(ms, " +", dnum(""), year), spec, o))
        out.append(("month ordinal, part %d" % (q + 1), cls, phrase(ms, " +", dord("")), spec, o))
        out.append(("month day range, part %d" % (q + 1), cls, phrase(ms, " +", dnum(""), "( *- *| to )", dnum("2")), spec, o))
    short = F("mon", MONPARTS[3] + "|" + MONPARTS[9])
    out.append(("month day short year", cls, phrase(short, " +", dnum(""), "( *, *| +)", F("y", "[1-9][0-9]{0,2}"), " *", F("era", "AD|BC")), spec, o))
    out.append(("month ordinal short year", cls, phrase(short, " +", F("do", "first|ninth|twenty[ -]eighth"), "( *, *| +)", F("y", "[1-9][0-9]{0,2}"), " *", F("era", "AD|BC")), spec, o))
    out.append(("month ordinal year", cls, phrase(F("mon", MONPARTS[2] + "|" + MONPARTS[7]), " +", dord(""), " +", F("y", YEAR4)), spec, o))
    out.append(("weekday month day year", cls, phrase("(on +)?", wd, F("mon", MONPARTS[1] + "|" + MONPARTS[10]), " +", dnum(""), " *, *", F("y", YEAR4)), spec, o))
    out.append(("month day range year", cls, phrase(F("mon", MONPARTS[4] + "|" + MONPARTS[8]), " +", dnum(""), " +to +", dnum("2"), " *, *", F("y", YEAR4)), spec, o))
    out.append(("month ordinal range", cls, phrase(F("mon", MONPARTS[5] + "|" + MONPARTS[11]), " +", F("do", "first|tenth|twenty[ -]second"), " +to +", F("do2", "third|twelfth|thirty[ -]first")), spec, o))
    return out


# --------------------------------------------------------------------------- C25 / C26
MARK = "a\\.?m\\.?|p\\.?m\\.?|a|p"
MARKRE = "A\\.M\\.?|P\\.M\\.?|AM?|PM?"


def clock_fields(c, t):
    """(hour, minute) as written, before am/pm"""
    st = c.st
    if c.has("nm" + t):
        return (12, 0) if c.word("nm" + t) == "noon" else (0, 0)
    if c.has("hm" + t):
        v = c.number("hm" + t)
        return atom("div", v, 100) if isinstance(v, Lin) else v // 100, atom("mod", v, 100) if isinstance(v, Lin) else v % 100
    return c.number("h" + t), (c.number("m" + t) if c.has("m" + t) else 0)


def meridiem(c, h, m):
    st = c.st
    if m is None:
        return h
    if m == "a":
        return 0 if st.cmp("==", h, 12) else h
    return h if st.cmp("==", h, 12) else add(h, 12)


def mark(c, f):
    if not c.has(f):
        return None
    g = c.st.split(c.span(f), [tuple(x.encode() for x in ("a", "am", "a.m", "a.m.")), tuple(x.encode() for x in ("p", "pm", "p.m", "p.m."))], "marker")
    return "a" if b"a" in g else "p"


def clock_time():
    cls = "parser::ENTimeExpressionParser"
    T = lambda *p: tn.concat([tn.tagged(seq(*p), ("$", "phrase", "o"), ("$", "phrase", "c")), BLANKS])
    mk = lambda t="": opt(" *", F("ap" + t, MARKRE))
    hm = seq(F("h", "[0-9]{1,2}"), opt("[:.]", F("m", "[0-9]{1,2}")))
    hms = seq(F("h", "[0-9]{1,2}"), ":", F("m", "[0-9]{1,2}"), ":", F("s", "[0-9]{2}"))
    hmb = F("hm", "[0-9]{3,4}")

    def spec(c, r):
        st = c.st
        h, mi = clock_fields(c, "")
        ap = mark(c, "ap")
        sec = c.number("s") if c.has("s") else None
        bad = st.cmp(">", h, 24) or st.cmp(">", mi, 59) or (sec is not None and st.cmp(">", sec, 59)) or (ap is not None and st.cmp(">", h, 12))
        if bad:
            c.check("clock fields out of range give no result", r is None, "a result is reported for a clock time out of range")
            return
        need(r, "a clock time")
        s = c.start(r)
        h2 = meridiem(c, h, ap)
        pairs = [("hour", c.comp(s, "hour"), h2), ("min", c.comp(s, "min"), mi)] + dates(c, s, REF)
        names = ["hour", "min"]
        if sec is not None:
            pairs.append(("sec", c.comp(s, "sec"), sec))
            names.append("sec")
        else:
            certain(c, s, ("sec",), False)
        c.equal("clock time", pairs)
        certain(c, s, names)
        certain(c, s, ("year", "month", "mday"), False)
        not_range(c, r)
    o = {"limit": 3000, "seconds": 200}
    at = "((at|from) *)?"
    return [("hour and minute", cls, T(at, hm, mk()), spec, o), ("with seconds", cls, T(at, hms, mk()), spec, o),
            ("bare digits", cls, T(at, hmb, mk()), spec, o), ("noon and midnight", cls, T(at, F("nm", "noon|midnight")), spec, o),
            ("o'clock", cls, T(at, F("h", "0?[0-9]|1[0-2]"), " *o'clock"), spec, o)]


def clock_range():
    cls = "parser::ENTimeExpressionParser"
    T = lambda *p: tn.concat([tn.tagged(seq(*p), ("$", "phrase", "o"), ("$", "phrase", "c")), BLANKS])
    mk = lambda t: opt(" *", F("ap" + t, MARKRE))
    hm = lambda t: seq(F("h" + t, "[0-9]{1,2}"), opt(":", F("m" + t, "[0-9]{1,2}")))
    hms2 = seq(F("h2", "[0-9]{1,2}"), ":", F("m2", "[0-9]{1,2}"), ":", F("s2", "[0-9]{1,2}"))
    sep = "( *- *| +to +)"

    def spec(c, r):
        st = c.st
        h, mi = clock_fields(c, "")
        ap, ap2 = mark(c, "ap"), mark(c, "ap2")
        sec = c.number("s") if c.has("s") else None
        if st.cmp(">", h, 24) or st.cmp(">", mi, 59) or (sec is not None and st.cmp(">", sec, 59)) or (ap is not None and st.cmp(">", h, 12)):
            c.check("an invalid start gives no range", r is None or not c.is_range(r), "a range is reported although its start is invalid")
            return
        need(r, "a clock range")
        s = c.start(r)
        h2, m2 = clock_fields(c, "2")
        sec2 = c.number("s2") if c.has("s2") else None
        hs = meridiem(c, h, ap)
        bad = st.cmp(">", h2, 24) or st.cmp(">", m2, 59) or (sec2 is not None and st.cmp(">", sec2, 59)) or (ap2 is not None and st.cmp(">", h2, 12))
        if bad:
            c.check("an invalid end gives no range", not c.is_range(r), "a range with an invalid end is reported")
            return
        if ap2 is not None:
            he = meridiem(c, h2, ap2)
            if ap is None and ap2 == "p":
                if st.cmp(">", h, 0) and st.cmp("<", h, 12):
                    hs = add(h, 12)
        elif ap == "a":
            he = 0 if st.cmp("==", h2, 12) else h2
        elif ap == "p":
            he = add(h2, 12) if st.cmp(">", h2, 0) and st.cmp("<", h2, 12) else h2
        else:
            he = h2
        c.check("both times are reported", c.is_range(r), "no range is reported")
        e = c.end(r)
        pairs = [("start hour", c.comp(s, "hour"), hs), ("start min", c.comp(s, "min"), mi), ("end hour", c.comp(e, "hour"), he), ("end min", c.comp(e, "min"), m2)]
        pairs += dates(c, s, REF) + [("end " + a, b, x) for a, b, x in dates(c, e, REF)]
        if sec2 is not None:
            pairs.append(("end sec", c.comp(e, "sec"), sec2))
        if sec is not None:
            pairs.append(("start sec", c.comp(s, "sec"), sec))
        c.equal("clock range", pairs)
        certain(c, s, ("hour", "min"))
        certain(c, e, ("hour", "min"))
        certain(c, e, ("year", "month", "mday"), False)
    o = {"limit": 4000, "seconds": 240, "cover": "range"}
    out = []
    for a, ma in (("no marker", R("")), ("am", seq(" *", F("ap", "A\\.M\\.?|AM?"))), ("pm", seq(" *", F("ap", "P\\.M\\.?|PM?")))):
        for b, mb in (("no marker", R("")), ("am", seq(" *", F("ap2", "A\\.M\\.?|AM?"))), ("pm", seq(" *", F("ap2", "P\\.M\\.?|PM?")))):
            out.append(("start %s, end %s" % (a, b), cls, T(hm(""), ma, sep, hm("2"), mb), spec, o))
    out.append(("with seconds", cls, T(F("h", "[0-9]{1,2}"), ":", F("m", "[0-9]{2}"), ":", F("s", "[0-9]{2}"), sep, hms2), spec, o))
    out.append(("from noon", cls, T("(from )?", F("nm", "noon|midnight"), sep, hm("2"), mk("2")), spec, o))
    out.append(("bare digits to", cls, T(F("hm", "[0-9]{3,4}"), " to ", F("hm2", "[0-9]{3,4}")), spec, o))
    return out


# --------------------------------------------------------------------------- C27
HOLIDAYS = [("independence", ("fix", 7, 4)), ("presidents|president's|presidents'", ("ndow", 3, 1, 2)), ("new *years|new *year's", ("fix", 1, 1)),
            ("new *years eve|new *year's eve", ("fix", 12, 31)), ("columbus", ("ndow", 2, 1, 10)), ("mlk", ("ndow", 3, 1, 1)),
            ("martin *luther *king *(junior|jr|jnr)", ("ndow", 3, 1, 1)), ("thanksgiving", ("ndow", 4, 4, 11)), ("memorial", ("ldow", 1, 5)),
            ("labor", ("ndow", 1, 1, 9)), ("veterans|veteran's", ("fix", 11, 11)), ("christmas", ("fix", 12, 25)), ("christmas eve", ("fix", 12, 24)),
            ("black *friday", ("bf",))]


def holiday():
    cls = "parser::ENHolidayParser"
    out = []
    for name, df in HOLIDAYS:
        def spec(c, r, df=df, name=name):
            need(r, name)
            y = refc(c, "year")
            s = c.start(r)
            if df[0] == "fix":
                c.equal(name, [("year", c.comp(s, "year"), y), ("month", c.comp(s, "month"), df[1]), ("mday", c.comp(s, "mday"), df[2])])
            else:
                if df[0] == "bf":
                    d = D(("ndow", 4, 4, 11, y)).plus("d", 1)
                else:
                    d = D(df + (y,))
                c.equal(name, dates(c, s, d) + [("wday", c.comp(s, "wday"), cal.proj(c.st, "dow", d))])
            certain(c, s, ("year", "month", "mday"))
            not_range(c, r)
        if name.startswith("presidents"):
            name = "president's"
        if name.startswith("new *years|"):
            name = "new *year's"
        if name.startswith("new *years eve"):
            name = "new *year's *eve"
        if name == "christmas eve":
            name = "christmas *eve"
        out.append((name, cls, phrase(F("w", name), "( +day)?"), spec, {}))
    return out
