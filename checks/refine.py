"""Refiners (properties C28-C32): lists of symbolic results over a symbolic text, refined by the analysed classes.

The text is  any r0 gap0 r1 gap1 ... any  where every part is arbitrary; the results' positions and texts are the
parts' own.  Components are symbolic calendar and clock values."""
from sa.scn import *
from sa import tn, rx, state, cal, interp
from sa.prog import AnalysisError
from sa.val import *
from data import Api, NAMES, RESULT, agree_result, tag_values

REF1 = "refiners::Refiner"


def refiner(prog, *names):
    cs = prog.derived(REF1)
    for n in names:
        for c in cs:
            if c.split("::")[-1] == n:
                return c
    raise AnalysisError("anchor vanished: refiner " + names[0])


def refine(a, cls, rs, text):
    v = Vec("vector", RESULT, [Cell(a.it.copy(r.v)) for r in rs])
    o = a.it.default(cls)
    if not isinstance(o, Obj):
        raise AnalysisError("anchor vanished: class " + cls)
    out = a.it.call_named(Cell(o), cls, "refine", [v, text])
    out = a.it.load(out) if isinstance(out, Cell) else out
    if not isinstance(out, Vec):
        raise Undecided("refined list")
    return out.e


def text_lang(n, first=None, last=None, gaps=None):
    anyt, some = tn.anything(), R(r"[\s\S]+")
    ps = [first or anyt]
    for i in range(n):
        if i:
            ps.append(tn.tagged(gaps[i - 1] if gaps else anyt, ("$", "g%d" % i, "o"), ("$", "g%d" % i, "c")))
        ps.append(tn.tagged(some, ("$", "r%d" % i, "o"), ("$", "r%d" % i, "c")))
    ps.append(last or anyt)
    return tn.concat(ps)


def run_refiner(shared, name, body, limit=4000, seconds=120):
    task = Task(name, limit, seconds)

    def run(st):
        st.fm = True
        a = Api(shared, st, task)
        try:
            body(a)
        except Throw as x:
            raise Fail("no exception escapes", "refining throws %s" % x)
    return explore_task(task, run)


def bounded(a, name, lo, hi):
    v = atom("sym", name)
    if a.st.range_of(v) == (None, None):
        a.st.bound(v, lo, hi)
    return v


# --------------------------------------------------------------------------- building results
def day_of(a, k):
    """an arbitrary day"""
    return REF.plus("d", bounded(a, "days%s" % k, -100000, 100000))


def clock_of(a, k):
    return {"hour": bounded(a, "h%s" % k, 0, 23), "min": bounded(a, "mi%s" % k, 0, 59), "sec": bounded(a, "s%s" % k, 0, 59)}


def comps(a, cell, k, day, clock, stated, tz=None):
    """fill components; `stated` is the set of stated ones, the others are implied"""
    st = a.st
    v = {"year": cal.proj(st, "year", day), "month": cal.proj(st, "month", day), "mday": cal.proj(st, "day", day), "wday": cal.proj(st, "dow", day)}
    v.update(clock)
    m = {}
    for n in NAMES:
        if n == "tzoffset":
            if tz == "S":
                x = bounded(a, "tz%s" % k, -1440, 1440)
                a.set(cell, n, x)
                m[n] = (True, x)
            else:
                m[n] = (a.certain(cell, n), a.value(cell, n))
            continue
        if n in stated:
            a.set(cell, n, v[n])
        else:
            a.imply(cell, n, v[n])
        m[n] = (n in stated, v[n])
    return m


DATE = {"year", "month", "mday", "wday"}
KINDS = {
    "date": {"month", "mday"},
    "full date": DATE,
    "month": {"month"},
    "day of month": {"mday"},
    "weekday": {"wday"},
    "time": {"hour", "min"},
    "time with seconds": {"hour", "min", "sec"},
    "date and time": {"month", "mday", "hour", "min"},
    "casual": set(),
}


def date_only(kind):
    return "hour" not in KINDS[kind]


def time_only(kind):
    return not KINDS[kind] & {"month", "mday"}


def result(a, i, kind, end=False, tags=(), tz=None, day=None, clock=None, day2=None, clock2=None, light=False):
    """result number i of the text: -> (cell, model)"""
    st = a.st
    sp = Span(0, ("$", "r%d" % i, "o"), ("$", "r%d" % i, "c"))
    r = a.new(RESULT)
    idx = st.norm_pos(st.P(0, sp.o))
    st.bound(add(idx, a.it.lib.length(sp)), 0, 10 ** 9)
    if light:
        day = REF.plus("d", 10 * i)
        clock = {"hour": 10 + i, "min": 0, "sec": 0}
        day2, clock2 = day.plus("d", 5), clock
    a.call(r, "setIndex", idx)
    a.call(r, "setText", sp)
    for t in tags:
        a.call(r, "setTag", t)
    m = {"index": idx, "text": sp, "tags": set(tags), "end": end, "kind": kind}
    m["day"] = day = day or day_of(a, i)
    m["clock"] = clock = clock or clock_of(a, i)
    m["start"] = comps(a, r.v.f["startDate"], "%d" % i, day, clock, KINDS[kind], tz)
    m["enddate"] = None
    if end:
        m["day2"] = day2 or (day if KINDS[kind] & {"hour"} else day.plus("d", bounded(a, "len%d" % i, 0, 5000)))
        m["clock2"] = clock2 or clock_of(a, "%de" % i)
        m["enddate"] = comps(a, r.v.f["endDate"], "%de" % i, m["day2"], m["clock2"], KINDS[kind], tz)
        a.call(r, "makeEndDateValid")
    return r, m


def cover(a, r):
    """(position, end) of a result"""
    i, n = a.call(r, "getIndex"), a.call(r, "textLength")
    return a.st.norm_pos(i), a.st.norm_pos(add(i, n))


def segments(a, outs, ms, rule):
    """which inputs every output stands for; every input exactly once, in order"""
    st = a.st
    starts = [st.norm_pos(st.P(0, m["text"].o)) for m in ms]
    ends = [st.norm_pos(st.P(0, m["text"].c)) for m in ms]
    seg, nxt = [], 0
    for r in outs:
        a.task.obligations += 1
        s, e = cover(a, r)
        i = [k for k in range(len(ms)) if is0(st, sub(s, starts[k]))]
        j = [k for k in range(len(ms)) if is0(st, sub(e, ends[k]))]
        if not i or not j:
            raise Fail(rule, "a result covers neither one of the given results nor exactly two merged ones (position %s, end %s)" % (show(s), show(e)))
        if i[0] != nxt or j[0] < i[0]:
            raise Fail(rule, "the output covers results %s, expected to go on with result %d" % (list(range(i[0], j[0] + 1)), nxt))
        seg.append((i[0], j[0]))
        nxt = j[0] + 1
    a.task.obligations += 1
    if nxt != len(ms):
        raise Fail(rule, "result %d of %d is lost" % (nxt, len(ms)))
    return seg


def is0(st, x):
    x = st.norm_pos(x)
    return x == 0 or st.range_of(x) == (0, 0)


def gap(a, i):
    return Span(0, ("$", "g%d" % i, "o"), ("$", "g%d" % i, "c"))


def is_gap(a, i, lang, what):
    return a.st.pred(gap(a, i), lang, what)


# --------------------------------------------------------------------------- C28
def c28(shared, n):
    cls = refiner(shared.prog, "OverlapRemover", "OverlapRemovalRefiner")
    tags = tag_values(shared.prog)
    vals = sorted(tags.values())

    def body(a):
        st = a.st
        pos, rs, ms = 0, [], []
        ln = []
        for i in range(n):
            pos = add(pos, bounded(a, "step%d" % i, 0, 10 ** 6))
            l = bounded(a, "length%d" % i, 1, 10 ** 6)
            r = a.new(RESULT)
            a.call(r, "setIndex", pos)
            t = OpStr("lentext", l)
            a.call(r, "setText", t)
            a.call(r, "setTag", vals[i])
            end = bool(i % 2)
            m = {"index": pos, "text": t, "tags": {vals[i]}, "end": end, "enddate": None}
            kind = list(KINDS)[i]
            if n <= 2:
                m["start"] = comps(a, r.v.f["startDate"], i, day_of(a, i), clock_of(a, i), KINDS[kind])
            else:
                m["start"] = {}
            if end:
                m["enddate"] = comps(a, r.v.f["endDate"], "%de" % i, day_of(a, "%de" % i), clock_of(a, "%de" % i), KINDS[kind]) if n <= 2 else {}
                a.call(r, "makeEndDateValid")
            rs.append(r)
            ms.append(m)
            ln.append(l)
        outs = refine(a, cls, rs, OpStr("text", 0))
        rule = "overlap removal keeps the longest"
        kept, nxt = [], 0
        for r in outs:
            got = [i for i in range(n) if a.it.truth(a.call(r, "getTag", vals[i]))]
            a.task.obligations += 1
            if len(got) != 1 or got[0] < nxt:
                raise Fail(rule, "the output is no subsequence of the given results")
            agree_result(a, "a surviving result is unchanged", r, ms[got[0]], tags, "result %d" % got[0])
            kept.append(got[0])
            nxt = got[0] + 1
        ends = [add(m["index"], l) for m, l in zip(ms, ln)]

        def over(i, j):      # i < j
            return st.cmp("<", ms[j]["index"], ends[i])

        def wins(i, j):
            """i is preferred to j"""
            return st.cmp(">=", ln[i], ln[j]) if i < j else st.cmp(">", ln[i], ln[j])
        when = [x for m in ms for x in (m["index"],)] + ln
        for x, y in zip(kept, kept[1:]):
            a.task.obligations += 1
            if over(x, y):
                raise Fail(rule, "results %d and %d overlap and both survive" % (x, y), when=when)
        for i in range(n):
            a.task.obligations += 1
            rivals = [j for j in range(n) if j != i and (over(i, j) if i < j else over(j, i))]
            if i not in kept:
                if not any(wins(j, i) for j in rivals):
                    raise Fail(rule, "result %d is lost although %s" % (i, "no result overlaps it" if not rivals else "it is the longest (or the first of the longest) among those that overlap it"), when=when)
            elif n == 2 and rivals and len(kept) == 1 and not wins(i, rivals[0]):
                raise Fail(rule, "result %d survives, result %d is longer" % (i, rivals[0]), when=when)
    return run_refiner(shared, "%d results" % n, body)


# --------------------------------------------------------------------------- C29
JOIN = rx.parse(rb"\s*(T|at|on|of|,|-)?\s*", True)[0]
RANGE = rx.parse(rb"\s*(and|to|through|-)\s*", True)[0]


def lang(ast):
    return tn.determinize(tn.from_regex(ast))


def pick(a, xs, what):
    return xs[a.st.choose(len(xs), what)]


def merged_clock(a, base, t):
    """clock fields of a merged result: model of the date's components, model of the time's components"""
    m = dict(base)
    sure = t["hour"][0]
    m["hour"], m["min"] = (sure, t["hour"][1]), (sure, t["min"][1])
    m["sec"] = (sure and t["sec"][0], t["sec"][1])
    if t["tzoffset"][0]:
        m["tzoffset"] = t["tzoffset"]
    return m


def shifted(a, m, day):
    """m moved to another day; the weekday of the moved end is left open"""
    st = a.st
    x = {n: v for n, v in m.items() if n != "wday"}
    for n, w in (("year", "year"), ("month", "month"), ("mday", "day")):
        x[n] = (m[n][0], cal.proj(st, w, day))
    return x


def secs(c):
    return add(add(scale(c["hour"], 3600), scale(c["min"], 60)), c["sec"])


def content(a, r, m, tags, what, rule, tagset):
    """like agree_result, for a merged result"""
    a.task.obligations += 1
    got = a.it.truth(a.call(r, "end"))
    if got != m["end"]:
        raise Fail(rule, "%s: the merged result is %s range" % (what, "a" if got else "no"))
    pairs = []

    def side(c, mm, nm):
        for n in NAMES:
            if n not in mm:
                continue
            a.task.obligations += 1
            ce = a.certain(c, n)
            if ce != mm[n][0]:
                raise Fail(rule, "%s: %s of the %s is %scertain" % (what, n, nm, "" if ce else "not "))
            pairs.append(("%s of the %s" % (n, nm), a.value(c, n), mm[n][1]))
    side(r.v.f["startDate"], m["start"], "start")
    if m["end"]:
        side(r.v.f["endDate"], m["enddate"], "end")
    Ctx(a.task, a.st, a.it).equal(rule, pairs)
    for n, t in sorted(tags.items()):
        a.task.obligations += 1
        g = a.it.truth(a.call(r, "getTag", t))
        if g != (t in tagset):
            raise Fail("a merged result carries the tags of both sources and the refiner's", "%s: tag %s is %s" % (what, n, "set" if g else "missing"))


DT_PAIRS = [("date", "time"), ("full date", "time with seconds"), ("weekday", "time"), ("time", "date"), ("time with seconds", "full date"), ("date", "casual"),
            ("casual", "date"), ("casual", "casual"), ("month", "time"), ("date and time", "time"), ("date", "date"), ("time", "time"), ("date", "date and time"),
            ("date and time", "casual"), ("casual", "time"), ("time", "weekday"), ("casual", "date and time"),
            ("date", "month"), ("month", "date"), ("month", "month"), ("time", "month"), ("day of month", "time"), ("date", "day of month"), ("day of month", "casual")]


def roles(prev, curr):
    """(date, time) as 0/1, or None"""
    if date_only(prev) and time_only(curr):
        return 0, 1
    if date_only(curr) and time_only(prev):
        return 1, 0
    return None


def tag_sets(a, vals, how):
    """the tags of two results: one each by default, else halves of all tags or every single one on its own"""
    if how == "one each":
        return (vals[0],), (vals[1],)
    if how == "halves":
        x, y = tuple(vals[::2]), tuple(vals[1::2])
        return (x, y) if a.st.choose(2, "which half") else (y, x)
    k = a.st.choose(2 * len(vals), "tag")
    return (((vals[k // 2],), ()), ((), (vals[k // 2],)))[k % 2]


def c29(shared, pair, ranges, tz, how="one each"):
    cls = refiner(shared.prog, "ENMergeDateAndTime", "ENMergeDateAndTimeRefiner")
    tags = tag_values(shared.prog)
    vals = sorted(tags.values())
    join = lang(JOIN)
    rule = "a merged result has the date's calendar fields and the time's clock fields"

    def body(a):
        st = a.st
        text = st.new_text(text_lang(2))
        rs, ms = [], []
        ts = tag_sets(a, vals, how)
        for i, k in enumerate(pair):
            r, m = result(a, i, k, i in ranges, ts[i], "S" if i in tz else None, light=how != "one each")
            rs.append(r)
            ms.append(m)
        outs = refine(a, cls, rs, text)
        seg = segments(a, outs, ms, "every result appears exactly once, in order")
        ro = roles(*pair)
        can = ro is not None and is_gap(a, 1, join, "the text between is blank or a joining word")
        a.task.obligations += 1
        if (seg == [(0, 1)]) != bool(can):
            raise Fail("a date and a time are merged exactly when only a joining word stands between",
                       "%s and %s are %s" % (pair[0], pair[1], "merged" if seg == [(0, 1)] else "not merged"))
        if seg != [(0, 1)]:
            for r, m in zip(outs, ms):
                agree_result(a, "an unmerged result is unchanged", r, m, tags, "unmerged")
            return
        d, t = ms[ro[0]], ms[ro[1]]
        m = {"start": merged_clock(a, d["start"], t["start"]), "end": d["end"] or t["end"]}
        if m["end"]:
            m["enddate"] = merged_clock(a, d["enddate"] if d["end"] else d["start"], t["enddate"] if t["end"] else t["start"])
            if not d["end"] and t["end"] and st.cmp("<", secs(t["clock2"]), secs(t["clock"])):
                m["enddate"] = shifted(a, m["enddate"], d["day"].plus("d", 1))
        own = tags["ENMergeDateAndTimeRefiner"]
        content(a, outs[0], m, tags, "%s and %s" % pair, rule, {*ts[0], *ts[1], own})
    nm = "%s + %s%s%s" % (pair[0], pair[1], " range:%s" % (sorted(ranges),) if ranges else "", " tz:%s" % (sorted(tz),) if tz else "") + (" tags: " + how if how != "one each" else "")
    return run_refiner(shared, nm, body)


# --------------------------------------------------------------------------- C30
def c30(shared, kinds, ranges, how="one each"):
    cls = refiner(shared.prog, "ENMergeDateRange", "ENMergeDateRangeRefiner")
    tags = tag_values(shared.prog)
    vals = sorted(tags.values())
    word = lang(RANGE)
    rule = "a merged range goes from the earlier to the later date"

    def body(a):
        st = a.st
        text = st.new_text(text_lang(2))
        rs, ms = [], []
        ts = tag_sets(a, vals, how)
        for i, k in enumerate(kinds):
            r, m = result(a, i, k, i in ranges, ts[i], light=how != "one each")
            rs.append(r)
            ms.append(m)
        outs = refine(a, cls, rs, text)
        seg = segments(a, outs, ms, "every result appears exactly once, in order")
        can = not ranges and is_gap(a, 1, word, "the text between is a range word")
        a.task.obligations += 1
        if (seg == [(0, 1)]) != bool(can):
            raise Fail("two single dates are merged exactly when only a range word stands between", "they are %s" % ("merged" if seg == [(0, 1)] else "not merged"))
        if seg != [(0, 1)]:
            for r, m in zip(outs, ms):
                agree_result(a, "an unmerged result is unchanged", r, m, tags, "unmerged")
            return
        p, q = [add(scale(cal.dn(m["day"]), 86400), secs(m["clock"])) for m in ms]
        lo, hi = (0, 1) if st.cmp("<=", p, q) else (1, 0)
        m = {"start": ms[lo]["start"], "end": True, "enddate": ms[hi]["start"]}
        content(a, outs[0], m, tags, "%s and %s" % tuple(kinds), rule, {*ts[0], *ts[1], tags["ENMergeDateRangeRefiner"]})
    return run_refiner(shared, "%s to %s%s" % (kinds[0], kinds[1], " range:%s" % (sorted(ranges),) if ranges else "") + (" tags: " + how if how != "one each" else ""), body)


# --------------------------------------------------------------------------- C31
ZONE_SETS = 6
FEW = ("EST", "GMT", "NPT", "CHADT", "ET")


def c31(shared, what, end, tz, n=1, which=0, part=None):
    """what follows result `which`: a zone (of a part of the list), an unknown word, something else"""
    from tables import zones
    cls = refiner(shared.prog, "ExtractTimeZoneAbbreviation", "ExtractTimeZoneAbbreviationRefiner")
    tags = tag_values(shared.prog)
    vals = sorted(tags.values())
    tx, tg = tags["ENTimeExpressionParser"], tags["ExtractTimeZoneAbbreviation"]
    need, _ = zones()
    table = {}
    for k, v in need.items():
        table.setdefault(tuple(v), []).append(k)
    ws = "|".join(sorted(need))
    mid = "" if n == 2 and which == 0 else "?"       # another result follows at once: something has to separate them
    rest = r"(?:[^A-Za-z0-9_)][\s\S]*)" + mid
    if what == "zone":
        if part is None:
            table = {v: [k for k in ks if k in FEW] for v, ks in table.items()}
        else:
            table = {v: ks for j, (v, ks) in enumerate(sorted(table.items())) if j % ZONE_SETS == part}
        table = {v: ks for v, ks in table.items() if ks}
        ws = "|".join(sorted(k for ks in table.values() for k in ks))
        after = tn.concat([R(r"\s*\(?"), F("zone", ws), F("close", r"\)?"), R(rest)])
    elif what == "unknown":
        d = tn.from_regex(rx.parse(r"[A-Za-z]{2,5}".encode(), False)[0])
        bad = tn.determinize(R(ws))
        after = tn.concat([R(r"\s*\(?"), tn.tagged(tn.restrict(d, tn.START_M, tn.END_M, state.compl(bad)), ("$", "zone", "o"), ("$", "zone", "c")), R(r"\)?"), R(rest)])
    elif what == "longer word":
        after = tn.concat([R(r"\s*\(?(?:%s)[A-Za-z0-9_][\s\S]*" % "EST|GMT|JST|CET")])
    else:
        after = R(r"(?:\s*\(?(?:[0-9.,;:!?-][\s\S]*)%s)" % mid)

    def body(a):
        st = a.st
        timed = True if what == "zone" and n == 1 else bool(a.st.choose(2, "a clock time"))
        if n == 1:
            lg = text_lang(1, last=after)
        else:
            plain = R(r"\s*[;,:][\s\S]*")
            lg = text_lang(2, gaps=[plain], last=after) if which == 1 else text_lang(2, gaps=[after], last=plain)
        text = st.new_text(lg)
        rs, ms = [], []
        for i in range(n):
            mine = i == which
            tz_i = tz if mine else None
            ts = (tx,) if (timed if mine else not timed) else (vals[0], tags["ENISOFormatParser"])
            r, m = result(a, i, "time" if mine else "date", end and mine, ts)
            for side in ("startDate", "endDate"):
                if tz_i and side[0] in tz_i:
                    v = bounded(a, "tz" + side, -1440, 1440)
                    a.set(r.v.f[side], "tzoffset", v)
                    m["start" if side == "startDate" else "enddate"]["tzoffset"] = (True, v)
            rs.append(r)
            ms.append(m)
        outs = refine(a, cls, rs, text)
        a.task.obligations += 1
        if len(outs) != n:
            raise Fail("every result appears exactly once, in order", "%d results become %d" % (n, len(outs)))
        for i in range(n):
            r, m = outs[i], dict(ms[i])
            if i != which or not (timed and what == "zone"):
                agree_result(a, "other results and unknown abbreviations are left untouched", r, m, tags, "%s after %s" % (what, "a clock time" if timed else "another result"))
                continue
            g = st.split(Span(0, ("$", "zone", "o"), ("$", "zone", "c"), "upper"), [[w.encode() for w in ks] for ks in table.values()], "zone")
            if g is None:
                raise Undecided("zone")
            want = next(v for v, ks in table.items() if [w.encode() for w in ks] == list(g))
            for side, key in (("startDate", "start"), ("endDate", "enddate"))[:2 if end else 1]:
                had = m[key]["tzoffset"]
                m[key] = dict(m[key])
                if had[0]:
                    continue
                v = a.value(r.v.f[side], "tzoffset")
                a.task.obligations += 1
                if not isinstance(v, int) or v not in want:
                    raise Fail("the zone's offset is set", "%s gives the %s an offset of %s instead of %s" % (g[0].decode(), key, show(v), want))
                m[key]["tzoffset"] = (True, v)
            stated = ms[i]["start"]["tzoffset"][0]
            a.agree("everything but the offset is kept", r.v.f["startDate"], m["start"], "start")
            if end:
                a.agree("everything but the offset is kept", r.v.f["endDate"], m["enddate"], "end")
            if stated:
                continue
            a.task.obligations += 3
            if not a.it.truth(a.call(r, "getTag", tg)):
                raise Fail("a result whose zone is recognised is marked", "the tag is missing")
            s, e = cover(a, r)
            ok = [st.P(0, ("$", "zone", "c")), st.P(0, ("$", "close", "c"))]
            if not is0(st, sub(s, m["index"])):
                raise Fail("the result keeps its position", "position becomes %s" % show(s))
            if not any(is0(st, sub(e, x)) for x in ok):
                raise Fail("the result's text is extended over the abbreviation", "the text ends at %s" % show(e))
            for nm, t in sorted(tags.items()):
                if t != tg and a.it.truth(a.call(r, "getTag", t)) != (t in m["tags"]):
                    raise Fail("the other tags are kept", "tag %s" % nm)
    return run_refiner(shared, "%s%s%s%s%s" % (what, "" if part is None else " (part %d of the list)" % (part + 1), " range" if end else "", " stated:%s" % tz if tz else "", " result %d of %d" % (which, n) if n > 1 else ""), body, seconds=200)


# --------------------------------------------------------------------------- C32
def c32(shared, name, n):
    cls = {"date and time": lambda: refiner(shared.prog, "ENMergeDateAndTime", "ENMergeDateAndTimeRefiner"),
           "date range": lambda: refiner(shared.prog, "ENMergeDateRange", "ENMergeDateRangeRefiner"),
           "timezone": lambda: refiner(shared.prog, "ExtractTimeZoneAbbreviation", "ExtractTimeZoneAbbreviationRefiner")}[name]()
    tags = tag_values(shared.prog)
    vals = sorted(tags.values())

    def body(a):
        st = a.st
        if name == "timezone" and n > 1:
            few = R(r"\s*\(?(?:EST|NPT|QQ)?\)?[;.]")
            text = st.new_text(text_lang(n, gaps=[few] * (n - 1), last=few))
        else:
            text = st.new_text(text_lang(n))
        rs, ms = [], []
        for i in range(n):
            k = pick(a, ["date", "time", "date and time"] if name == "date and time" else ["date"], "kind of result %d" % i)
            e = bool(a.st.choose(2, "range")) if name == "date range" else False
            ts = (vals[i],) if name != "timezone" else ((tags["ENTimeExpressionParser"],) if a.st.choose(2, "clock time") else (vals[0],))
            r, m = result(a, i, k, e, ts, light=n > 2)
            rs.append(r)
            ms.append(m)
        outs = refine(a, cls, rs, text)
        rule = "every result appears exactly once, in order"
        if name == "timezone":
            a.task.obligations += 1
            if len(outs) != n:
                raise Fail(rule, "%d results become %d" % (n, len(outs)))
            for r, m in zip(outs, ms):
                a.task.obligations += 1
                if not is0(st, sub(a.call(r, "getIndex"), m["index"])):
                    raise Fail(rule, "the order or position changes")
            seg = [(i, i) for i in range(n)]
        else:
            seg = segments(a, outs, ms, rule)
        mod = tags["ExtractTimeZoneAbbreviation"]
        for r, (i, j) in zip(outs, seg):
            a.task.obligations += 1
            if name != "timezone":
                for k in range(n):
                    if a.it.truth(a.call(r, "getTag", vals[k])) != (i <= k <= j):
                        raise Fail(rule, "an output mixes up the results it stands for")
            if i == j and not (name == "timezone" and a.it.truth(a.call(r, "getTag", mod))):
                agree_result(a, "an unmerged result is unchanged", r, ms[i], tags, "result %d of %d" % (i, n))
    return run_refiner(shared, "%s, %d results" % (name, n), body, limit=6000, seconds=200)
