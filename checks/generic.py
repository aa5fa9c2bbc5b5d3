"""Analyses of the scan itself and of every parser on arbitrary text (properties C05-C10, C13, C14, C36)."""
import random
from sa.scn import *
from sa import tn, rx, state, srch
from sa.prog import AnalysisError

ANY = tn.anything()


class Stop(Exception):
    """the part of the path under study is complete"""


def parsers(prog):
    cs = sorted(c for c in prog.derived("parser::Parser"))
    if not cs:
        raise AnalysisError("anchor vanished: classes derived from parser::Parser")
    return cs


def own_execute(prog):
    """the distinct scan loops: {qualified name: [classes using it]}"""
    out = {}
    for c in parsers(prog):
        fs = [f for f in prog.method(c, "execute") if len(f["params"]) == 2]
        if not fs:
            raise AnalysisError("anchor vanished: execute of " + c)
        out.setdefault(fs[0]["qn"], []).append(c)
    return out


def extract_of(prog, cls):
    fs = [f for f in prog.method(cls, "extract") if len(f["params"]) == 4]
    if not fs:
        raise AnalysisError("anchor vanished: extract of " + cls)
    return fs[0]


def mk_scan(shared, st, cls, text, opts, ext=None, idx=None):
    """interpret cls::execute; `ext(it, real, this, args)` replaces extract.  -> (it, run function, reference cell)"""
    st.opts.update(opts)
    it = interp.Interp(shared, st)
    f = extract_of(shared.prog, cls)
    if ext is not None:
        def hook(it2, f2, this, args):
            return ext(it2, f2, this, args)
        for c in [cls] + shared.prog.bases(cls):
            it.hooks[c + "::extract"] = hook
    o = it.default(cls)
    if not isinstance(o, Obj):
        raise AnalysisError("anchor vanished: class " + cls)
    txt = Cell(text, "text")
    ref = Cell(REFPT, "ref")

    def go():
        r = it.call_named(Cell(o), cls, "execute", [txt, ref])
        return it.load(r) if isinstance(r, Cell) else r
    return it, go, ref


def real(it, f, this, args):
    """call the analysed extract although it is hooked"""
    h = it.hooks.pop(f["qn"])
    try:
        return it.call(f, this, args)
    finally:
        it.hooks[f["qn"]] = h


# --------------------------------------------------------------------------- one extraction on arbitrary text
class First:
    """interprets execute up to the end of the first loop iteration; collects what was reported"""

    def __init__(self, shared, st, cls, opts, symidx=False, text=None, gate=True):
        self.pushed, self.after, self.res, self.match, self.extracted = [], False, None, None, False
        self.st = st

        def ext(it, f, this, args):
            if self.extracted:
                raise Stop()
            self.extracted = True
            st.opts.pop("nofold", None)
            m = it.load(args[1])
            self.match = m
            if symidx:
                args = list(args)
                args[3] = atom("sym", "idx")
                if st.cmp("<", args[3], 0) or st.cmp(">", args[3], 10 ** 9):
                    raise Infeasible()
            try:
                self.res = real(it, f, this, args)
            finally:
                self.after = True
            return self.res

        def push(it, vec, v):
            if self.after:
                self.pushed.append(v)

        def rgx(lib, strv, re, mode, mcell):
            if self.after and not self.nested:
                raise Stop()
        self.nested = False
        o = {"approx": True, "onpush": push, "onregex": rgx}
        o.update(opts)
        self.it, self.go, self.ref = mk_scan(shared, st, cls, st.new_text(text or ANY), o, ext)

    def run(self):
        try:
            r = self.go()
        except Stop:
            r = None
        self.result = r
        return self


def first_iteration(shared, name, cls, spec, opts=None, limit=1500, seconds=40, symidx=False, text=None, partial=False):
    """spec(ctx, run) is asked about every path class; with `partial` also about paths the analysis had to give up on.
    On arbitrary text the groups of a match are over-approximated: an alarm found there counts only when the analysis,
    narrowed to one text of the path class (where nothing is approximated), finds it again."""
    task = Task(name, limit, seconds)
    cand = []

    def body_for(t, o):
        def body(st):
            run = First(shared, st, cls, o, symidx, t)
            c = Ctx(task, st, run.it)
            run.threw, run.gave_up = None, False
            try:
                run.run()
            except Throw as x:
                run.threw = x
            except Undecided:
                if partial:
                    run.gave_up = True
                    spec(c, run)
                raise
            spec(c, run)
            return c
        return body
    o = dict(opts or {})
    if text is not None:
        o["approx"] = False
        return explore_task(task, body_for(text, o))
    inner = body_for(None, o)

    def wide(st):
        try:
            return inner(st)
        except Fail as f:
            if sum(1 for c in cand if c[0] == f.rule) < 12:
                rnd = random.Random(7)
                ws = set()
                try:
                    ws.add(tn.sample(st.roots[0]))
                    for _ in range(5):
                        ws.add(tn.random_word(st.roots[0], rnd)[0])
                except Exception:
                    pass
                cand.append((f.rule, [w for w in ws if w is not None and len(w) < 200]))
            return None
    explore_task(task, wide)
    stats = task.stats
    tried = set()
    for rule, ws in cand:
        if any(v["rule"] == rule for v in task.viol):
            continue
        for w in ws:
            if w in tried:
                continue
            tried.add(w)
            o2 = dict(o)
            o2["approx"] = False
            if isinstance(o2.get("throws"), set):
                o2["throws"] = set()
            t2 = Task(name, 400, 20)
            explore_task(t2, body_for(tn.const(w), o2))
            task.viol += t2.viol
            if any(v["rule"] == rule for v in t2.viol):
                break
    stats["alarms_examined"] = len(tried)
    return task


# --------------------------------------------------------------------------- C13: lookups
def c13(shared, cls, text=None, **kw):
    def spec(c, run):
        c.task.obligations += 1
        ms = [e for e in c.st.events if e[0] == "miss"]
        if ms and run.pushed:
            e = ms[0]
            raise Fail("every accepted word is known where it is looked up",
                       "a result is reported although %s has no entry for %s" % (e[2], show_word(e[3])), loc=e[1])
    return first_iteration(shared, "lookups of " + cls, cls, spec, text=text, **kw)


def show_word(w):
    return repr(w.decode("latin-1")) if isinstance(w, bytes) else repr(w)


# --------------------------------------------------------------------------- C14: tags
def tags_of(prog):
    for e in prog.enums.values():
        if e["qn"].lower().endswith("modifiers"):
            return {c["name"]: c["v"] for c in e["c"]}
    raise AnalysisError("anchor vanished: enumeration of tags")


ALIAS = {"ENDayOfWeekParser": "ENDayOfTheWeekParser", "ENHolidayParser": "ENUSHolidaysParser", "ENMergeDateAndTime": "ENMergeDateAndTimeRefiner",
         "ENMergeDateRange": "ENMergeDateRangeRefiner"}


def tag_of(prog, cls):
    """the tag that belongs to a parser class: the enumerator that carries its name"""
    short = cls.split("::")[-1]
    return tags_of(prog), ALIAS.get(short, short)


def c14(shared, cls, text=None, **kw):
    en, own = tag_of(shared.prog, cls)
    if own not in en:
        raise AnalysisError("no tag belongs to " + cls)

    def spec(c, run):
        for v in run.pushed:
            for again in (False, True):
                got = [n for n in sorted(en) if c.it.truth(c.ask(v, "getTag", en[n]))]
                c.check("a result carries its parser's tag and no other", got == [own], "a reported result carries the tags %s instead of [%s]%s" % (got, own, " when asked again" if again else ""))
    return first_iteration(shared, "tags of " + cls, cls, spec, text=text, **kw)


def c14_query(shared):
    """asking for a tag changes nothing: whatever was asked before, a tag set afterwards is found, an unset one is not"""
    import data
    en = tags_of(shared.prog)

    def body(a):
        names = sorted(en)
        t = names[a.st.choose(len(names), "tag")]
        u = names[a.st.choose(len(names), "other tag")]
        ask = a.st.choose(4, "asked before")
        r = a.new(data.RESULT)
        if ask & 1:
            a.call(r, "getTag", en[t])
        if ask & 2:
            a.call(r, "getTag", en[u])
        a.call(r, "setTag", en[t])
        for n in names:
            a.task.obligations += 1
            g = a.it.truth(a.call(r, "getTag", en[n]))
            if g != (n == t):
                raise Fail("a tag is found exactly when it was set", "after setting %s the tag %s is reported as %s" % (t, n, "set" if g else "not set"), shown=True)
        a.call(r, "setTag", en[u])
        for n in names:
            a.task.obligations += 1
            g = a.it.truth(a.call(r, "getTag", en[n]))
            if g != (n in (t, u)):
                raise Fail("a tag is found exactly when it was set", "after setting %s and %s the tag %s is reported as %s" % (t, u, n, "set" if g else "not set"), shown=True)
    return data.one(shared, "tag queries", body)


# --------------------------------------------------------------------------- C07: positions, per parser
LEAD = rx.regex_lang(rb"\s*[^\s0-9]?\s*", False, "full")
WORDY = rx.regex_lang(rb"[\s\S]*\w", False, "full")
WORDSTART = rx.regex_lang(rb"\w[\s\S]*", False, "full")
BLANK = rx.regex_lang(rb"\s*", False, "full")


def c07(shared, cls, text=None, **kw):
    idx = atom("sym", "idx")

    def spec(c, run):
        if run.threw or not run.pushed:
            return
        m = run.match
        for v in run.pushed:
            i = c.ask(v, "getIndex")
            d = c.st.norm_pos(sub(i, idx)) if not isinstance(i, Unknown) else None
            if d is None:
                raise Undecided("position")
            ln = c.st.norm_pos(sub(c.ask(v, "textLength"), c.it.lib.length(Span(m.src.sid, (m.mid, 0, "o"), (m.mid, 0, "c"), m.src.f))))
            c.task.obligations += 2
            if isinstance(d, Lin) and any(a[0] == "sym" for a in d.t):
                raise Fail("the position is the offset of the match", "the reported position is %s whatever the offset of the match" % show(i))
            o, e = (m.mid, 0, "o"), (m.mid, 0, "c")
            if d != 0 and not c.st.cmp("==", d, 0):
                # only what the pattern matches in front of the expression may be left out
                mk = c.st.marker_at(m.src.sid, c.st.norm_pos(add(c.st.P(m.src.sid, o), d))) if c.st.cmp(">", d, 0) else None
                if mk is None and c.st.cmp(">", d, 0):
                    for x in sorted((x for x in c.st.roots[m.src.sid].markers() if x[0] == m.mid), key=repr):
                        if c.st.range_of(c.st.norm_pos(sub(sub(c.st.P(m.src.sid, x), c.st.P(m.src.sid, o)), d))) == (0, 0):
                            mk = x
                            break
                    else:
                        for x in sorted((x for x in c.st.roots[m.src.sid].markers() if x[0] == m.mid), key=repr):
                            k = c.st.range_of(c.st.norm_pos(sub(d, sub(c.st.P(m.src.sid, x), c.st.P(m.src.sid, o)))))
                            if k[0] == k[1] and k[0] in (1, 2, 3) and c.st.pred(Span(m.src.sid, x, e, m.src.f), rx.regex_lang(rb"[\s\S]{%d}\w\w[\s\S]*" % (k[0] - 1), False, "match")):
                                raise Fail("only what stands in front of an expression is left out of its text", "the position is inside a word of the match")
                        raise Undecided("text cut inside a match")
                if mk is None:
                    raise Fail("the position is the offset of the match", "the reported position is the offset plus %s" % show(d))
                head, rest = Span(m.src.sid, o, mk, m.src.f), Span(m.src.sid, mk, e, m.src.f)
                if not c.st.pred(head, LEAD):
                    raise Fail("only what stands in front of an expression is left out of its text", "the position is %s behind the offset of the match, in the middle of the expression" % show(d))
                if c.st.pred(head, WORDY) and c.st.pred(rest, WORDSTART):
                    raise Fail("only what stands in front of an expression is left out of its text", "the position is inside a word of the match")
                if c.st.pred(rest, BLANK):
                    raise Fail("only what stands in front of an expression is left out of its text", "the text of the result is blank")
            if c.st.norm_pos(add(ln, d)) != 0 and not c.st.cmp("==", add(ln, d), 0):
                raise Fail("the text is the matched text", "the text of the result ends %s characters behind the match" % show(add(ln, d)))
    return first_iteration(shared, "position of " + cls, cls, spec, symidx=True, text=text, **kw)


# --------------------------------------------------------------------------- C08: letter case
def c08(shared, cls, text=None, **kw):
    def spec(c, run):
        c.task.obligations += 1
        ev = [e for e in c.st.events if e[0] == "case"]
        if ev:
            raise Fail("no decision depends on letter case", "the outcome of a %s on text that was not case-folded depends on its letter case" % ev[0][2], loc=ev[0][1])
    return first_iteration(shared, "letter case in " + cls, cls, spec, opts={"case": True}, text=text, partial=True, **kw)


def c08_scan(shared, cls):
    """the later matches of a text are folded like the first one: otherwise the extraction is analysed on unfolded text"""
    q = [q for q, cs in own_execute(shared.prog).items() if cls in cs][0]
    seen = {}

    def spec(c, s):
        fs = [m.src.f for m in s.matches if hasattr(m.src, "f")]
        seen["n"] = seen.get("n", 0) + len(fs)
        if len(fs) > 1 and any(f != fs[0] for f in fs[1:]):
            seen["bad"] = True
        c.task.obligations += 1
    t, body = [x for x in scan_task(shared, "folding in the scan loop", lambda s, k: valid_stub(s, k), spec, loops=2) if x[0].name.endswith(q)][0]
    explore_task(t, body)
    t.name = "later matches of " + cls
    if not seen.get("bad"):
        return t

    def spec2(c, run):
        c.task.obligations += 1
        ev = [e for e in c.st.events if e[0] == "case"]
        if ev:
            raise Fail("no decision depends on letter case", "the scan does not fold the text of later matches, and there the outcome of a %s depends on letter case" % ev[0][2], loc=ev[0][1])
    return first_iteration(shared, t.name, cls, spec2, opts={"case": True, "nofold": True}, partial=True)


# --------------------------------------------------------------------------- C09: exceptions
def c09(shared, cls, text=None, **kw):
    throws = set()

    def spec(c, run):
        c.task.obligations += 1
        if run.threw:
            raise Fail("no exception escapes", "the parse throws %s" % run.threw, loc=getattr(run.threw, "loc", None))
    t = first_iteration(shared, "exceptions of " + cls, cls, spec, opts={"throws": throws}, text=text, **kw)
    return t


# --------------------------------------------------------------------------- C10: hidden inputs and memory
BADREAD = {"uninit": "uninitialised storage is read", "stale": "a match is used after the text it refers to has changed or died",
           "dangling": "storage that is already dead is read", "clock": "the clock or environment is read", "gwrite": "state that outlives the call is modified",
           "oob": "storage outside an object is read"}


def c10(shared, cls, text=None, **kw):
    def spec(c, run):
        c.task.obligations += 2
        for e in c.st.events:
            if e[0] in BADREAD:
                raise Fail("a parse has no hidden input or memory", "%s (%s)" % (BADREAD[e[0]], ", ".join(map(str, e[2:]))), loc=e[1])
        if not run.gave_up and not (run.ref.v == REFPT):
            raise Fail("the reference date is not changed", "the reference becomes %s" % show(run.ref.v))
    return first_iteration(shared, "effects of " + cls, cls, spec, text=text, partial=True, **kw)


# --------------------------------------------------------------------------- patterns: C06 (non-empty matches), C36 (no trailing blank), validity
def pattern(shared, cls, name, look):
    """interprets the scan up to the first match and hands the match over"""
    task = Task(name, 40, 60)

    def body(st):
        run = First(shared, st, cls, {})

        def ext(it, f, this, args):
            run.match = it.load(args[1])
            raise Stop()
        for q in [cls] + shared.prog.bases(cls):
            run.it.hooks[q + "::extract"] = ext
        try:
            run.run()
        except Throw as x:
            raise Fail("every pattern is a valid regular expression", "building the pattern throws %s" % x, shown=True)
        c = Ctx(task, st, run.it)
        task.obligations += 1
        for e in st.events:
            if e[0] == "badregex":
                raise Fail("every pattern is a valid regular expression", "%r is no valid pattern: %s" % (e[2], e[3]), loc=e[1], shown=True)
        if run.match is not None and run.match.mid is not None:
            look(c, run.match)
        return c
    return explore_task(task, body)


def c06_pattern(shared, cls):
    def look(c, m):
        r = state.restrict(c.st.roots[m.src.sid], (m.mid, 0, "o"), (m.mid, 0, "c"), tn.d_word(b""))
        if not tn.empty(r):
            raise Fail("every match consumes at least one character", "the pattern matches the empty text, for example in %r" % tn.sample(r), shown=True)
    return pattern(shared, cls, "pattern of " + cls, look)


def c36(shared, cls):
    def look(c, m):
        r = state.restrict(c.st.roots[m.src.sid], (m.mid, 0, "o"), (m.mid, 0, "c"), tn.d_regex(b"[\\s\\S]*[ \\t\\n\\v\\f\\r]"))
        if not tn.empty(r):
            raise Fail("no match ends in white space", "a match of the pattern ends in white space, for example in %r" % tn.sample(r), shown=True)
    return pattern(shared, cls, "end of the matches of " + cls, look)


# --------------------------------------------------------------------------- the scan loop itself: C05, C06, C07, C09, C10
class Scan:
    """the scan loop with a stand-in pattern and a stand-in extraction that is described by `make`"""
    PAT = rb"x+(?:y|z)?"

    def __init__(self, shared, st, cls, make, loops=3):
        import data
        self.st, self.api = st, data.Api(shared, st, None)
        self.searches, self.matches, self.idx, self.made, self.ends = [], [], [], [], []
        self.rounds = 0
        self.shared = shared
        self.on_search = self.on_match = None

        def rgx(lib, strv, re, mode, mcell):
            self.searches.append((strv, re, mode))
            if self.on_search:
                self.on_search(self, strv, mode)

        def ext(it, f, this, args):
            self.rounds += 1
            if self.rounds > loops:
                raise Stop()
            m = it.load(args[1])
            self.matches.append(m)
            self.ends.append((m.src.sid, (m.mid, 0, "o"), (m.mid, 0, "c")))
            self.idx.append(it.num(it.load(args[3]) if isinstance(args[3], Cell) else args[3]))
            self.api.it = it
            if self.on_match:
                self.on_match(self, self.rounds - 1)
            r = make(self, self.rounds - 1)
            self.made.append(r)
            return r
        self.it, self.go, self.ref = mk_scan(shared, st, cls, st.new_text(ANY), {"onregex": rgx, "loops": loops + 2, "opentail": True}, ext)
        for q in [cls] + shared.prog.bases(cls):
            self.it.hooks[q + "::getPattern"] = lambda it, f, this, args: RegexV(self.PAT, True)
        self.api.it = self.it

    def run(self):
        try:
            return self.go()
        except Stop:
            return None


def owner(shared):
    return sorted((q, cs[0]) for q, cs in own_execute(shared.prog).items())


def scan_task(shared, name, make, spec, limit=3000, seconds=120, loops=3, on_search=None, on_match=None):
    out = []
    for q, cls in owner(shared):
        task = Task("%s: %s" % (name, q), limit, seconds)

        def body(st, cls=cls, task=task):
            s = Scan(shared, st, cls, make, loops)
            s.api.task = task
            s.threw = None
            s.on_search, s.on_match = on_search, on_match
            try:
                s.result = s.run()
            except Throw as x:
                s.threw, s.result = x, None
            c = Ctx(task, st, s.it)
            spec(c, s)
            return c
        out.append((task, body))
    return out


def valid_stub(s, k, end=False):
    """a result that denotes the reference day"""
    import data
    a = s.api
    r = a.new(data.RESULT)
    a.call(r, "setIndex", 1000 + k)
    for n, w in (("year", "year"), ("month", "month"), ("mday", "day")):
        a.set(r.v.f["startDate"], n, cal.proj(a.st, w, REF))
        if end:
            a.set(r.v.f["endDate"], n, cal.proj(a.st, w, REF))
    if end:
        a.call(r, "makeEndDateValid")
    return r.v


def invalid_stub(s, k):
    import data
    a = s.api
    r = a.new(data.RESULT)
    a.call(r, "setIndex", 2000 + k)
    for n, v in (("year", 2023), ("month", 2), ("mday", 30)):
        a.set(r.v.f["startDate"], n, v)
    return r.v


KINDS = ["a date", "no existing date", "a range", "an empty result", "an exception", "a date with its text"]


def varied(s, k):
    """an extraction of any outcome"""
    h = s.st.choose(len(KINDS), "extraction %d gives" % k)
    s.valid = getattr(s, "valid", []) + [h in (0, 2, 5)]
    if h == 4:
        raise Throw("std::out_of_range", "raised by the extraction", "")
    if h == 3:
        import data
        return s.api.new(data.RESULT).v
    if h == 1:
        return invalid_stub(s, k)
    r = valid_stub(s, k, h == 2)
    if h == 5:
        sid, o, e = s.ends[k]
        s.api.call(Cell(r), "setText", Span(sid, o, e, "lower"))
    return r


def c06_scan(shared):
    """left to right, without overlap or gap, until no match is left"""
    def on_search(s, strv, mode):
        st, j = s.st, len(s.searches) - 1
        if j > len(s.ends):
            raise Fail("one search per match", "a search starts although the previous match was not extracted")
        if isinstance(strv, bytes):
            return
        if isinstance(strv, Span):
            o, end = st.P(strv.sid, strv.o), strv.c
        elif isinstance(strv, OpStr) and strv.k[0] == "tail":
            o, end = strv.k[2:]
        else:
            raise Undecided("searched text")
        if mode != "search":
            raise Undecided("kind of search")
        s.api.task.obligations += 2
        want = 0 if j == 0 else st.P(s.ends[j - 1][0], s.ends[j - 1][2])
        d = st.norm_pos(sub(o, want))
        if d != 0 and not st.cmp("==", d, 0):
            raise Fail("the search resumes at the end of the previous match", "search %d starts %s characters after the end of the previous match" % (j + 1, show(d)))
        if not (end == tn.END_M or st.adj(s.ends[0][0] if s.ends else 0, end, tn.END_M)):
            raise Fail("the search covers the rest of the text", "search %d stops before the end of the text" % (j + 1))

    make = varied

    def spec(c, s):
        if s.threw:
            raise Fail("no exception escapes", "the scan throws %s" % s.threw)
        st = c.st
        c.check("the text is searched", len(s.searches) >= 1, "the text is not searched at all")
        if s.result is not None:
            # the scan has returned: its last search found nothing, and every dated result is there, in order
            c.task.obligations += 2
            if len(s.searches) == len(s.ends):
                last = s.ends[-1] if s.ends else None
                if last is not None and not st.adj(last[0], last[2], tn.END_M):
                    rest = Span(last[0], last[2], tn.END_M, "lower")
                    if st.pred(rest, rx.regex_lang(s.PAT, True, "search")):
                        raise Fail("the scan goes on until no match is left", "the scan ends after %d matches without looking at the rest of the text" % len(s.ends))
            got = [c.ask(x.v, "getIndex") for x in s.result.e]
            want = [1000 + k for k, ok in enumerate(s.valid)if ok] if s.ends else []
            if got != want:
                raise Fail("every dated match is reported once, in order", "matches %s are reported instead of %s" % ([g - 1000 for g in got], [w - 1000 for w in want]))
    return scan_task(shared, "scan loop", make, spec, on_search=on_search)


def c07_scan(shared):
    def on_match(s, k):
        sid, o, e = s.ends[k]
        s.api.task.obligations += 1
        d = s.st.norm_pos(sub(s.idx[k], s.st.P(sid, o)))
        if d != 0 and not s.st.cmp("==", d, 0):
            raise Fail("the position is an offset into the whole text", "match %d is reported at its offset plus %s" % (k + 1, show(d)))
    return scan_task(shared, "offsets in the scan loop", varied, lambda c, s: None, on_match=on_match)


def c05_scan(shared):
    return [x for kind in range(4) for how in range(2 if kind < 3 else 1) for x in c05_kind(shared, kind, how)]


def c05_kind(shared, kind, how0):
    """only results with existing dates are reported"""
    def sym(a, r, p, st):
        how = how0 if p == "s" else st.choose(2, "stated or implied")
        for n in ("year", "month", "mday"):
            v = atom("sym", p + n)
            if st.cmp("<", v, -20000) or st.cmp(">", v, 20000):
                raise Infeasible()
            (a.set if how == 0 else a.imply)(r, n, v)

    def make(s, k):
        import data
        a = s.api
        r = a.new(data.RESULT)
        s.kind = kind
        if kind == 3:
            return r.v                # an empty result
        sym(a, r.v.f["startDate"], "s", s.st)
        if kind >= 1:
            sym(a, r.v.f["endDate"], "e", s.st)
        if kind == 2:
            a.call(r, "makeEndDateValid")
        return r.v

    def spec(c, s):
        from families import valid_date
        if s.threw:
            raise Fail("no exception escapes", "the scan throws %s" % s.threw)
        if s.result is None or not s.made:
            return
        got = len(s.result.e)
        want = 0

        def ok(p):
            return valid_date(c, atom("sym", p + "year"), atom("sym", p + "month"), atom("sym", p + "mday"))
        if s.kind != 3:
            want = 1 if ok("s") and (s.kind != 2 or ok("e")) else 0
        c.task.obligations += 1
        if got and not want:
            raise Fail("only results with existing dates are reported", "a result is reported although %s" %
                       ("it is empty" if s.kind == 3 else "its start or end is no existing date"))
        if want and not got:
            raise Fail("results with existing dates are reported", "a result with existing dates is dropped")
        for x in s.result.e:
            for w in ("startDate",) + (("endDate",) if s.kind == 2 else ()):
                p = w[0]
                for n, g in (("year", "getYear"), ("month", "getMonth"), ("mday", "get_mDay")):
                    v = c.comp(x.v.f[w], n)
                    c.check("the result reported is the one extracted", same(v, atom("sym", p + n)), "%s of the %s becomes %s" % (n, w, show(v)))
    name = ["single date", "single date with unused end fields", "range", "empty result"][kind] + (["", " stated", " implied"][how0 + 1] if kind < 3 else "")
    return scan_task(shared, "gate of the scan loop, " + name, make, spec, loops=1, limit=12000, seconds=200)


STD = ["std::out_of_range", "std::invalid_argument", "std::runtime_error", "std::logic_error", "std::bad_alloc", "std::regex_error",
       "boost::gregorian::bad_year", "boost::gregorian::bad_month", "boost::gregorian::bad_day_of_month"]


def c09_scan(shared):
    """an exception in one extraction is contained and the other matches are still reported"""
    def make(s, k):
        s.ty = STD[s.st.choose(len(STD), "exception")] if not hasattr(s, "ty") else s.ty
        s.bad = s.st.choose(2, "throws") if not hasattr(s, "bad") else s.bad
        if k == s.bad:
            raise Throw(s.ty, "raised by the extraction", "")
        return valid_stub(s, k)

    def spec(c, s):
        c.task.obligations += 1
        if s.threw:
            raise Fail("no exception escapes", "an exception of type %s thrown while match %d is extracted leaves the parse" % (s.ty, s.bad + 1))
        if s.result is not None and s.ends:
            got = [c.ask(x.v, "getIndex") for x in s.result.e]
            want = [1000 + k for k in range(len(s.ends)) if k != s.bad]
            c.task.obligations += 1
            if got != want:
                raise Fail("the other matches are still reported", "after an exception in match %d the matches %s are reported instead of %s" %
                           (s.bad + 1, [g - 999 for g in got], [w - 999 for w in want]))
    return scan_task(shared, "exceptions in the scan loop", make, spec, loops=2)
