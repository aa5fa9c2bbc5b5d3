"""Scenario analyses: a parser is interpreted abstractly on a whole family of texts and every path class is
compared with what the specification says about it."""
import os
import time
import traceback
from . import interp, state, tn, rx, cal, teval
from .state import *
from .val import *
from .prog import AnalysisError

COMPS = (("year", "getYear"), ("month", "getMonth"), ("mday", "get_mDay"), ("wday", "get_wDay"), ("hour", "getHour"),
         ("min", "getMinute"), ("sec", "getSeconds"), ("tzoffset", "getTimeZoneOffset"))
GETTER = dict(COMPS)
REF = D(("ref",))
REFPT = PT(REF, 1, 0)
BLANKS = tn.from_regex(rx.parse(b" *", False)[0])


def F(name, pattern, icase=True):
    """a named field of a phrase"""
    return tn.tagged(tn.from_regex(rx.parse(pattern.encode() if isinstance(pattern, str) else pattern, icase)[0]), ("$", name, "o"), ("$", name, "c"))


def R(pattern, icase=True):
    return tn.from_regex(rx.parse(pattern.encode() if isinstance(pattern, str) else pattern, icase)[0])


def phrase(*parts):
    """the phrase, surrounded by optional blanks"""
    ps = [R(p) if isinstance(p, str) else p for p in parts]
    return tn.concat([BLANKS, tn.tagged(tn.concat(ps), ("$", "phrase", "o"), ("$", "phrase", "c")), BLANKS])


class Fail(Exception):
    """a specification clause is violated on the current path"""

    def __init__(self, rule, msg, loc=None, shown=False, when=()):
        self.rule, self.msg, self.loc, self.shown, self.when = rule, msg, loc, shown, when


class Task:
    """one exploration; collects statistics and violations"""

    def __init__(self, name, limit=3000, seconds=60):
        self.name, self.limit, self.seconds = name, limit, seconds
        self.viol = []
        self.obligations = 0
        self.unconfirmed = 0
        self.samples = []
        self.stats = {}

    def report(self):
        return {"name": self.name, "stats": self.stats, "viol": self.viol[:40], "nviol": len(self.viol), "obligations": self.obligations, "unconfirmed": self.unconfirmed}


class Ctx:
    """one path class in evaluation"""

    def __init__(self, task, st, it):
        self.task, self.st, self.it = task, st, it
        self.residual = 0

    # ---------------------------------------------------------------- fields of the phrase
    def has(self, f):
        m = ("$", f, "o")
        if m not in self.st.roots[0].markers():
            return False
        return self.st.present(0, m)

    def span(self, f):
        return Span(0, ("$", f, "o"), ("$", f, "c"), "lower")

    def word(self, f, limit=120):
        """the word in field f; the path is split further where several are left"""
        if not self.has(f):
            return None
        s = self.span(f)
        ws = self.st.words(s, 4000)
        if ws is None:
            raise Undecided("field %s is not a finite choice" % f)
        low = sorted({w.decode("latin-1").lower() for w in ws})
        if len(low) > limit:
            raise Undecided("field %s has too many words" % f)
        if len(low) == 1:
            return low[0]
        g = self.st.split(s, [(w.encode("latin-1"),) for w in low], "field " + f)
        return g[0].decode("latin-1")

    def number(self, f):
        """the number written in a digit field"""
        s = self.span(f)
        return self.it.lib.number_atom(Span(0, s.o, s.c)) if self.fixed(s) is None else self.fixed(s)

    def fixed(self, s):
        ws = self.st.words(Span(0, s.o, s.c), 64)
        if ws is not None and len({int(w) for w in ws}) == 1:
            return int(next(iter(ws)))
        return None

    # ---------------------------------------------------------------- the outcome
    def ask(self, obj, name, *args):
        """call a member of the analysed program on a result"""
        c = obj if isinstance(obj, Cell) else Cell(obj)
        r = self.it.call_named(c, c.v.cls, name, [Cell(a) if not isinstance(a, Cell) else a for a in args] if False else list(args))
        return self.it.load(r) if isinstance(r, Cell) else r

    def comp(self, comps, name):
        v = self.ask(comps, GETTER[name])
        return v

    def certain(self, comps, name):
        v = self.ask(comps, "isCertain", name.encode())
        return self.it.truth(v)

    def start(self, res):
        return res.f["startDate"]

    def end(self, res):
        return res.f["endDate"]

    def is_range(self, res):
        return self.it.truth(self.ask(res, "end"))

    # ---------------------------------------------------------------- obligations
    def equal(self, rule, pairs, where=None):
        """every (name, actual, expected) agrees for all valuations of the path"""
        self.task.obligations += len(pairs)
        bad = [(n, a, b) for n, a, b in pairs if not same(a, b)]
        if not bad:
            return
        for n, a, b in bad:
            if isinstance(a, Unknown):
                raise Undecided(a.why)
        w, k = teval.differ(self.st, bad)
        if w is None:
            if k < 20:
                raise Undecided("difference between %s and the specification not settled" % bad[0][0])
            self.residual += 1
            return
        e, nm, a, b = w
        act, exp = [(x, y) for n, x, y in bad if n == nm][0]
        raise Fail(rule, "%s is %s, the property requires %s; with %s: %s instead of %s" % (nm, show(act), show(exp), teval.show_env(e), show_v(a, act), show_v(b, exp)), shown=True)

    def check(self, rule, cond, msg):
        self.task.obligations += 1
        if not cond:
            raise Fail(rule, msg)


def show_v(v, t):
    if isinstance(t, D):
        d = teval.ymd(v)
        return "%04d-%02d-%02d" % (d.year, d.month, d.day)
    return str(v)


def show(t):
    s = repr(t)
    return s if len(s) < 200 else s[:200] + "..."


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return a == b


def sample_text(st):
    try:
        w = tn.sample(st.roots[0])
        return w.decode("latin-1") if w is not None else ""
    except Exception:
        return ""


def has_values(e, terms):
    try:
        for t in terms:
            e.value(t)
    except teval.NoVal:
        return False
    return True


UNDEFINED = {"uninit": "uninitialised storage is read", "dangling": "storage that is already dead is read", "oob": "storage outside an object is read"}


def explore_task(task, body):
    """run body(st) -> Ctx over all path classes; Fail becomes a violation"""
    t0 = time.time()
    deadline = t0 + task.seconds

    def attempt(st):
        try:
            return body(st)
        except Undecided:
            # what is computed from storage that does not exist or was never written is no result at all
            e = next((e for e in st.events if e[0] in UNDEFINED), None)
            if e is None or st.opts.get("approx"):
                raise
            raise Fail("only existing, initialised storage is read", "%s (%s)" % (UNDEFINED[e[0]], ", ".join(map(str, e[2:]))), loc=e[1])
        except (TypeError, AttributeError, KeyError, IndexError, ValueError, AssertionError, NotImplementedError, ZeroDivisionError) as e:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            raise Undecided("analysis error %s" % type(e).__name__)

    def run(st):
        try:
            return attempt(st)
        except Fail as f:
            if not f.shown:
                # a violation needs a valuation that takes this path
                e = next((e for e in teval.envs(st, 60 if f.when else 1) if has_values(e, f.when)), None)
                if e is None:
                    task.unconfirmed += 1
                    return None
                f.msg += "; with " + teval.show_env(e)
            task.viol.append({"rule": f.rule, "msg": f.msg, "at": f.loc or st.loc, "task": task.name, "path": list(st.trace)[-40:],
                              "text": sample_text(st) if st.roots else ""})
            return None
    task.stats = explore(run, task.limit, deadline=deadline)
    task.stats["seconds"] = round(time.time() - t0, 2)
    return task


def run_parser(shared, st, cls, text, opts=None):
    """interpret cls::execute(text, reference); -> (interp, result list)"""
    st.opts.update(opts or {})
    it = interp.Interp(shared, st)
    txt = Cell(text, "text")
    o = it.default(cls)
    if not isinstance(o, Obj):
        raise AnalysisError("anchor vanished: class " + cls)
    ref = Cell(REFPT, "ref")
    r = it.call_named(Cell(o), cls, "execute", [txt, ref])
    r = it.load(r) if isinstance(r, Cell) else r
    return it, r


def scenario(shared, name, cls, text, spec, limit=3000, seconds=60, dows=False, opts=None, fm=False, cover=True):
    """spec(ctx, result or None): raises Fail when the outcome contradicts the property.
    The result handed over is the first one; its matched text must be the whole phrase."""
    task = Task(name, limit, seconds)

    def body(st):
        if dows:
            st.const[("ref", "dow")] = st.choose(7)
        st.fm = fm
        t = st.new_text(text)
        try:
            it, res = run_parser(shared, st, cls, t, opts)
        except Throw as x:
            raise Fail("no exception escapes", "execute throws %s" % x)
        c = Ctx(task, st, it)
        if not isinstance(res, Vec):
            raise Undecided("result list")
        r = res.e[0].v if res.e else None
        if r is not None and cover and not isinstance(cover, str):
            idx = c.ask(r, "getIndex")
            ln = c.ask(r, "textLength")
            o, e = st.P(0, ("$", "phrase", "o")), st.P(0, ("$", "phrase", "c"))
            a, b = st.norm_pos(sub(idx, o)), st.norm_pos(sub(add(idx, ln), e))
            task.obligations += 1
            if a != 0 or b != 0:
                da, db = st.range_of(a), st.range_of(b)
                if da != (0, 0) or db != (0, 0):
                    raise Fail("the whole expression is recognised", "the first result starts at %s and ends at %s instead of covering the expression"
                               % (show(idx), show(st.norm_pos(add(idx, ln)))))
        spec(c, r)
        return c
    return explore_task(task, body)
