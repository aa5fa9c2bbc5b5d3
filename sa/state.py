"""Abstract state of one path class: languages of the symbolic texts, bounds on linear forms, events.

A path class is replayed deterministically from its list of decisions; `choose` is the only source of
branching, so exploring all decision lists enumerates the partition of the input set."""
import heapq
import time
from fractions import Fraction
from . import rx, tn, srch
from .val import *
from .val import _rev


class Infeasible(Exception):
    """no input takes this path"""


class Undecided(Exception):
    """the path leaves what the analysis models"""


class Restart(Exception):
    """the path asks for a capture group that was not tracked: it is replayed with the group tracked"""


NEED = {}           # pattern -> groups the analysed code asks for


class Throw(Exception):
    def __init__(self, ty, why="", loc=""):
        self.ty, self.why, self.loc = ty, why, loc

    def __str__(self):
        return "%s (%s) at %s" % (self.ty, self.why, self.loc)


EXC = {
    "std::exception": [],
    "std::logic_error": ["std::exception"],
    "std::runtime_error": ["std::exception"],
    "std::out_of_range": ["std::logic_error"],
    "std::invalid_argument": ["std::logic_error"],
    "std::length_error": ["std::logic_error"],
    "std::regex_error": ["std::runtime_error"],
    "std::bad_cast": ["std::exception"],
    "std::bad_alloc": ["std::exception"],
    "boost::gregorian::bad_year": ["std::out_of_range"],
    "boost::gregorian::bad_month": ["std::out_of_range"],
    "boost::gregorian::bad_day_of_month": ["std::out_of_range"],
    "boost::gregorian::bad_weekday": ["std::out_of_range"],
}


def exc_is(ty, base):
    if ty == base:
        return True
    return any(exc_is(b, base) for b in EXC.get(ty, []))


_cache = {}


def cached(key, keep, fn):
    """results of automaton operations, shared by all paths (keys use identities of kept objects)"""
    r = _cache.get(key)
    if r is None:
        r = (fn(), keep)
        _cache[key] = r
    return r[0]


def reset_caches():
    _cache.clear()


def fold_dfa(d, f):
    if f is None:
        return d
    return cached(("fd", id(d), f), d, lambda: rx.Dfa([[(srch.pre_fold(m, f), t) for m, t in l if srch.pre_fold(m, f)]
                                                       for l in d.trans], d.acc, d.start))


def case_closed(d):
    """does membership never depend on letter case?"""
    def calc():
        m = d.minimize()
        for l in m.trans:
            for b in range(97, 123):
                x = y = None
                for mask, t in l:
                    if (mask >> b) & 1:
                        x = t
                    if (mask >> (b - 32)) & 1:
                        y = t
                if x != y:
                    return False
        return True
    return cached(("cc", id(d)), d, calc)


def restrict(root, mo, mc, d):
    return cached(("r", id(root), mo, mc, id(d)), (root, d), lambda: tn.restrict(root, mo, mc, d))


def compl(d):
    return cached(("c", id(d)), d, lambda: d.complement())


INTRINSIC = {"year": (1400, 9999), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "min": (0, 59), "sec": (0, 59), "dow": (0, 6)}


class State:
    def __init__(self, decisions=()):
        self.dec = list(decisions)
        self.width = []
        self.where = {}
        self.pos = 0
        self.roots = {}
        self.bounds = {}
        self.excl = {}
        self.cons = []        # linear constraints l >= 0, for Fourier-Motzkin
        self.memo = {}
        self.const = {}       # atom -> value
        self.fldrange = {}    # atom -> (lo, hi)
        self.events = []
        self.trace = []
        self.nums = []
        self.numspan = {}
        self.mids = 0
        self.sids = 0
        self.fm = False
        self.quiet = 0
        self.opts = {}
        self.loc = ""
        self.parts = {}
        self.note = {}
        self.sites = {}

    # ------------------------------------------------------------------ branching
    def may_throw(self, ty, why):
        """an operation that throws for some inputs which the domain does not separate: both outcomes are
        explored (the throwing one once per program point)"""
        done = self.opts.get("throws")
        if done is None:
            return
        site = (self.loc, ty)
        if self.choose(2) == 1:
            done.add(site)
            raise Throw(ty, why, self.loc)
        self.sites[self.pos - 1] = site

    def choose(self, n, what=""):
        if n == 1:
            return 0
        if self.pos < len(self.dec):
            k = self.dec[self.pos]
        else:
            k = 0
            self.dec.append(0)
        self.where[self.pos] = self.loc
        self.width = self.width[:self.pos] + [n] if len(self.width) > self.pos and self.width[self.pos] != n else self.width
        while len(self.width) <= self.pos:
            self.width.append(n)
        self.width[self.pos] = n
        self.pos += 1
        if k >= n:
            raise Infeasible()
        return k

    def event(self, kind, *a):
        if not self.quiet:
            self.events.append((kind, self.loc) + a)

    def note_branch(self, s):
        if not self.quiet:
            self.trace.append("%s: %s" % (self.loc, s))

    # ------------------------------------------------------------------ texts
    def new_text(self, lang):
        sid = self.sids
        self.sids += 1
        self.roots[sid] = lang
        return Span(sid, tn.START_M, tn.END_M)

    def new_mid(self):
        self.mids += 1
        return "m%d" % self.mids

    def span_tn(self, s):
        a = self.roots[s.sid]
        r = cached(("sp", id(a), s.o, s.c), a, lambda: tn.forget(tn.span(a, s.o, s.c)))
        if s.f:
            r = cached(("spf", id(r), s.f), r, lambda: tn.map_chars(r, tn.lower_mask if s.f == "lower" else tn.upper_mask if s.f == "upper" else lambda m: srch.image(m, s.f)))
        return r

    def lens(self, s):
        a = self.roots[s.sid]
        return cached(("ln", id(a), s.o, s.c), a, lambda: tn.lengths(self.span_tn(Span(s.sid, s.o, s.c))))

    def words(self, s, limit=400):
        r = self.span_tn(s)
        
        def calc():
            ws = tn.finite_words(r, limit)
            return None if ws is None else sorted(ws)
        return cached(("fw", id(r), limit), r, calc)

    def pred_split(self, s, d):
        """languages of the root where the span is in / not in d"""
        root = self.roots[s.sid]
        dd = fold_dfa(d, s.f)
        return restrict(root, s.o, s.c, dd), restrict(root, s.o, s.c, compl(dd))

    def observe(self, s, d, what):
        if (s.f is None or isinstance(s.f, tuple)) and "case" in self.opts and not case_closed(fold_dfa(d, s.f)):
            self.event("case", what, repr(s))

    def pred(self, s, d, what=""):
        """is the text of span s in the language of d?  forks when both can be"""
        self.observe(s, d, what)
        yes, no = self.pred_split(s, d)
        if tn.empty(yes):
            if tn.empty(no):
                raise Infeasible()
            return False
        if tn.empty(no):
            return True
        k = self.choose(2)
        self.roots[s.sid] = no if k else yes
        self.note_branch("%s is %s" % (what or "condition", "false" if k else "true"))
        return k == 0

    def pred3(self, s, d):
        """True/False/None without forking"""
        yes, no = self.pred_split(s, d)
        if tn.empty(yes):
            return False
        if tn.empty(no):
            return True
        return None

    def split(self, s, groups, what=""):
        """partition by a list of word sets; the last alternative (returned as None) is 'none of them'"""
        root = self.roots[s.sid]
        alts = []
        allw = set()
        for g in groups:
            d = tn.d_words(tuple(sorted(g)))
            self.observe(s, d, what)
            r = restrict(root, s.o, s.c, fold_dfa(d, s.f))
            allw |= set(g)
            if not tn.empty(r):
                alts.append((g, r))
        d = tn.d_words(tuple(sorted(allw)))
        rest = restrict(root, s.o, s.c, compl(fold_dfa(d, s.f)))
        if not tn.empty(rest):
            alts.append((None, rest))
        if not alts:
            raise Infeasible()
        k = self.choose(len(alts))
        g, r = alts[k]
        self.roots[s.sid] = r
        if len(alts) > 1:
            self.note_branch("%s is %s" % (what or repr(s), "none of the listed words" if g is None else
                                           "|".join(w.decode("latin-1") for w in sorted(g)[:4])))
        return g

    def present(self, sid, mo):
        root = self.roots[sid]
        p = tn.participation(root, mo)
        if p != "maybe":
            return p == "always"
        k = self.choose(2)
        y = (k == 0)
        self.roots[sid] = cached(("wm", id(root), mo, y), root, lambda: tn.with_marker(root, mo, y))
        self.note_branch("group %s %s" % (show_m(mo), "takes part" if y else "is absent"))
        return y

    def need(self, pat, icase, k):
        n = NEED.setdefault((pat, icase), set())
        if k and k not in n:
            n.add(k)
            raise Restart()

    def search(self, s, pat, icase, mode, groups=()):
        """-> mid or None; the match decision is exact, groups are exact or (huge languages) over-approximated"""
        d = rx.regex_lang(pat, icase, mode)
        self.observe(s, d, "regular expression")
        yes, no = self.pred_split(s, d)
        if tn.empty(yes):
            if tn.empty(no):
                raise Infeasible()
            return None
        if not tn.empty(no):
            k = self.choose(2)
            self.note_branch("pattern %s" % ("does not match" if k else "matches"))
            if k:
                self.roots[s.sid] = no
                return None
        if s.o == s.c:
            raise Undecided("match on an empty text")
        mid = self.new_mid()
        nd = NEED.setdefault((pat, icase), set())
        nd.update(groups)
        keep = frozenset(nd)
        exact = not self.opts.get("approx")

        def calc():
            if exact:
                try:
                    return srch.search(yes, s.o, s.c, s.f, pat, icase, mode, mid, keep=keep)
                except srch.TooBig:
                    pass
            p2 = pat
            if mode == "search" and not pat.startswith(b"^"):
                # where every text has a match at its very start that is the leftmost one
                p2 = b"^(?:" + pat + b")"
                if not self.always(s, yes, rx.regex_lang(p2, icase, mode)):
                    p2 = pat
            return srch.search(yes, s.o, s.c, s.f, p2, icase, mode, mid, limit=400000, exact=False, keep=keep)
        r = cached(("se", id(yes), s.o, s.c, s.f, pat, icase, mode, mid, exact, keep), yes, calc)
        if tn.empty(r):
            raise Infeasible()
        self.roots[s.sid] = r
        return mid

    def always(self, s, root, d):
        """the span's text is in d for every text of root"""
        return tn.empty(restrict(root, s.o, s.c, compl(fold_dfa(d, s.f))))

    # ------------------------------------------------------------------ positions
    def P(self, sid, m):
        if m == tn.START_M:
            return 0
        root = self.roots[sid]
        # canonical marker: an adjacent, older one
        for m2 in self.parts.setdefault(sid, []):
            if m2 == m:
                return atom("P", sid, m)
            if m2 in root.markers() or m2 == tn.END_M:
                if self.adj(sid, m, m2):
                    return atom("P", sid, m2)
        if self.adj(sid, m, tn.START_M):
            return 0
        self.parts[sid].append(m)
        return atom("P", sid, m)

    def adj(self, sid, m1, m2):
        root = self.roots[sid]
        return cached(("ad", id(root), m1, m2), root, lambda: tn.adjacent(root, m1, m2))

    def marker_at(self, sid, pos):
        """marker for an affine position, or None"""
        if pos == 0:
            return tn.START_M
        if isinstance(pos, Lin):
            p = self.norm_pos(pos)
            if p == 0:
                return tn.START_M
            if isinstance(p, Lin) and len(p.t) == 1 and p.c == 0:
                (a, k), = p.t.items()
                if k == 1 and a[0] == "P" and a[1] == sid:
                    return a[2]
        return None

    def norm_pos(self, l):
        if not isinstance(l, Lin):
            return l
        r = l.c
        for a, k in l.t.items():
            if a[0] == "P":
                r = add(r, scale(self.P(a[1], a[2]), k))
            else:
                r = add(r, Lin(0, {a: k}))
        if isinstance(r, Lin) and sum(1 for a in r.t if a[0] == "P") > 2:
            # two positions a fixed distance apart
            ps = [a for a in r.t if a[0] == "P"]
            for a in ps:
                for b in ps:
                    if a[1] == b[1] and r.t.get(a, 0) == 1 and r.t.get(b, 0) == -1:
                        d = self.pos_diff(a[1], a[2], b[2])
                        if d is not None and d[0] is not None and d[0] == d[1]:
                            r = add(sub(r, sub(atom(*a), atom(*b))), d[0])
                            if not isinstance(r, Lin):
                                return r
        return r

    def length(self, s):
        lo, hi = self.lens(s)
        if hi == lo:
            return lo
        return sub(self.P(s.sid, s.c), self.P(s.sid, s.o))

    # ------------------------------------------------------------------ numbers
    def atom_range(self, a):
        lo, hi = None, None
        k = a[0]
        if a in self.const:
            return self.const[a], self.const[a]
        if k == "ref":
            lo, hi = INTRINSIC[a[1]]
        elif k == "proj":
            lo, hi = INTRINSIC[a[1]]
        elif k == "tod":
            lo, hi = INTRINSIC[a[1]]
        elif k == "sweep":
            lo, hi = 0, 10 ** 9
        elif k == "mod":
            n = a[2]
            l0, h0 = self.range_of(a[1])
            if l0 is not None and l0 >= 0:
                lo, hi = 0, n - 1
            else:
                lo, hi = -(n - 1), n - 1
        elif k == "div":
            l0, h0 = self.range_of(a[1])
            n = a[2]
            if l0 is not None:
                lo = l0 // n if l0 >= 0 else -((-l0) // n)
            if h0 is not None:
                hi = h0 // n if h0 >= 0 else -((-h0) // n)
        elif k == "P":
            lo, hi = self.lens(Span(a[1], tn.START_M, a[2]))
        elif k == "eom":
            lo, hi = 28, 31
        elif k == "abs":
            lo = 0
        elif k in ("usize", "nn", "size"):
            lo = 0
        if a in self.numspan:
            l2, h2 = self.num_words(*self.numspan[a])
            lo = l2 if lo is None else max(lo, l2)
            if h2 is not None:
                hi = h2 if hi is None else min(hi, h2)
        if a in self.fldrange:
            l2, h2 = self.fldrange[a]
            lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
            hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        key = ((intern(a), 1),)
        if key in self.bounds:
            l2, h2 = self.bounds[key]
            lo = l2 if lo is None else lo if l2 is None else max(lo, l2)
            hi = h2 if hi is None else hi if h2 is None else min(hi, h2)
        return lo, hi

    def num_words(self, sid, o, c):
        """range of the number written in a digit span"""
        s = Span(sid, o, c)
        root = self.roots[sid]

        def calc():
            n = self.lens(s)[1]
            if n is None:
                return 0, None
            if n <= 4:
                ws = self.words(s, 11000)
                if ws:
                    v = [int(w) for w in ws if w.isdigit()]
                    if v:
                        return min(v), max(v)
            return (0 if tn.meets(self.span_tn(s), tn.d_regex(b"0*")) else 1), 10 ** n - 1
        return cached(("nw", id(root), o, c), root, calc)

    def range_of(self, l):
        if not isinstance(l, Lin):
            return l, l
        lo = hi = l.c
        ps = [(a, k) for a, k in l.t.items() if a[0] == "P"]
        rest = list(l.t.items())
        if len(ps) == 2 and ps[0][1] + ps[1][1] == 0 and abs(ps[0][1]) == 1 and ps[0][0][1] == ps[1][0][1]:
            (a1, k1), (a2, k2) = ps
            r = self.pos_diff(a1[1], a1[2], a2[2])
            if r is not None:
                rest = [(a, k) for a, k in rest if a[0] != "P"]
                r0, r1 = r
                if k1 < 0:
                    r0, r1 = (None if r1 is None else -r1), (None if r0 is None else -r0)
                lo = None if r0 is None else lo + r0
                hi = None if r1 is None else hi + r1
        elif len(ps) >= 2 and len({a[1] for a, _ in ps}) == 1:
            r = self.pos_sum(ps)
            if r is not None:
                rest = [(a, k) for a, k in rest if a[0] != "P"]
                lo = None if r[0] is None else lo + r[0]
                hi = None if r[1] is None else hi + r[1]
        ds = [(a, k) for a, k in rest if a[0] == "dn"]
        if len(ds) == 2 and ds[0][1] + ds[1][1] == 0 and abs(ds[0][1]) == 1:
            r = dn_diff(self, ds[0][0][1], ds[1][0][1])
            if r is not None:
                rest = [(a, k) for a, k in rest if a[0] != "dn"]
                r0, r1 = r if ds[0][1] > 0 else (-r[1], -r[0])
                lo = None if lo is None else lo + r0
                hi = None if hi is None else hi + r1
        for a, k in rest:
            al, ah = self.atom_range(a)
            if k < 0:
                al, ah = ah, al
            lo = None if lo is None or al is None else lo + k * al
            hi = None if hi is None or ah is None else hi + k * ah
        key, f, c = direction(l)
        b = self.bounds.get(key)
        if b:
            l2, h2 = b
            if f < 0:
                l2, h2 = h2, l2
            if l2 is not None:
                v = c + f * l2
                lo = v if lo is None else max(lo, v)
            if h2 is not None:
                v = c + f * h2
                hi = v if hi is None else min(hi, v)
        ex = self.excl.get(key)
        if ex:
            vals = {c + f * x for x in ex}
            while lo is not None and lo in vals and (hi is None or lo <= hi):
                lo += 1
            while hi is not None and hi in vals and (lo is None or lo <= hi):
                hi -= 1
        return fr2(lo), fr2(hi)

    def pos_diff(self, sid, m1, m2):
        """range of P(m1) - P(m2), or None"""
        root = self.roots[sid]

        def calc():
            a = tn.span(root, m2, m1)
            b = tn.span(root, m1, m2)
            r = [None if tn.empty(x) else tn.lengths(x) for x in (a, b)]
            if r == [None, None]:
                return None
            # a positive difference is a string from m2 to m1, a negative one a string from m1 to m2
            lo = -r[1][1] if r[1] and r[1][1] is not None else None if r[1] else r[0][0]
            hi = r[0][1] if r[0] else -r[1][0]
            return lo, hi
        return cached(("pd", id(root), m1, m2), root, calc)

    def pos_sum(self, ps):
        """range of a sum of multiples of positions in one text, or None"""
        if any(not isinstance(k, int) and k.denominator != 1 for _, k in ps):
            return None
        root = self.roots[ps[0][0][1]]
        ks = {a[2]: int(k) for a, k in ps}
        return cached(("ps", id(root), tuple(sorted(ks.items(), key=repr))), root, lambda: tn.weighted(root, ks))

    def bound(self, l, lo, hi):
        """intersect l's range with [lo, hi]; Infeasible when empty"""
        if not isinstance(l, Lin):
            if (lo is not None and l < lo) or (hi is not None and l > hi):
                raise Infeasible()
            return
        key, f, c = direction(l)
        x = None if lo is None else (Fraction(lo) - c) / f
        y = None if hi is None else (Fraction(hi) - c) / f
        if f < 0:
            x, y = y, x
        if x is not None:
            x = -((-x.numerator) // x.denominator)
        if y is not None:
            y = y.numerator // y.denominator
        b = self.bounds.get(key, (None, None))
        b = (x if b[0] is None else b[0] if x is None else max(x, b[0]), y if b[1] is None else b[1] if y is None else min(y, b[1]))
        self.bounds[key] = b
        r = self.range_of(from_dir(key))
        if r[0] is not None and r[1] is not None and r[0] > r[1]:
            raise Infeasible()
        if self.fm:
            if lo is not None:
                self.cons.append(sub(l, lo))
            if hi is not None:
                self.cons.append(sub(hi, l))
            if not self.fm_ok([]):
                raise Infeasible()

    def ge0(self, l):
        """True/False/None: l >= 0?"""
        if not isinstance(l, Lin):
            return l >= 0
        lo, hi = self.range_of(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if self.fm:
            if not self.fm_ok([sub(-1, l)]):
                return True
            if not self.fm_ok([l]):
                return False
        return None

    def fm_ok(self, extra):
        """are the recorded linear constraints (plus extra) satisfiable over the rationals?"""
        cons = []
        atoms = set()
        for l in self.cons + list(extra):
            if isinstance(l, Lin):
                cons.append((dict((a, Fraction(k)) for a, k in l.t.items()), Fraction(l.c)))
                atoms |= set(l.t)
            elif l < 0:
                return False
        for a in list(atoms):
            lo, hi = self.atom_range(a)
            if lo is not None:
                cons.append(({a: Fraction(1)}, Fraction(-lo)))
            if hi is not None:
                cons.append(({a: Fraction(-1)}, Fraction(hi)))
        for key, (lo, hi) in self.bounds.items():
            d = {_rev[i]: Fraction(v) for i, v in key}
            if set(d) <= atoms and len(d) > 1:
                if lo is not None:
                    cons.append((dict(d), Fraction(-lo)))
                if hi is not None:
                    cons.append(({a: -v for a, v in d.items()}, Fraction(hi)))
        ds = sorted((a for a in atoms if a[0] == "dn"), key=repr)
        for i, a in enumerate(ds):
            for b in ds[:i]:
                r = dn_diff(self, a[1], b[1])
                if r is not None:
                    cons.append(({a: Fraction(1), b: Fraction(-1)}, Fraction(-r[0])))
                    cons.append(({a: Fraction(-1), b: Fraction(1)}, Fraction(r[1])))
        rem = set(atoms)
        while rem:
            best = None
            for a in rem:
                p = sum(1 for t, _ in cons if t.get(a, 0) > 0)
                n = sum(1 for t, _ in cons if t.get(a, 0) < 0)
                if best is None or p * n < best[0]:
                    best = (p * n, a)
            a = best[1]
            rem.discard(a)
            pos = [c for c in cons if c[0].get(a, 0) > 0]
            ng = [c for c in cons if c[0].get(a, 0) < 0]
            rest = [c for c in cons if c[0].get(a, 0) == 0]
            if len(pos) * len(ng) > 4000:
                return True
            seen = set()
            for t1, c1 in pos:
                for t2, c2 in ng:
                    k1, k2 = -t2[a], t1[a]
                    t = {}
                    for x, v in t1.items():
                        t[x] = t.get(x, 0) + v * k1
                    for x, v in t2.items():
                        t[x] = t.get(x, 0) + v * k2
                    t = {x: v for x, v in t.items() if v != 0}
                    c = c1 * k1 + c2 * k2
                    if not t:
                        if c < 0:
                            return False
                        continue
                    m = max(abs(v) for v in t.values())
                    t = {x: v / m for x, v in t.items()}
                    c = c / m
                    h = (frozenset(t.items()), c)
                    if h not in seen:
                        seen.add(h)
                        rest.append((t, c))
            cons = rest
            for t, c in cons:
                if not t and c < 0:
                    return False
        return all(c >= 0 for t, c in cons if not t)

    def cmp(self, op, a, b, what=""):
        """decide or fork a numeric comparison"""
        d = self.norm_pos(sub(a, b))
        if not isinstance(d, Lin):
            return {"<": d < 0, ">": d > 0, "<=": d <= 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op]
        if op == "!=":
            return not self.cmp("==", a, b)
        if op == "==":
            lo, hi = self.range_of(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 == hi:
                return True
            key, f, c = direction(d)
            x = -Fraction(c) / f
            if x.denominator != 1 or int(x) in self.excl.get(key, ()):
                return False
            if self.fm and (not self.fm_ok([d, neg(d)])):
                return False
            if self.fm and not self.fm_ok([sub(d, 1)]) and not self.fm_ok([sub(-1, d)]):
                return True
            k = self.choose(2)
            self.note_branch("%r == %r is %s" % (a, b, "false" if k else "true"))
            if k == 0:
                self.bound(d, 0, 0)
                return True
            self.excl[key] = set(self.excl.get(key, ())) | {int(x)}
            r = self.range_of(d)
            if r[0] is not None and r[1] is not None and r[0] > r[1]:
                raise Infeasible()
            return False
        # a < b  <=>  -d-1 >= 0
        l = {"<": sub(-1, d), ">": sub(d, 1), "<=": neg(d), ">=": d}[op]
        r = self.ge0(l)
        if r is not None:
            return r
        k = self.choose(2)
        self.note_branch("%r %s %r is %s" % (a, op, b, "false" if k else "true"))
        if k == 0:
            self.bound(l, 0, None)
            return True
        self.bound(l, None, -1)
        return False

    def flag(self, key, what=""):
        """an uninterpreted boolean: forks once, then remembered"""
        if key in self.memo:
            return self.memo[key]
        k = self.choose(2)
        self.memo[key] = (k == 0)
        self.note_branch("%s is %s" % (what or repr(key), "false" if k else "true"))
        return k == 0


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def year_pos(st, d):
    """date term -> (year term, least and greatest number of days after 1 January of that year), or None"""
    if d.ops:
        return None
    if d.base == ("ref",):
        return Lin(0, {("ref", "year"): 1}), 0, 365
    if d.base[0] != "ymd":
        return None
    y, m, dd = d.base[1:4]
    m0, m1 = st.range_of(m)
    d0, d1 = st.range_of(dd)
    if m0 is None or m1 is None or not 1 <= m0 <= m1 <= 12:
        return y, 0, 365
    d0 = 1 if d0 is None else max(d0, 1)
    d1 = 31 if d1 is None else min(d1, 31)
    return y, CUM[m0 - 1] + d0 - 1 + 0, CUM[m1 - 1] + d1 - 1 + (1 if m1 > 2 else 0)


def dn_diff(st, a, b):
    """bounds on the number of days from date b to date a, from the calendar alone"""
    if a.base == b.base:
        n = min(len(a.ops), len(b.ops))
        if len(a.ops) <= 1 and len(b.ops) <= 1 and all(k == "m" and isinstance(x, int) for k, x in a.ops + b.ops):
            x = sum(v for _, v in a.ops)
            y = sum(v for _, v in b.ops)
            if (x - y) % 12 == 0 and abs(x - y) <= 36:
                k = (x - y) // 12
                slack = 1 if x and y else 0
                lo, hi = 365 * k, 365 * k + (1 if k > 0 else -1 if k < 0 else 0)
                return min(lo, hi) - slack, max(lo, hi) + slack
    p, q = year_pos(st, a), year_pos(st, b)
    if p is None or q is None:
        return None
    k = sub(p[0], q[0])
    if not isinstance(k, int) or abs(k) > 3:
        return None
    lo, hi = 365 * k, 365 * k + (1 if k > 0 else -1 if k < 0 else 0)
    return min(lo, hi) + p[1] - q[2], max(lo, hi) + p[2] - q[1]


def fr2(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def explore(run, limit=4000, on_path=None, first=(), deadline=None):
    """enumerate all decision lists of run(State); returns statistics.
    The alternative tried next is one whose (program point, choice) has been tried least, so that a truncated
    exploration still visits every branch it can reach."""
    stats = {"paths": 0, "infeasible": 0, "undecided": {}, "throws": 0, "truncated": False}
    front = {}              # (point, choice) -> stack of open decision lists
    tried = {}
    heap = []
    inheap = set()
    stack = []              # all open decision lists, the most recent last
    dec = list(first)
    n = 0
    while True:
        st = State(list(dec))
        try:
            try:
                r = run(st)
            except Restart:
                continue
            stats["paths"] += 1
            if on_path:
                on_path(st, r)
        except Infeasible:
            stats["infeasible"] += 1
        except Undecided as e:
            k = str(e)
            stats["undecided"][k] = stats["undecided"].get(k, 0) + 1
            stats.setdefault("undecided_at", {}).setdefault(k, st.loc)
        d, w = st.dec[:st.pos], st.width
        for i in range(len(dec), len(d)):
            if st.sites.get(i) in st.opts.get("throws", ()):
                continue
            for k in range(w[i] - 1, 0, -1):
                key = (st.where.get(i, ""), k if w[i] <= 16 else k * 16 // w[i])
                x = [d[:i] + [k], key]
                b = front.setdefault(key, [])
                if key not in inheap:
                    inheap.add(key)
                    heapq.heappush(heap, (tried.get(key, 0), key))
                b.append(x)
                stack.append(x)
        x = None
        n += 1
        if n % 3 == 0:
            # an alternative whose (point, choice) was tried least
            while heap and x is None:
                c, key = heapq.heappop(heap)
                b = front[key]
                while b and b[-1][0] is None:
                    b.pop()
                if not b:
                    inheap.discard(key)
                elif c != tried.get(key, 0):
                    heapq.heappush(heap, (tried.get(key, 0), key))
                else:
                    x = b.pop()
                    heapq.heappush(heap, (c + 1, key))
        if x is None:
            while stack and stack[-1][0] is None:
                stack.pop()
            if stack:
                x = stack.pop()
        if x is None:
            break
        dec, key = x
        x[0] = None
        tried[key] = tried.get(key, 0) + 1
        if stats["paths"] + stats["infeasible"] + sum(stats["undecided"].values()) >= limit or deadline and time.time() > deadline:
            stats["truncated"] = True
            break
    return stats
