"""Exact std::regex_search / std::regex_match on tagged languages.

ECMAScript alternatives are ordered: the engine takes the first successful way through the pattern.
`search` builds, for a tagged language of texts, the tagged language in which every text additionally
carries the group markers of exactly the match the engine takes: the product of the text automaton with
the pattern automaton, where a run that takes a later alternative drags along the earlier alternatives as
threads that must fail.
"""
from . import rx, tn
from .rx import ALL, WORD, minterms, low_byte, cls_of, START


def pre_fold(mask, f):
    """bytes whose folding lies in mask"""
    if f == "lower":
        return (mask & ~rx.UPPER) | ((mask & rx.LOWER) >> 32)
    if f == "upper":
        return (mask & ~rx.LOWER) | ((mask & rx.UPPER) << 32)
    if isinstance(f, tuple):
        return rx_pre(mask, f)
    return mask


_pre = {}


def rx_pre(mask, f):
    """bytes that the byte map f = ("map", table) takes into mask"""
    k = (mask, f)
    if k not in _pre:
        _pre[k] = sum(1 << b for b in range(256) if (mask >> f[1][b]) & 1)
    return _pre[k]


def image(mask, f):
    r = 0
    for b in range(256):
        if (mask >> b) & 1:
            r |= 1 << f[1][b]
    return r


class TooBig(Exception):
    pass


class ONfa:
    """ordered automaton of a pattern; edges[s] = list in priority order of (kind, data, target)"""

    def __init__(self, ast):
        self.e = []
        self.start = self.new()
        self.acc = self.build(ast, self.start)
        self.cl = {}
        self.st = {}
        self.fin = {}

    def new(self):
        self.e.append([])
        return len(self.e) - 1

    def build(self, a, s):
        t = a[0]
        if t == "c":
            x = self.new()
            self.e[s].append(("c", a[1], x))
            return x
        if t == "cat":
            for x in a[1]:
                s = self.build(x, s)
            return s
        if t == "alt":
            x = self.new()
            for y in a[1]:
                b = self.new()
                self.e[s].append(("e", None, b))
                self.e[self.build(y, b)].append(("e", None, x))
            return x
        if t == "grp":
            b = self.new()
            self.e[s].append(("m", (a[1], "o"), b))
            r = self.build(a[2], b)
            x = self.new()
            self.e[r].append(("m", (a[1], "c"), x))
            return x
        if t == "rep":
            _, x, lo, hi, greedy = a
            for _ in range(lo):
                s = self.build(x, s)
            end = self.new()

            def opt(s):
                b = self.new()
                es = [("e", None, b), ("e", None, end)]
                self.e[s] += es if greedy else es[::-1]
                return b
            if hi is None:
                h = self.new()
                self.e[s].append(("e", None, h))
                b = opt(h)
                self.e[self.build(x, b)].append(("e", None, h))
                return end
            for _ in range(hi - lo):
                s = self.build(x, opt(s))
            self.e[s].append(("e", None, end))
            return end
        x = self.new()
        if t == "la":
            self.e[s].append(("a", ("la", a[1], rx.RNfa(a[2])), x))
        elif t in ("bol", "eol"):
            self.e[s].append(("a", (t,), x))
        elif t == "wb":
            self.e[s].append(("a", ("wb", a[1]), x))
        else:
            raise rx.Unsupported(t)
        return x

    def masks(self):
        r = {WORD}
        for l in self.e:
            for k, d, _ in l:
                if k == "c":
                    r.add(d)
                elif k == "a" and d[0] == "la":
                    r |= d[2].masks()
        return r

    def closure(self, th, prev, nxt):
        """ordered items reachable without consuming: (target state or 'ACC', markers, obligations)"""
        key = (th, prev, nxt)
        r = self.cl.get(key)
        if r is not None:
            return r
        out = []
        seen = set()

        def go(s, ob, mk):
            if (s, ob) in seen:
                return
            seen.add((s, ob))
            if s == self.acc:
                out.append(("ACC", mk, ob))
                return
            for k, d, t in self.e[s]:
                if k == "e":
                    go(t, ob, mk)
                elif k == "m":
                    go(t, ob, mk + (d,))
                elif k == "c":
                    if nxt is not None and (d >> nxt) & 1:
                        out.append((t, mk, ob))
                else:
                    a = d[0]
                    if a == "bol":
                        if prev == START:
                            go(t, ob, mk)
                    elif a == "eol":
                        if nxt is None:
                            go(t, ob, mk)
                    elif a == "wb":
                        if ((prev == rx.WRD) != (nxt is not None and cls_of(nxt) == rx.WRD)) != d[1]:
                            go(t, ob, mk)
                    else:
                        o = rx.advance_ob((d[1], d[2], frozenset([(d[2].start, frozenset())])), prev, nxt, False)
                        if o is True:
                            go(t, ob, mk)
                        elif o is not False:
                            go(t, ob | {o}, mk)
        go(th[0], th[1], ())
        self.cl[key] = out
        return out

    def adv(self, ob, prev, nxt):
        """obligations across a byte (or the end): None when violated"""
        out = set()
        for o in ob:
            r = rx.advance_ob(o, prev, nxt, nxt is not None)
            if r is False:
                return None
            if r is not True:
                out.add(r)
        return frozenset(out)

    def step_forbidden(self, S, prev, nxt, mode):
        """advance threads that must fail; None when one of them succeeds (search) """
        key = (S, prev, nxt)
        if key in self.st:
            return self.st[key]
        out = set()
        dead = False
        for th in S:
            if th[0] == "ACC":
                nob = self.adv(th[1], prev, nxt)
                if nob is None:
                    continue
                if not nob:
                    dead = True
                    break
                out.add(("ACC", nob))
                continue
            for t, mk, ob in self.closure(th, prev, nxt):
                if t == "ACC":
                    if mode == "match":
                        continue
                    nob = self.adv(ob, prev, nxt)
                    if nob is None:
                        continue
                    if not nob:
                        dead = True
                        break
                    out.add(("ACC", nob))
                else:
                    nob = self.adv(ob, prev, nxt)
                    if nob is not None:
                        out.add((t, nob))
            if dead:
                break
        r = None if dead else frozenset(out)
        self.st[key] = r
        return r

    def end_forbidden(self, S, prev):
        """does one of the threads succeed when the text ends here?"""
        for th in S:
            if th[0] == "ACC":
                if self.adv(th[1], prev, None) is not None:
                    return True
                continue
            for t, mk, ob in self.closure(th, prev, None):
                if t == "ACC" and self.adv(ob, prev, None) is not None:
                    return True
        return False


_nfas = {}


def strip(a, keep):
    """the pattern without the groups nobody asks for"""
    t = a[0]
    if t in ("cat", "alt"):
        return (t, type(a[1])(strip(x, keep) for x in a[1]))
    if t == "grp":
        x = strip(a[2], keep)
        return (t, a[1], x) if a[1] in keep else x
    if t == "rep":
        return (t, strip(a[1], keep)) + tuple(a[2:])
    return a


def nfa_of(pat, icase, keep=None):
    k = (pat, icase, keep)
    if k not in _nfas:
        ast, n = rx.parse(pat, icase)
        if keep is not None:
            ast = strip(ast, keep)
        a = ONfa(ast)
        _nfas[k] = (a, n, minterms(a.masks()))
    return _nfas[k]


NONE = frozenset()


def search(root, mo, mc, f, pat, icase, mode, mid, limit=60000, exact=True, keep=None):
    """root restricted to texts whose span mo..mc matches, with markers (mid,k,'o'/'c') added"""
    nfa, n, parts = nfa_of(pat, icase, keep)
    fparts = [(low_byte(p), pre_fold(p, f)) for p in parts]
    b = tn.B()
    idx = {}
    work = []

    def get(k):
        i = idx.get(k)
        if i is None:
            i = idx[k] = b.new()
            if len(idx) > limit:
                raise TooBig()
            work.append(k)
        return i
    FULL_O, FULL_C = (0, "o"), (0, "c")
    init = ("I", START, "PRE", NONE)
    st = get((root.start, "B", None, None, None)) if mo != tn.START_M else get((root.start,) + init)

    def emit(s, mks):
        for m in mks:
            e = b.new()
            b.mk[s].append(((mid,) + m, e))
            s = e
        return s

    def options(prev, q, S, nxt):
        """-> list of (markers, q', S') before consuming nxt (None: the span ends here); q' already advanced"""
        res = []
        if q == "PRE":
            items = [(t, (FULL_O,) + mk, ob) for t, mk, ob in nfa.closure((nfa.start, NONE), prev, nxt)]
        elif q[0] == "DONE":
            nob = nfa.adv(q[1], prev, nxt)
            if nob is not None:
                res.append(((), ("DONE", nob), S))
            return res
        else:
            items = nfa.closure(q, prev, nxt)
        higher = set(S)
        for t, mk, ob in items:
            if t == "ACC":
                if mode == "match" and nxt is not None:
                    continue
                nob = nfa.adv(ob, prev, nxt)
                if nob is not None:
                    res.append((mk + (FULL_C,), ("DONE", nob), frozenset(higher) if exact else NONE))
                    if not nob:
                        return res  # succeeds: nothing of lower priority is ever taken
                if exact:
                    higher.add(("ACC", ob))
            else:
                nob = nfa.adv(ob, prev, nxt)
                if nob is None:
                    continue
                res.append((mk, (t, nob), frozenset(higher) if exact else NONE))
                if exact:
                    higher.add(("T", t, ob))
        if q == "PRE" and mode == "search" and nxt is not None:
            res.append(((), "PRE", frozenset(higher) if exact else NONE))
        return res

    def push_S(S, prev, nxt):
        """advance the threads that must fail over nxt; those marked T already chose this byte's edge"""
        if not S:
            return S
        key = ("F", S, prev, nxt)
        r = nfa.fin.get(key, 0)
        if r != 0:
            return r
        un = frozenset(x for x in S if x[0] != "T")
        r = nfa.step_forbidden(un, prev, nxt, mode) if un else NONE
        if r is not None:
            r = set(r)
            for x in S:
                if x[0] == "T":
                    nob = nfa.adv(x[2], prev, nxt)
                    if nob is not None:
                        r.add((x[1], nob))
            r = frozenset(r)
        nfa.fin[key] = r
        return r

    def end_ok(prev, q, S):
        """markers to emit when the span ends here, for every way it can"""
        out = []
        for mk, q2, S2 in options(prev, q, S, None):
            if q2 == "PRE" or q2[0] != "DONE":
                continue
            if nfa.end_forbidden(frozenset(x for x in S2 if x[0] != "T"), prev):
                continue
            out.append(mk)
        return out

    acc = set()
    while work:
        k = work.pop()
        p, ph = k[0], k[1]
        s = idx[k]
        if ph != "I":
            for m, t in root.ch[p]:
                b.ch[s].append((m, get((t,) + k[1:])))
            for t in root.ep[p]:
                b.ep[s].append(get((t,) + k[1:]))
            for m, t in root.mk[p]:
                if m == mo and ph in ("B", "A"):
                    b.mk[s].append((m, get((t,) + init)))
                else:
                    b.mk[s].append((m, get((t,) + k[1:])))
            if ph == "A" and p in root.acc:
                acc.add(s)
            continue
        prev, q, S = k[2], k[3], k[4]
        for t in root.ep[p]:
            b.ep[s].append(get((t,) + k[1:]))
        for m, t in root.mk[p]:
            if m == mc:
                for mks in end_ok(prev, q, S):
                    e = emit(s, mks)
                    b.mk[e].append((m, get((t, "A", None, None, None))))
            else:
                b.mk[s].append((m, get((t,) + k[1:])))
        if mc == tn.END_M and p in root.acc:
            for mks in end_ok(prev, q, S):
                acc.add(emit(s, mks))
        if not root.ch[p]:
            continue
        # fast path: nothing left to track
        if q != "PRE" and q[0] == "DONE" and not q[1] and not S:
            for m, t in root.ch[p]:
                b.ch[s].append((m, get((t, "I", rx.NONW, q, S))))
            continue
        for rep, pm in fparts:
            hit = [(m & pm, t) for m, t in root.ch[p] if m & pm]
            if not hit:
                continue
            for mks, q2, S2 in options(prev, q, S, rep):
                S3 = push_S(S2, prev, rep)
                if S3 is None:
                    continue
                e = emit(s, mks)
                for m, t in hit:
                    b.ch[e].append((m, get((t, "I", cls_of(rep), q2, S3))))
    return b.done(st, acc)
