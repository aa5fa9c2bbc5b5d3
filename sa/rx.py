"""ECMAScript regular expressions as libstdc++ accepts them: parsing, and exact languages.

Character sets are 256-bit integers (one bit per byte value).  Nothing here executes code of
/repo: the pattern text is obtained from the program's constants and turned into automata.
"""
ALL = (1 << 256) - 1


def cset(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


DIGIT = cset(range(48, 58))
UPPER = cset(range(65, 91))
LOWER = cset(range(97, 123))
ALPHA = UPPER | LOWER
WORD = DIGIT | ALPHA | (1 << 95)
SPACE = cset(b" \t\n\v\f\r")
LINE = cset(b"\n\r")


class RegexError(Exception):
    """The pattern is rejected by std::regex (constructing it throws std::regex_error)."""


class Unsupported(Exception):
    pass


def fold(mask):
    """Closure of a set of bytes under ASCII case."""
    up = (mask & LOWER) >> 32
    lo = (mask & UPPER) << 32
    return mask | up | lo


class Parser:
    def __init__(self, pat, icase):
        self.p = pat
        self.i = 0
        self.n = 0
        self.icase = icase
        self.open_groups = []
        self.closed = set()

    def peek(self):
        return self.p[self.i] if self.i < len(self.p) else None

    def lit(self, b):
        return self.chars(1 << b)

    def chars(self, m):
        return ("c", fold(m) if self.icase else m)

    def parse(self):
        r = self.alt()
        if self.i != len(self.p):
            raise RegexError("unmatched )")
        return r

    def alt(self):
        alts = [self.seq()]
        while self.peek() == 124:
            self.i += 1
            alts.append(self.seq())
        return alts[0] if len(alts) == 1 else ("alt", alts)

    def seq(self):
        items = []
        while True:
            c = self.peek()
            if c is None or c in (124, 41):
                break
            items.append(self.term())
        return items[0] if len(items) == 1 else ("cat", items)

    def term(self):
        c = self.peek()
        if c == 94:
            self.i += 1
            return ("bol",)
        if c == 36:
            self.i += 1
            return ("eol",)
        if c == 92 and self.i + 1 < len(self.p) and self.p[self.i + 1] in (98, 66):
            neg = self.p[self.i + 1] == 66
            self.i += 2
            return ("wb", neg)
        if self.p[self.i:self.i + 3] in (b"(?=", b"(?!"):
            neg = self.p[self.i + 2] == 33
            self.i += 3
            r = self.alt()
            if self.peek() != 41:
                raise RegexError("parenthesis not closed")
            self.i += 1
            return ("la", neg, r)
        a = self.atom()
        while True:
            q = self.quant()
            if q is None:
                return a
            lo, hi, greedy = q
            a = ("rep", a, lo, hi, greedy)

    def quant(self):
        c = self.peek()
        if c == 42:
            lo, hi = 0, None
        elif c == 43:
            lo, hi = 1, None
        elif c == 63:
            lo, hi = 0, 1
        elif c == 123:
            j = self.p.find(b"}", self.i)
            if j < 0:
                raise RegexError("unclosed brace")
            body = self.p[self.i + 1:j]
            try:
                if b"," in body:
                    a, b = body.split(b",")
                    lo, hi = int(a), (int(b) if b else None)
                else:
                    lo = hi = int(body)
            except ValueError:
                raise RegexError("bad brace")
            if hi is not None and hi < lo:
                raise RegexError("bad brace range")
            self.i = j
        else:
            return None
        self.i += 1
        greedy = True
        if self.peek() == 63:
            greedy = False
            self.i += 1
        return lo, hi, greedy

    def atom(self):
        c = self.peek()
        if c == 46:
            self.i += 1
            return ("c", ALL & ~LINE)
        if c == 40:
            if self.p[self.i:self.i + 3] == b"(?:":
                self.i += 3
                r = self.alt()
                if self.peek() != 41:
                    raise RegexError("parenthesis not closed")
                self.i += 1
                return r if r[0] != "c" else ("cat", [r])
            self.i += 1
            if self.peek() == 63:
                raise RegexError("bad group")
            self.n += 1
            k = self.n
            r = self.alt()
            if self.peek() != 41:
                raise RegexError("parenthesis not closed")
            self.i += 1
            return ("grp", k, r)
        if c == 91:
            return self.bracket()
        if c == 92:
            return self.escape()
        if c in b"*+?{":
            raise RegexError("nothing to repeat")
        # libstdc++ treats '}' and ']' as ordinary characters
        self.i += 1
        return self.lit(c)

    def class_escape(self, c):
        m = {100: DIGIT, 115: SPACE, 119: WORD, 68: ALL & ~DIGIT, 83: ALL & ~SPACE, 87: ALL & ~WORD}
        return m.get(c)

    def escape(self):
        self.i += 1
        c = self.peek()
        if c is None:
            raise RegexError("trailing backslash")
        self.i += 1
        m = self.class_escape(c)
        if m is not None:
            return ("c", m)
        simple = {48: 0, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11}
        if c in simple:
            return self.lit(simple[c])
        if c == 99:
            d = self.peek()
            if d is None:
                raise RegexError("bad control escape")
            self.i += 1
            return self.lit(d % 32)
        if c in (120, 117):
            n = 2 if c == 120 else 4
            h = self.p[self.i:self.i + n]
            try:
                if len(h) != n:
                    raise ValueError
                v = int(h, 16)
            except ValueError:
                raise RegexError("bad hex escape")
            self.i += n
            return self.lit(v & 255)
        if 49 <= c <= 57:
            raise Unsupported("back reference")
        return self.lit(c)

    def bracket(self):
        self.i += 1
        neg = False
        if self.peek() == 94:
            neg = True
            self.i += 1
        m = 0
        first = True
        prev = None
        while True:
            c = self.peek()
            if c is None:
                raise RegexError("unclosed bracket")
            if c == 93 and True:
                self.i += 1
                break
            if c == 91 and self.p[self.i:self.i + 2] in (b"[:", b"[.", b"[="):
                kind = self.p[self.i + 1:self.i + 2]
                j = self.p.find(kind + b"]", self.i + 2)
                if j < 0:
                    raise RegexError("bad class")
                name = self.p[self.i + 2:j].decode("latin-1")
                tab = {"digit": DIGIT, "d": DIGIT, "alpha": ALPHA, "alnum": ALPHA | DIGIT, "space": SPACE, "s": SPACE,
                       "w": WORD, "lower": LOWER, "upper": UPPER, "blank": cset(b" \t"), "xdigit": cset(b"0123456789abcdefABCDEF"),
                       "punct": cset(b"!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")}
                if name not in tab:
                    raise RegexError("bad class name")
                m |= tab[name]
                self.i = j + 2
                prev = None
                continue
            if c == 92:
                self.i += 1
                d = self.peek()
                if d is None:
                    raise RegexError("trailing backslash")
                cm = self.class_escape(d)
                if cm is not None:
                    m |= cm
                    self.i += 1
                    prev = None
                    continue
                self.i -= 1
                a = self.escape() if d not in (98,) else None
                if a is None:
                    self.i += 2
                    v = 8
                else:
                    v = None
                    mm = a[1]
                    v = d if (mm >> d) & 1 else [x for x in range(256) if (mm >> x) & 1][0]
            else:
                self.i += 1
                v = c
            if self.peek() == 45 and self.i + 1 < len(self.p) and self.p[self.i + 1] != 93:
                # range
                self.i += 1
                e = self.peek()
                if e == 92:
                    self.i += 1
                    e = self.peek()
                    if self.class_escape(e) is not None:
                        raise RegexError("bad range")
                    self.i += 1
                else:
                    self.i += 1
                if e < v:
                    raise RegexError("bad range")
                for x in range(v, e + 1):
                    m |= 1 << x
            else:
                m |= 1 << v
        if self.icase:
            m = fold(m)
        if neg:
            m = ALL & ~m
        return ("c", m)


_parse_cache = {}


def parse(pat, icase):
    """-> (ast, number of groups); raises RegexError / Unsupported"""
    k = (pat, icase)
    if k not in _parse_cache:
        try:
            p = Parser(pat, icase)
            _parse_cache[k] = (p.parse(), p.n)
        except (RegexError, Unsupported) as e:
            _parse_cache[k] = e
    r = _parse_cache[k]
    if isinstance(r, Exception):
        raise r
    return r


def nullable(a):
    t = a[0]
    if t == "c":
        return False
    if t == "cat":
        return all(nullable(x) for x in a[1])
    if t == "alt":
        return any(nullable(x) for x in a[1])
    if t == "rep":
        return a[2] == 0 or nullable(a[1])
    if t == "grp":
        return nullable(a[2])
    return True  # assertions


# ---------------------------------------------------------------- exact matching as an automaton
class RNfa:
    """Thompson NFA with assertion edges, used for exact (assertion aware) languages."""

    def __init__(self, ast):
        self.eps = []
        self.chr = []
        self.asr = []
        s = self.new()
        self.start = s
        self.acc = self.build(ast, s)

    def new(self):
        self.eps.append([])
        self.chr.append([])
        self.asr.append([])
        return len(self.eps) - 1

    def build(self, a, s):
        t = a[0]
        if t == "c":
            e = self.new()
            self.chr[s].append((a[1], e))
            return e
        if t == "cat":
            for x in a[1]:
                s = self.build(x, s)
            return s
        if t == "alt":
            e = self.new()
            for x in a[1]:
                b = self.new()
                self.eps[s].append(b)
                self.eps[self.build(x, b)].append(e)
            return e
        if t == "grp":
            return self.build(a[2], s)
        if t == "rep":
            _, x, lo, hi, _g = a
            for _ in range(lo):
                s = self.build(x, s)
            if hi is None:
                b = self.new()
                self.eps[s].append(b)
                e = self.build(x, b)
                self.eps[e].append(b)
                f = self.new()
                self.eps[b].append(f)
                return f
            end = self.new()
            self.eps[s].append(end)
            for _ in range(hi - lo):
                s = self.build(x, s)
                self.eps[s].append(end)
            return end
        e = self.new()
        if t in ("bol", "eol"):
            self.asr[s].append(((t,), e))
        elif t == "wb":
            self.asr[s].append((("wb", a[1]), e))
        elif t == "la":
            self.asr[s].append((("la", a[1], RNfa(a[2])), e))
        else:
            raise Unsupported(t)
        return e

    def masks(self):
        r = set()
        for l in self.chr:
            for m, _ in l:
                r.add(m)
        for l in self.asr:
            for x, _ in l:
                if x[0] == "la":
                    r |= x[2].masks()
        return r


def minterms(masks):
    parts = [ALL]
    for m in masks:
        out = []
        for p in parts:
            a, b = p & m, p & ~m
            if a:
                out.append(a)
            if b:
                out.append(b)
        parts = out
    return parts


def low_byte(m):
    return (m & -m).bit_length() - 1


START, NONW, WRD, NL = "^", "n", "w", "l"


def cls_of(b):
    return WRD if (WORD >> b) & 1 else NONW


def closure(nfa, threads, prev, nxt):
    """threads: iterable of (state, obligations); prev: '^' or class; nxt: byte or None (end)."""
    seen = set()
    stack = list(threads)
    while stack:
        th = stack.pop()
        if th in seen:
            continue
        seen.add(th)
        s, ob = th
        for e in nfa.eps[s]:
            stack.append((e, ob))
        for x, e in nfa.asr[s]:
            k = x[0]
            if k == "bol":
                if prev == START:
                    stack.append((e, ob))
            elif k == "eol":
                if nxt is None:
                    stack.append((e, ob))
            elif k == "wb":
                pw = prev == WRD
                nw = nxt is not None and cls_of(nxt) == WRD
                if (pw != nw) != x[1]:
                    stack.append((e, ob))
            else:
                _, neg, sub = x
                o = advance_ob((neg, sub, frozenset([(sub.start, frozenset())])), prev, nxt, False)
                if o is True:
                    stack.append((e, ob))
                elif o is not False:
                    stack.append((e, ob | {o}))
    return seen


def advance_ob(o, prev, nxt, consume):
    """Close an obligation at a boundary.  -> True (met) / False (violated) / obligation."""
    neg, sub, ths = o
    c = closure(sub, ths, prev, nxt)
    acc = any(s == sub.acc for s, _ in c)
    if acc:
        return not neg
    if nxt is None:
        return neg
    if not consume:
        # keep the unclosed threads: closing happens again before the step
        can = any(nfa_can_step(sub, s, nxt) for s, _ in c)
        if not can:
            return neg
        return (neg, sub, ths)
    out = set()
    for s, ob in c:
        for m, e in sub.chr[s]:
            if (m >> nxt) & 1:
                out.add((e, ob))
    if not out:
        return neg
    return (neg, sub, frozenset(out))


def nfa_can_step(nfa, s, b):
    return any((m >> b) & 1 for m, _ in nfa.chr[s])


class ObHash:
    pass


class Matcher:
    """Deterministic simulation of 'the regex matches exactly the span starting here'.
    state = (prev class, frozenset of threads); threads carry look-ahead obligations."""

    def __init__(self, nfa):
        self.nfa = nfa

    def step(self, threads, prev, nxt):
        """consume byte nxt; returns the next unclosed thread set."""
        cl = closure(self.nfa, threads, prev, nxt)
        out = set()
        for s, ob in cl:
            nob = set()
            ok = True
            for o in ob:
                r = advance_ob(o, prev, nxt, True)
                if r is False:
                    ok = False
                    break
                if r is not True:
                    nob.add(r)
            if not ok:
                continue
            nob = frozenset(nob)
            for m, e in self.nfa.chr[s]:
                if (m >> nxt) & 1:
                    out.add((e, nob))
        return frozenset(out)

    def finals(self, threads, prev, nxt):
        """obligation sets of threads that accept at this boundary"""
        return [ob for s, ob in closure(self.nfa, threads, prev, nxt) if s == self.nfa.acc]

    def obs_hold(self, ob, prev, rest):
        """do the obligations hold when exactly the bytes `rest` follow?"""
        cur = set(ob)
        for i in range(len(rest) + 1):
            nxt = rest[i] if i < len(rest) else None
            nc = set()
            for o in cur:
                r = advance_ob(o, prev, nxt, nxt is not None)
                if r is False:
                    return False
                if r is not True:
                    nc.add(r)
            cur = nc
            if not cur:
                return True
            if nxt is not None:
                prev = cls_of(nxt)
        return True


# ------------------------------------------------------------------------------------ DFAs
class Dfa:
    """complete DFA: trans[s] = [(mask, target)...] (masks partition ALL)"""
    __slots__ = ("trans", "acc", "start")

    def __init__(self, trans, acc, start=0):
        self.trans, self.acc, self.start = trans, acc, start

    def complement(self):
        return Dfa(self.trans, [not a for a in self.acc], self.start)

    def step(self, s, b):
        for m, t in self.trans[s]:
            if (m >> b) & 1:
                return t

    def accepts(self, w):
        s = self.start
        for b in w:
            s = self.step(s, b)
        return self.acc[s]

    def minimize(self):
        n = len(self.trans)
        part = [1 if a else 0 for a in self.acc]
        while True:
            sig = {}
            new = []
            for s in range(n):
                d = {}
                for m, t in self.trans[s]:
                    d[part[t]] = d.get(part[t], 0) | m
                k = (part[s], tuple(sorted(d.items())))
                new.append(sig.setdefault(k, len(sig)))
            if len(set(new)) == len(set(part)):
                part = new
                break
            part = new
        k = max(part) + 1
        tr = [None] * k
        acc = [False] * k
        for s in range(n):
            if tr[part[s]] is None:
                d = {}
                for m, t in self.trans[s]:
                    d[part[t]] = d.get(part[t], 0) | m
                tr[part[s]] = [(m, t) for t, m in d.items()]
                acc[part[s]] = self.acc[s]
        return Dfa(tr, acc, part[self.start])


def explore(start, classes, step, accept, limit=20000):
    idx = {start: 0}
    order = [start]
    trans = []
    i = 0
    reps = [(m, low_byte(m)) for m in classes]
    while i < len(order):
        d = {}
        for m, b in reps:
            t = step(order[i], b)
            if t not in idx:
                if len(order) > limit:
                    raise Unsupported("automaton too large")
                idx[t] = len(order)
                order.append(t)
            d[idx[t]] = d.get(idx[t], 0) | m
        trans.append([(m, t) for t, m in d.items()])
        i += 1
    return Dfa(trans, [accept(s) for s in order])


_lang_cache = {}


def regex_lang(pat, icase, mode):
    """DFA of the complete strings for which regex_match / regex_search succeed."""
    key = (pat, icase, mode)
    if key in _lang_cache:
        return _lang_cache[key]
    ast, _ = parse(pat, icase)
    nfa = RNfa(ast)
    mt = Matcher(nfa)
    classes = minterms(nfa.masks() | {WORD})
    init = frozenset([(nfa.start, frozenset())])
    DONE = ("done",)

    def good(threads, prev, nxt):
        # for search: some thread accepts with no pending obligation
        return any(not ob for ob in mt.finals(threads, prev, nxt))

    def step(st, b):
        if st == DONE:
            return DONE
        prev, th = st
        if mode == "search":
            if good(th, prev, b):
                return DONE
            # threads that accept but still owe a look-ahead are kept alive as accepting stubs
            stubs = set()
            for s, ob in closure(nfa, th, prev, b):
                if s == nfa.acc and ob:
                    nob = set()
                    ok = True
                    for o in ob:
                        r = advance_ob(o, prev, b, True)
                        if r is False:
                            ok = False
                            break
                        if r is not True:
                            nob.add(r)
                    if ok:
                        if not nob:
                            return DONE
                        stubs.add((nfa.acc, frozenset(nob)))
            nt = set(mt.step(th, prev, b)) | stubs | set(init)
            return (cls_of(b), frozenset(nt))
        return (cls_of(b), mt.step(th, prev, b))

    def accept(st):
        if st == DONE:
            return True
        prev, th = st
        return any(mt.obs_hold(ob, prev, b"") for ob in mt.finals(th, prev, None))

    d = explore((START, init), classes, step, accept).minimize()
    _lang_cache[key] = d
    return d
