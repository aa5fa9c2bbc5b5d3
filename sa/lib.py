"""Semantics of the library operations the code uses, on abstract values."""
from fractions import Fraction
from . import rx, tn, rexec, cal, algo
from .rx import Dfa, ALL
from .val import *
from .state import *
from .interp import (last_name, base_type, targs, CmpR, FindR, NPOS, INTS, FLOATS, schar, fold_of, strip_targs)

SPACE_RE = b"[ \\t\\n\\v\\f\\r]*"
SP_STR = "std::basic_string<char>"
VEC_T = ("std::vector<", "std::list<", "std::deque<", "std::array<")
MAP_T = ("std::map<", "std::unordered_map<", "std::set<", "std::unordered_set<")


def d_at(k, mask):
    """texts whose byte at index k (from the end when negative) lies in mask"""
    def calc():
        if k >= 0:
            tr = [[(ALL, i + 1)] for i in range(k)]
            tr.append([(m, t) for m, t in ((mask, k + 1), (ALL & ~mask, k + 2)) if m])
            tr += [[(ALL, k + 1)], [(ALL, k + 2)]]
            return Dfa(tr, [False] * (k + 1) + [True, False])
        ast = ("cat", [("c", mask)] + [("c", ALL)] * (-k - 1))
        return tn.determinize(tn.concat([tn.anything(), tn.from_regex(ast)])).minimize()
    return cached(("at", k, mask), None, calc)


def d_le(n):
    """decimal digit strings of value <= n"""
    def calc():
        s = str(n)
        alts = ["0*[0-9]{0,%d}" % (len(s) - 1)]
        for i, c in enumerate(s):
            if c != "0":
                rest = len(s) - i - 1
                alts.append("0*%s[0-%d]%s" % (s[:i], int(c) - 1, "[0-9]{%d}" % rest if rest else ""))
        alts.append("0*" + s)
        return tn.d_regex("|".join(alts).encode())
    return cached(("le", n), None, calc)


def hashable_value(v):
    return isinstance(v, (int, bool, Fraction, bytes))


class Lib:
    def __init__(self, it):
        self.it = it
        self.st = it.st
        self.algo = algo.Algo(self)

    # ================================================================= defaults
    def default(self, t, zero):
        if t == SP_STR or t == "std::string":
            return b""
        for p in VEC_T:
            if t.startswith(p):
                ts = targs(t)
                v = Vec(p[5:-1], ts[0])
                if p == "std::array<":
                    v.e = [Cell(self.it.default(ts[0], zero)) for _ in range(int(ts[1].rstrip("UL")))]
                return v
        for p in MAP_T:
            if t.startswith(p):
                ts = targs(t)
                return Map(p[5:-1], ts[0], ts[1] if len(ts) > 1 else None)
        if t.startswith("std::pair<"):
            a, b = targs(t)[:2]
            return Obj("pair", {"first": Cell(self.it.default(a, True), "first"), "second": Cell(self.it.default(b, True), "second")})
        if t == "tm":
            o = Obj("tm")
            for n in ("tm_sec", "tm_min", "tm_hour", "tm_mday", "tm_mon", "tm_year", "tm_wday", "tm_yday", "tm_isdst"):
                o.f[n] = Cell(0 if zero else UNINIT, n)
            return o
        if t in ("boost::posix_time::ptime", "boost::gregorian::date"):
            return Special()
        if t.startswith("std::match_results<"):
            return MatchV()
        if t.startswith("std::basic_regex<"):
            return RegexV(b"", False)
        if t.startswith("std::shared_ptr<") or t.startswith("std::unique_ptr<"):
            return Ptr(None)
        if t in ("boost::posix_time::time_duration",):
            return Dur(0, 0)
        if t.startswith("std::optional<"):
            return Obj("optional", {"has": Cell(False, "has"), "val": Cell(UNINIT, "val")})
        if t.startswith("std::function<"):
            return Ptr(None)
        if "ostringstream" in t or "stringstream" in t:
            return Stream("str")
        if t.startswith("std::") and algo.strip(t) in algo.FUNCTORS and t.endswith(">"):
            return Obj(t)
        if t.startswith("std::tuple<"):
            return Obj("tuple", {str(i): Cell(self.it.default(x, True)) for i, x in enumerate(targs(t))})
        if t.startswith("std::nullopt_t"):
            return Obj("nullopt")
        if t.startswith("std::basic_string_view<char"):
            return b""
        if t.startswith("std::allocator") or t.startswith("std::hash"):
            return Unknown(t)
        if t.startswith("__gnu_cxx::__normal_iterator") or t.startswith("std::_Rb_tree") or t.startswith("std::__detail::_Node"):
            return UNINIT
        return None

    def global_value(self, e):
        n = last_name(e["qn"])
        if n in ("cout", "cerr", "clog"):
            return Stream(n)
        if n in ("npos",):
            return NPOS
        if n == "ignore":
            return Obj("ignore")
        if n == "nullopt":
            return Obj("nullopt")
        return Unknown("library object " + e["qn"])

    # ================================================================= text
    def text(self, x):
        v = self.it.load(x) if isinstance(x, Cell) else x
        if isinstance(v, SubM):
            return self.sub_str(v)
        if isinstance(v, Unknown):
            raise Undecided(v.why)
        if isinstance(v, Ptr) and v.cell is not None:
            return self.text(v.cell)
        return v

    def is_text(self, v):
        return isinstance(v, (bytes, Span, Cat, OpStr, SubM))

    def tpred(self, s, d, what):
        if isinstance(s, bytes):
            return d.accepts(s)
        if isinstance(s, Span):
            return self.st.pred(s, d, what)
        if isinstance(s, Cat):
            return d.accepts(self.concrete(s))
        raise Undecided("test on an unmodelled text")

    def choose_example(self, s):
        """forks: nothing assumed about s, or s is one of its shortest texts"""
        st = self.st
        if not st.choose(2, "an example"):
            return False
        w = tn.sample(st.span_tn(s))
        if w is None:
            raise Infeasible()
        w = w.lower() if s.f == "lower" else w
        if not st.pred(s, tn.d_words((w,)), "example"):
            raise Infeasible()
        return True

    def concrete(self, s):
        """known bytes of s, enumerating its words when there are few"""
        if isinstance(s, bytes):
            return s
        if isinstance(s, Span):
            ws = self.st.words(s, 64)
            if ws is None:
                raise Undecided("text with too many values")
            ws = sorted(ws)
            if len(ws) == 1:
                return ws[0]
            g = self.st.split(s, [[w] for w in ws], "text")
            if g is None:
                raise Infeasible()
            return g[0]
        if isinstance(s, Cat):
            return b"".join(self.concrete(p) for p in s.parts)
        raise Undecided("unmodelled text")

    def finite(self, s, fn, what):
        """fn applied to a text with finitely many values; splits by result"""
        if isinstance(s, bytes):
            return fn(s)
        if isinstance(s, Cat):
            return fn(self.concrete(s))
        if not isinstance(s, Span):
            raise Undecided(what + " of an unmodelled text")
        if s.f is None and "case" in self.st.opts:
            raise Undecided(what + " of the original text")
        ws = self.st.words(s, 600)
        if ws is None:
            raise Undecided(what + " of a text with too many values")
        groups = {}
        for w in ws:
            groups.setdefault(fn(w), []).append(w)
        if len(groups) == 1:
            return next(iter(groups))
        keys = list(groups)
        g = self.st.split(s, [groups[k] for k in keys], what)
        if g is None:
            raise Infeasible()
        for k in keys:
            if groups[k] == g:
                return k
        raise Infeasible()

    def cat(self, a, b):
        a, b = self.text(a), self.text(b)
        if isinstance(a, int) and not isinstance(a, bool):
            a = bytes([a & 255])
        if isinstance(b, int) and not isinstance(b, bool):
            b = bytes([b & 255])
        if isinstance(a, Chr):
            a = self.chr_text(a)
        if isinstance(b, Chr):
            b = self.chr_text(b)
        if not self.is_text(a) or not self.is_text(b):
            raise Undecided("concatenation")
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a + b
        c = Cat([a, b])
        out = []
        for p in c.parts:
            if isinstance(p, Span):
                if self.st.lens(p)[1] == 0:
                    continue
                if out and isinstance(out[-1], Span):
                    q = out[-1]
                    if q.sid == p.sid and q.f == p.f and (q.c == p.o or self.st.adj(q.sid, q.c, p.o)):
                        out[-1] = Span(q.sid, q.o, p.c, q.f)
                        continue
            out.append(p)
        if not out:
            return b""
        if len(out) == 1:
            return out[0]
        return Cat(out)

    def chr_text(self, c):
        if c.f_ is not None:
            raise Undecided("mapped character")
        if c.k == -1:
            n = self.length(c.s)
            return self.substr(c.s, sub(n, 1), 1)
        return self.substr(c.s, c.k, 1)

    def eq(self, a, b):
        a, b = self.text(a), self.text(b)
        if isinstance(a, bytes) and isinstance(b, bytes):
            return a == b
        if isinstance(b, bytes):
            a, b = b, a
        if isinstance(a, bytes):
            if isinstance(b, Span):
                return self.st.pred(b, tn.d_word(a), "text == \"%s\"" % a.decode("latin-1"))
            if isinstance(b, Cat):
                ps = list(b.parts)
                if ps and isinstance(ps[0], bytes):
                    if not a.startswith(ps[0]):
                        return False
                    a = a[len(ps[0]):]
                    ps = ps[1:]
                if ps and isinstance(ps[-1], bytes):
                    if not a.endswith(ps[-1]):
                        return False
                    a = a[:len(a) - len(ps[-1])]
                    ps = ps[:-1]
                if len(ps) == 1 and isinstance(ps[0], Span):
                    return self.eq(a, ps[0])
                return self.concrete(Cat(ps)) == a
            raise Undecided("comparison of an unmodelled text")
        if a == b and type(a) is type(b):
            return True
        if isinstance(a, Span) and isinstance(b, Span):
            wa, wb = self.st.words(a, 40), self.st.words(b, 40)
            if wa is not None and wb is not None:
                if not set(wa) & set(wb):
                    return False
                if len(wa) <= len(wb):
                    return self.eq(self.concrete(a), b)
                return self.eq(a, self.concrete(b))
        raise Undecided("comparison of two texts")

    def length(self, s):
        if isinstance(s, bytes):
            return len(s)
        if isinstance(s, Span):
            return self.st.norm_pos(self.st.length(s))
        if isinstance(s, Cat):
            n = 0
            for p in s.parts:
                n = add(n, self.length(p))
            return n
        if isinstance(s, OpStr):
            if s.k[0] == "lentext":
                return s.k[1]
            if s.k[0] == "tail":
                return self.st.norm_pos(sub(self.st.P(s.k[1], s.k[3]), s.k[2]))
            return atom("usize", s)
        raise Undecided("length")

    def locate(self, s, pos):
        """marker of the position `pos` inside span s (0 <= pos <= length known)"""
        st = self.st
        if pos == 0:
            return s.o
        p = st.norm_pos(add(st.P(s.sid, s.o), pos))
        m = st.marker_at(s.sid, p)
        if m is not None:
            return m
        n = st.norm_pos(sub(self.length(s), pos))
        if n == 0:
            return s.c
        base, k = s.o, pos
        if isinstance(pos, Lin):
            k = p.c if isinstance(p, Lin) else p
            m = st.marker_at(s.sid, sub(p, k))
            if m is None or not isinstance(k, int) or abs(k) > 64:
                if isinstance(n, int) and 0 < n <= 64:
                    m, k = s.c, -n
                else:
                    raise Undecided("position inside a text")
            base = m
        if not isinstance(k, int) or abs(k) > 256:
            raise Undecided("position inside a text")
        q = st.quiet
        if k >= 0:
            pat, sp = b"^([\\s\\S]{%d})" % k, Span(s.sid, base, s.c)
        else:
            pat, sp = b"([\\s\\S]{%d})$" % -k, Span(s.sid, s.o if base != s.o else tn.START_M, base)
        sav = st.opts
        st.opts = {a: b for a, b in sav.items() if a != "case"}
        try:
            mid = st.search(sp, pat, False, "search", (1,))
        finally:
            st.opts = sav
        if mid is None:
            lo = st.range_of(st.norm_pos(pos))[0]
            if lo is not None and lo >= 0:
                raise Infeasible()      # the position is known to lie inside the span
            raise Undecided("position inside a text")
        return (mid, 1, "c") if k >= 0 else (mid, 1, "o")

    def substr(self, s, pos, n=NPOS):
        s = self.text(s)
        if isinstance(s, (Cat, OpStr)):
            if pos == 0 and n == NPOS:
                return s
            s = self.concrete(s) if isinstance(s, Cat) else s
        if isinstance(s, bytes):
            pos = cal.concrete(self.st, pos)
            if pos is None:
                raise Undecided("substring at a variable position")
            if pos > len(s):
                raise Throw("std::out_of_range", "substr past the end", self.st.loc)
            k = cal.concrete(self.st, n)
            if k is None:
                raise Undecided("substring of a variable length")
            return s[pos:] if k == NPOS else s[pos:pos + k]
        if not isinstance(s, Span):
            raise Undecided("substring of an unmodelled text")
        L = self.length(s)
        if self.st.cmp(">", pos, L):
            raise Throw("std::out_of_range", "substr past the end", self.st.loc)
        tail = isinstance(n, int) and n >= 2 ** 62
        try:
            o = self.locate(s, pos)
        except Undecided:
            if tail and "opentail" in self.st.opts:
                return OpStr("tail", s.sid, self.st.norm_pos(add(self.st.P(s.sid, s.o), pos)), s.c)
            raise
        if tail:
            return Span(s.sid, o, s.c, s.f)
        if self.st.cmp(">=", n, sub(L, pos)):
            return Span(s.sid, o, s.c, s.f)
        c = self.locate(Span(s.sid, o, s.c, s.f), n) if not (isinstance(n, Lin)) else self.locate(s, add(pos, n))
        if o != c and not tn.empty(tn.span(self.st.roots[s.sid], c, o)) and self.st.cmp("==", self.st.P(s.sid, c), self.st.P(s.sid, o)):
            return b""          # both ends at one position, where their order says nothing
        return Span(s.sid, o, c, s.f)

    # ---------------------------------------------------------------- characters
    def str_index(self, cell, i, at=False):
        s = self.text(cell)
        i = self.it.num(i)
        w = self.it.swept
        if w is not None and i == SWEEP and isinstance(s, Span):
            if (s.sid, s.o, s.c) != (w["span"].sid, w["span"].o, w["span"].c):
                raise Undecided("loop over the characters of a text")
            x = w["cells"].get(id(cell))
            if x is None:
                x = w["cells"][id(cell)] = (cell, Cell(schar(w["b"]) if s.f == w["span"].f else None, "character"))
            return x[1]
        if isinstance(s, bytes):
            i = cal.concrete(self.st, i)
            if i is None:
                raise Undecided("character at a variable index")
            if i > len(s) or (at and i == len(s)) or i < 0:
                if at:
                    raise Throw("std::out_of_range", "at() past the end", self.st.loc)
                self.st.event("oob", "string index")
                raise Undecided("string index out of range")
            c = Cell(schar(s[i]) if i < len(s) else 0, "character of a text")
        else:
            if isinstance(s, Cat):
                return self.str_index(Cell(self.concrete(s)), i, at)
            if not isinstance(s, Span):
                raise Undecided("character of an unmodelled text")
            if isinstance(i, Lin):
                d = self.st.norm_pos(sub(self.length(s), i))
                if isinstance(d, int) and 0 < d < 64:
                    i = -d
                else:
                    raise Undecided("character at a variable index")
            if at and i >= 0 and self.st.cmp("<=", self.length(s), i):
                raise Throw("std::out_of_range", "at() past the end", self.st.loc)
            c = Cell(Chr(s, i), "character of a text")
        if isinstance(cell, Cell):
            c.own = cell
        return c

    def store_char(self, c, v):
        base = c.own
        if base is None:
            raise Undecided("write to a character")
        raise Undecided("write to a character")

    def chr_map(self, c):
        return c.f_

    def chr_pred(self, c, fn, what):
        """does fn hold for the character?  fn over signed char values"""
        t = c.f_
        mask = 0
        for b in range(256):
            v = schar(b)
            if t:
                v = t[b]
            if fn(v):
                mask |= 1 << b
        s = c.s
        zero = bool(fn(0)) and c.k >= 0
        d = d_at(c.k, mask)
        if zero:
            # reading the terminating zero
            k = c.k
            tr = [[(ALL, i + 1)] for i in range(k)] + [[(m, t2) for m, t2 in ((mask, k + 1), (ALL & ~mask, k + 2)) if m],
                                                      [(ALL, k + 1)], [(ALL, k + 2)]]
            d = Dfa(tr, [False] * k + [True, True, False])
        return self.tpred(s, d, what)

    def chr_values(self, c):
        if c.k == -1:
            sp = self.substr(c.s, sub(self.length(c.s), 1), 1)
        else:
            sp = self.substr(c.s, c.k, 1)
        w = self.concrete(sp)
        if not w:
            return 0
        return c.f_[w[0]] if c.f_ else schar(w[0])

    # ================================================================= regular expressions
    def mkregex(self, pat, flags):
        pat = self.text(pat)
        if not isinstance(pat, bytes):
            raise Undecided("pattern is not a constant")
        icase = False
        if flags is not None:
            f = self.it.num(self.it.load(flags) if isinstance(flags, Cell) else flags)
            if not isinstance(f, int):
                raise Undecided("regex flags")
            icase = bool(f & 1)
            if f & ~(1 | 2 | 4 | 8 | 16):
                raise Undecided("regex flags")
        try:
            rx.parse(pat, icase)
        except rx.RegexError as e:
            self.st.event("badregex", pat.decode("latin-1"), str(e))
            raise Throw("std::regex_error", "invalid pattern: %s" % e, self.st.loc)
        except rx.Unsupported as e:
            raise Undecided("pattern construct: %s" % e)
        return RegexV(pat, icase)

    def subject(self, s):
        if isinstance(s, bytes):
            return self.st.new_text(tn.const(s)) if s else self.st.new_text(tn.const(b""))
        if isinstance(s, Cat):
            return self.subject(self.concrete(s))
        if isinstance(s, Span):
            return s
        raise Undecided("matching an unmodelled text")

    def do_match(self, strv, re, mode, mcell=None, srccell=None):
        re = self.it.load(re) if isinstance(re, Cell) else re
        if not isinstance(re, RegexV):
            raise Undecided("unknown pattern")
        if self.st.opts.get("onregex"):
            self.st.opts["onregex"](self, strv, re, mode, mcell)
        if isinstance(strv, bytes) and mcell is None:
            g = rexec.search(re.pat, re.icase, strv) if mode == "search" else rexec.matches(rx.parse(re.pat, re.icase)[0], strv, 0, True)
            return g is not None
        if isinstance(strv, Span) and mcell is None:
            d = rx.regex_lang(re.pat, re.icase, mode)
            return self.st.pred(strv, d, "match of \"%s\"" % re.pat[:60].decode("latin-1"))
        sp = self.subject(strv)
        mid = self.st.search(sp, re.pat, re.icase, mode)
        if mcell is not None:
            m = MatchV()
            m.ready = True
            if mid is not None:
                m.mid, m.src = mid, sp
                m.pat, m.icase = re.pat, re.icase
                m.n = rx.parse(re.pat, re.icase)[1] + 1
            if isinstance(srccell, Cell):
                m.cell, m.ver = srccell, srccell.ver
            self.it.store(mcell, m)
        return mid is not None

    def chk(self, m):
        if m.cell is not None and (m.cell.ver != m.ver or m.cell.dead):
            self.st.event("stale", m.cell.name or "text")
            raise Undecided("match used after its text changed")

    def group(self, m, k):
        """Span of group k or None"""
        self.chk(m)
        k = cal.concrete(self.st, k)
        if k is None:
            raise Undecided("group number")
        if m.mid is None or k >= m.n or k < 0:
            return None
        self.st.need(m.pat, m.icase, k)
        if k and not self.st.present(m.src.sid, (m.mid, k, "o")):
            return None
        return Span(m.src.sid, (m.mid, k, "o"), (m.mid, k, "c"), m.src.f)

    def sub_str(self, s):
        g = self.group(s.m, s.k)
        if g is None:
            return b""
        if self.st.lens(g)[1] == 0:
            return b""
        return g

    def sub_matched(self, s):
        if s.k == "pre" or s.k == "suf":
            return not self.eq(self.sub_text(s), b"")
        return self.group(s.m, s.k) is not None

    def sub_text(self, s):
        m = s.m
        if s.k == "pre":
            self.chk(m)
            return Span(m.src.sid, m.src.o, (m.mid, 0, "o"), m.src.f)
        if s.k == "suf":
            self.chk(m)
            return Span(m.src.sid, (m.mid, 0, "c"), m.src.c, m.src.f)
        return self.sub_str(s)

    # ================================================================= numbers from text
    def parse_int(self, s, fl=False):
        s = self.text(s)
        if isinstance(s, (Cat,)):
            s = self.concrete(s)
        if isinstance(s, bytes):
            return self.parse_bytes(s, fl)
        if not isinstance(s, Span):
            raise Undecided("number from an unmodelled text")
        ws = self.st.words(s, 64)
        if ws is not None and len(ws) == 1:
            return self.parse_bytes(ws[0], fl)
        st = self.st
        if fl:
            bad = tn.d_regex(SPACE_RE + b"[+-]?(inf|nan|0x|\\.[0-9]|[0-9]+(\\.[0-9]|e[+-]?[0-9]))[\\s\\S]*", True)
            if st.pred(s, bad, "number in an unusual notation"):
                raise Undecided("number in an unusual notation")
        if not st.pred(s, tn.d_regex(SPACE_RE + b"[+-]?[0-9][\\s\\S]*"), "text starts with a number"):
            raise Throw("std::invalid_argument", "text is not a number", st.loc)
        sav = st.opts
        st.opts = {a: b for a, b in sav.items() if a not in ("case", "approx")}
        try:
            mid = st.search(s, b"^[ \\t\\n\\v\\f\\r]*([+-]?)([0-9]+)", False, "search", (1, 2))
        finally:
            st.opts = sav
        sg = self.concrete(Span(s.sid, (mid, 1, "o"), (mid, 1, "c")))
        ds = Span(s.sid, (mid, 2, "o"), (mid, 2, "c"))
        lim = 2 ** 31 - 1 if not fl else 10 ** 38
        if not st.pred(ds, d_le(lim), "number fits"):
            raise Throw("std::out_of_range", "number too large", st.loc)
        ws = st.words(ds, 64)
        if ws is not None and len(ws) == 1:
            v = int(ws[0])
        else:
            v = self.number_atom(ds)
        return neg(v) if sg == b"-" else v

    def number_atom(self, ds):
        st = self.st
        root = st.roots[ds.sid]
        for m in sorted(root.markers(), key=repr):
            if m[0] == "$" and len(m) == 3 and m[2] == "o" and st.adj(ds.sid, m, ds.o) and st.adj(ds.sid, ("$", m[1], "c"), ds.c):
                a = ("fld", m[1])
                if a not in st.numspan:
                    st.numspan[a] = (ds.sid, ds.o, ds.c)
                return Lin(0, {a: 1})
        for (sid, o, c, a) in st.nums:
            if sid == ds.sid and st.adj(sid, o, ds.o) and st.adj(sid, c, ds.c):
                return Lin(0, {a: 1})
        a = ("num", "#%d" % (len(st.nums) + 1))
        st.nums.append((ds.sid, ds.o, ds.c, a))
        st.numspan[a] = (ds.sid, ds.o, ds.c)
        return Lin(0, {a: 1})

    def parse_bytes(self, s, fl):
        i = 0
        while i < len(s) and s[i:i + 1] in b" \t\n\v\f\r":
            i += 1
        j = i
        if j < len(s) and s[j:j + 1] in b"+-":
            j += 1
        k = j
        while k < len(s) and 48 <= s[k] <= 57:
            k += 1
        if fl:
            import re as _re
            m = _re.match(rb"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", s[i:])
            if not m:
                if s[i:i + 3].lower() in (b"inf", b"nan"):
                    raise Undecided("inf/nan")
                raise Throw("std::invalid_argument", "text is not a number", self.st.loc)
            v = fr(Fraction(m.group(0).decode().rstrip(".")))
            return v
        if k == j:
            raise Throw("std::invalid_argument", "text \"%s\" is not a number" % s.decode("latin-1"), self.st.loc)
        v = int(s[i:k])
        if not -2 ** 31 <= v < 2 ** 31:
            raise Throw("std::out_of_range", "number too large", self.st.loc)
        return v

    # ================================================================= maps
    def map_key(self, m, k):
        if isinstance(k, Cell):
            k = self.it.load(k)
        if isinstance(k, SubM):
            k = self.sub_str(k)
        if isinstance(k, (Cat,)):
            k = self.concrete(k)
        if isinstance(k, OpStr) or isinstance(k, Unknown) or isinstance(k, Lin):
            raise Undecided("lookup with an unmodelled key")
        return k

    def map_lookup(self, m, k, what):
        """-> concrete key that is present, or None (miss)"""
        k = self.map_key(m, k)
        if m.lazy is not None:
            return m.lazy(self, m, k, what)
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, (bytes, int)):
            return k if k in m.e else None
        if not isinstance(k, Span):
            raise Undecided("lookup with an unmodelled key")
        groups = {}
        for key, c in m.e.items():
            gk = ("v", c.v) if hashable_value(c.v) else ("k", key)
            groups.setdefault(gk, []).append(key)
        gs = list(groups.values())
        g = self.st.split(k, gs, "word looked up in %s" % (m.name or "a table"))
        return None if g is None else g[0]

    def map_index(self, m, kc, what="[]"):
        k = self.map_lookup(m, kc, what)
        if k is not None:
            return m.e[k]
        key = self.map_key(m, kc)
        if m.g:
            w = key
            if isinstance(key, Span):
                w = tn.sample(self.st.span_tn(key))
            self.st.event("miss", m.g, w)
            self.st.event("gwrite", m.g)
        c = Cell(self.it.default(m.vt, zero=True), None, m.g)
        if isinstance(key, (bytes, int)) :
            m.e[int(key) if isinstance(key, bool) else key] = c
        return c

    def map_pair(self, m, k):
        o = Obj("pair")
        o.f["first"] = Cell(k, "first")
        o.f["second"] = m.e[k]
        return o

    def map_insert(self, m, k, v, assign=False):
        k = self.map_key(m, k)
        if isinstance(k, Span):
            k = self.concrete(k)
        if isinstance(k, bool):
            k = int(k)
        hit = self.map_lookup(m, k, "insert")
        if hit is not None:
            if assign:
                self.it.store(m.e[hit], v)
            return hit, False
        self.it.touch(m)
        m.e[k] = Cell(v)
        return k, True

    # ================================================================= containers
    def elements(self, rng):
        if isinstance(rng, Vec):
            return rng.e
        if isinstance(rng, Map):
            if rng.lazy:
                raise Undecided("iteration over a symbolic table")
            if rng.kind in ("set", "unordered_set"):
                return [Cell(k) for k in rng.keys()]
            return [Cell(self.map_pair(rng, k)) for k in rng.keys()]
        if isinstance(rng, MatchV):
            self.chk(rng)
            return [Cell(SubM(rng, k)) for k in range(rng.n)]
        raise Undecided("iteration over " + type(rng).__name__)

    def vec_at(self, vec, i, kind):
        i = self.it.num(i)
        i = cal.concrete(self.st, i) if isinstance(i, Lin) else i
        if i is None:
            raise Undecided("element at a variable index")
        if i >= len(vec.e) or i < 0:
            if kind == "at":
                raise Throw("std::out_of_range", "at() past the end", self.st.loc)
            self.st.event("oob", "vector index %d of %d" % (i, len(vec.e)))
            raise Undecided("index out of range")
        return vec.e[i]

    def it_deref(self, it):
        c = it.c
        if isinstance(c, Vec):
            k = it.k
            if it.rev:
                k = len(c.e) - 1 - k
            if not isinstance(k, int) or not 0 <= k < len(c.e):
                self.st.event("oob", "iterator past the end")
                raise Undecided("iterator past the end")
            return c.e[k]
        if isinstance(c, Map):
            if it.k is END:
                self.st.event("oob", "end iterator dereferenced")
                raise Undecided("end iterator dereferenced")
            if c.kind in ("set", "unordered_set"):
                return Cell(it.k)
            return Cell(self.map_pair(c, it.k))
        if isinstance(c, Cell):
            if it.rev:
                t = self.text(c)
                return self.str_index(c, sub(sub(self.length(t), 1), it.k))
            return self.str_index(c, it.k)
        raise Undecided("iterator")

    def it_step(self, it, n):
        if isinstance(it.c, Map):
            ks = it.c.keys()
            i = len(ks) if it.k is END else ks.index(it.k)
            i += n
            return It(it.c, ks[i] if 0 <= i < len(ks) else END)
        return It(it.c, add(it.k, n), it.rev)

    # ================================================================= construction
    def construct(self, t, args, e):
        it = self.it
        vals = None
        n = len(args)
        if e.get("copy") or e.get("move"):
            return it.copy(it.load(args[0]) if isinstance(args[0], Cell) else args[0])
        if t == SP_STR:
            return self.mkstring(args, e)
        if t.startswith("std::basic_regex<"):
            if n == 0:
                return RegexV(b"", False)
            v = it.load(args[0])
            if isinstance(v, RegexV):
                return v
            return self.mkregex(args[0], args[1] if n > 1 else None)
        if t.startswith("std::pair<"):
            if n == 0:
                return self.default(t, True)
            if n == 1:
                return it.copy(it.load(args[0]))
            return Obj("pair", {"first": Cell(it.copy(self.rvtext(args[0])), "first"),
                                "second": Cell(it.copy(it.load(args[1])), "second")})
        for p in VEC_T:
            if t.startswith(p):
                return self.mkvec(t, args, e)
        for p in MAP_T:
            if t.startswith(p):
                return self.mkmap(t, args, e)
        if t.startswith("std::shared_ptr<") or t.startswith("std::unique_ptr<"):
            if n == 0:
                return Ptr(None)
            return it.load(args[0])
        if t.startswith("boost::"):
            return self.mkboost(t, [it.load(a) for a in args], e)
        if t.startswith("std::function<") and n >= 1:
            return it.load(args[0])
        if t.startswith("__gnu_cxx::__normal_iterator") or strip_targs(t).endswith("iterator"):
            return it.load(args[0]) if n else UNINIT
        if t.startswith("std::optional<"):
            if n == 0:
                return self.default(t, True)
            v = self.rvtext(args[0])
            if isinstance(v, Obj) and v.cls == "optional":
                return it.copy(v)
            if isinstance(v, Obj) and v.cls == "nullopt":
                return self.default(t, True)
            return Obj("optional", {"has": Cell(True), "val": Cell(it.copy(v))})
        if t.startswith("std::logic_error") or t.startswith("std::runtime_error") or t in EXC:
            return OpStr("exception", t)
        if t.startswith("std::basic_string_view<char"):
            return self.mkstring(args, e)
        if t.startswith("std::tuple<"):
            if n == 1 and isinstance(it.load(args[0]), Obj) and it.load(args[0]).cls in ("tuple", "pair"):
                return it.copy(it.load(args[0]))
            if n:
                return Obj("tuple", {str(i): Cell(it.copy(self.rvtext(a))) for i, a in enumerate(args)})
        if t.startswith("std::basic_istringstream<char") or t.startswith("std::basic_stringstream<char") and n:
            s = Stream("str")
            s.inp = self.concrete(self.text(args[0])) if n and self.is_text(it.load(args[0])) else b""
            if t.startswith("std::basic_stringstream"):
                s.out = [s.inp]
            return s
        if t.startswith("std::basic_ostringstream<char") and n:
            return Stream("str")
        d = self.default(t, False)
        if d is not None and n == 0:
            return d
        if t.startswith("std::sub_match") and n == 1:
            return it.load(args[0])
        raise Undecided("construction of " + t)

    def rvtext(self, a):
        v = self.it.load(a) if isinstance(a, Cell) else a
        return self.sub_text(v) if isinstance(v, SubM) else v

    def mkstring(self, args, e):
        it = self.it
        vals = [it.load(a) if isinstance(a, Cell) else a for a in args]
        vals = [v for v in vals if not (isinstance(v, Unknown) and "allocator" in v.why)]
        if not vals:
            return b""
        v = self.rvtext(vals[0])
        if len(vals) == 1:
            if self.is_text(v):
                return v
            if isinstance(v, Vec):
                return bytes(it.load(c) & 255 for c in v.e)
            if isinstance(v, Ptr):
                return self.text(v)
            raise Undecided("string construction")
        if isinstance(v, It) and isinstance(vals[1], It):
            return self.it_text(v, vals[1])
        if is_num(v) and is_num(vals[1]):
            k = cal.concrete(self.st, v)
            ch = cal.concrete(self.st, vals[1])
            if k is not None and ch is not None and 0 <= k < 10000:
                return bytes([ch & 255]) * k
            if ch is not None and isinstance(v, Lin):
                for x in it.env.values():
                    if isinstance(x, Cell) and isinstance(x.v, Span) and self.length(x.v) == v:
                        return self.folded(x.v, ("map", (ch & 255,) * 256))
            raise Undecided("string construction")
        if self.is_text(v):
            t0 = base_type(e["a"][0]["t"])
            if t0.endswith("*") or t0.endswith("]"):
                return self.substr(v, 0, it.num(vals[1]))
            return self.substr(v, it.num(vals[1]), it.num(vals[2]) if len(vals) > 2 else NPOS)
        raise Undecided("string construction")

    def mkvec(self, t, args, e):
        it = self.it
        ts = targs(t)
        v = self.default(t, False)
        vals = [it.load(a) if isinstance(a, Cell) else a for a in args]
        vals = [x for x in vals if not (isinstance(x, Unknown) and ("allocator" in x.why))]
        if not vals:
            return v
        if isinstance(vals[0], Vec):
            v.e = [Cell(it.copy(it.load(c))) for c in vals[0].e]
            return v
        if isinstance(vals[0], It) and len(vals) > 1:
            v.e = [Cell(it.copy(it.load(c))) for c in self.range_cells(vals[0], vals[1])]
            return v
        if is_num(vals[0]):
            k = cal.concrete(self.st, vals[0])
            if k is None or k > 10000:
                raise Undecided("container size")
            v.e = [Cell(it.copy(vals[1]) if len(vals) > 1 else it.default(ts[0], True)) for _ in range(k)]
            return v
        raise Undecided("container construction")

    def mkmap(self, t, args, e):
        it = self.it
        m = self.default(t, False)
        vals = [it.load(a) if isinstance(a, Cell) else a for a in args]
        vals = [x for x in vals if not isinstance(x, Unknown) and not (isinstance(x, Obj) and algo.strip(x.cls) in algo.FUNCTORS)]
        if not vals or is_num(vals[0]):
            return m
        if isinstance(vals[0], Vec):
            for c in vals[0].e:
                p = it.load(c)
                if m.kind in ("set", "unordered_set"):
                    k = self.map_key(m, p)
                    m.e.setdefault(k, Cell(True))
                    continue
                k = self.map_key(m, p.f["first"])
                if not isinstance(k, (bytes, int)):
                    raise Undecided("table key")
                if k not in m.e:
                    m.e[k] = Cell(it.copy(it.load(p.f["second"])))
            return m
        if isinstance(vals[0], Map):
            return it.copy(vals[0])
        raise Undecided("table construction")

    def mkboost(self, t, a, e):
        st = self.st
        n = strip_targs(t.split("::")[-1]) if "<" not in t else strip_targs(t[:t.find("<")].split("::")[-1])
        a = [x for x in a]
        if n == "date":
            if not a:
                return Special()
            if len(a) == 3:
                return cal.make_date(st, *[self.it.num(x) for x in a])
            if len(a) == 1 and isinstance(a[0], (D, Special)):
                return a[0]
            if len(a) == 1:
                return Special()
        if n == "ptime":
            if not a:
                return Special()
            if len(a) == 1 and isinstance(a[0], (PT, Special)):
                return a[0]
            if len(a) == 1 and isinstance(a[0], D):
                return PT(a[0], 0, 0)
            if len(a) == 2 and isinstance(a[0], D) and isinstance(a[1], Dur):
                return cal.mkpt(st, a[0], a[1].k, a[1].secs)
            if len(a) == 1:
                return Special()
        if n in ("date_duration", "days", "weeks_duration", "weeks", "months_duration", "months", "years_duration", "years"):
            if not a:
                return DDur("d", 0)
            if isinstance(a[0], DDur):
                return a[0]
            x = self.it.num(a[0])
            if isinstance(x, Fraction):
                x = int(x)
            if n.startswith("w"):
                return DDur("d", scale(x, 7))
            if n.startswith("month"):
                return DDur("m", x)
            if n.startswith("y"):
                return DDur("m", scale(x, 12))
            return DDur("d", x)
        if n in ("hours", "minutes", "seconds"):
            x = self.it.num(a[0])
            if isinstance(x, Fraction):
                x = int(x)
            return Dur(0, scale(x, {"hours": 3600, "minutes": 60, "seconds": 1}[n]))
        if n == "time_duration":
            if not a:
                return Dur(0, 0)
            if len(a) == 1 and isinstance(a[0], Dur):
                return a[0]
            if len(a) >= 3:
                h, m, s = [self.it.num(x) for x in a[:3]]
                return Dur(0, add(add(scale(h, 3600), scale(m, 60)), s))
        if n in ("int_adapter",):
            x = self.it.num(a[0])
            return int(x) if isinstance(x, Fraction) else x
        if n in ("greg_month", "greg_day", "greg_weekday", "greg_year"):
            if not a:
                return 1
            x = self.it.num(a[0])
            lo, hi, ex = {"greg_month": (1, 12, "bad_month"), "greg_day": (1, 31, "bad_day_of_month"),
                          "greg_weekday": (0, 6, "bad_weekday"), "greg_year": (1400, 9999, "bad_year")}[n]
            cal.rng(st, x, lo, hi, "boost::gregorian::" + ex, n[5:])
            return x
        if n in ("first_kday_before", "first_kday_after"):
            return NDow("kdb" if n.endswith("before") else "kda", self.it.num(a[0]))
        if n == "nth_kday_of_month":
            return NDow("ndow", *[self.it.num(x) for x in a])
        if n == "last_kday_of_month":
            return NDow("ldow", *[self.it.num(x) for x in a])
        if n == "first_kday_of_month":
            return NDow("ndow", 1, *[self.it.num(x) for x in a])
        if n == "partial_date" and len(a) == 2:
            return NDow("part", *[self.it.num(x) for x in a])
        raise Undecided("construction of " + t)

    def assign_value(self, old, r):
        if isinstance(r, SubM):
            r = self.sub_text(r)
        if isinstance(old, Obj) and old.cls == "optional" and not (isinstance(r, Obj) and r.cls == "optional"):
            if isinstance(r, Obj) and r.cls == "nullopt":
                return Obj("optional", {"has": Cell(False), "val": Cell(UNINIT)})
            return Obj("optional", {"has": Cell(True), "val": Cell(self.it.copy(r))})
        if isinstance(old, (bytes, Span, Cat, OpStr)) and isinstance(r, int):
            return bytes([r & 255])
        if isinstance(r, (Vec, Map, Obj, MatchV)):
            n = self.it.copy(r)
            if isinstance(r, Vec) and isinstance(old, Vec):
                n.kind, n.et = old.kind, old.et
            if isinstance(n, Map) and isinstance(old, Map):
                n.kind, n.kt, n.vt = old.kind, old.kt, old.vt
            return n
        return r

    # ================================================================= member functions
    def method(self, cell, obj, name, args, e):
        it, st = self.it, self.st
        if isinstance(obj, Unknown):
            raise Undecided(obj.why)
        if isinstance(obj, SubM):
            if name in ("str",) or name.startswith("operator "):
                return self.sub_text(obj)
            if name == "length":
                return self.length(self.sub_text(obj))
            if name == "compare":
                return CmpR(self.sub_text(obj), self.text(args[0]))
            raise Undecided("sub_match::" + name)
        if self.is_text(obj):
            return self.m_string(cell, obj, name, args, e)
        if isinstance(obj, MatchV):
            return self.m_match(cell, obj, name, args, e)
        if isinstance(obj, Vec):
            return self.m_vec(cell, obj, name, args, e)
        if isinstance(obj, Map):
            return self.m_map(cell, obj, name, args, e)
        if isinstance(obj, (D, PT, Special, Dur, DDur, NDow)):
            return self.m_cal(cell, obj, name, [it.load(a) if isinstance(a, Cell) else a for a in args], e)
        if is_num(obj) or isinstance(obj, bool):
            if name.startswith("operator ") or name in ("as_number", "as_enum", "value_", "as_special", "get_rep"):
                return obj
            raise Undecided("member " + name)
        if isinstance(obj, Ptr):
            if name == "get":
                return obj
            if name == "reset":
                it.store(cell, it.load(args[0]) if args else Ptr(None))
                return None
            if name == "operator bool":
                return obj.cell is not None
            raise Undecided("pointer member " + name)
        if isinstance(obj, Stream):
            if name == "str":
                if args:
                    w = self.concrete(self.text(args[0]))
                    obj.out = [w] if w else []
                    obj.inp = w if obj.inp is not None else None
                    return None
                return self.joined(obj.out)
            if name in ("good", "fail", "bad", "eof", "operator bool", "operator!"):
                if obj.inp is None or name == "eof":
                    return name in ("good", "operator bool")
                return obj.bad != (name in ("good", "operator bool"))
            if name in ("width", "fill", "precision") and args:
                if name != "precision":
                    setattr(obj, "w" if name == "width" else "fillc", it.load(args[0]))
                return 0
            if name in ("clear", "flush", "precision"):
                return None
            return cell if cell is not None else obj
        if isinstance(obj, Obj) and obj.cls == "pair":
            raise Undecided("pair member " + name)
        if isinstance(obj, Obj) and obj.cls == "optional":
            if name in ("has_value", "operator bool"):
                return it.load(obj.f["has"])
            if name == "value_or":
                return it.load(obj.f["val"]) if it.load(obj.f["has"]) else it.load(args[0])
            if name == "value":
                if not it.load(obj.f["has"]):
                    raise Throw("std::bad_optional_access", "empty optional", st.loc)
                return obj.f["val"]
            if name == "reset":
                it.store(obj.f["has"], False)
                return None
            if name == "emplace" and len(args) == 1:
                it.store(obj.f["has"], True)
                it.store(obj.f["val"], it.copy(it.load(args[0])))
                return obj.f["val"]
        if isinstance(obj, It):
            raise Undecided("iterator member " + name)
        if isinstance(obj, Obj) and obj.cls == "tm":
            raise Undecided("tm member")
        if isinstance(obj, RegexV):
            if name == "mark_count":
                return rx.parse(obj.pat, obj.icase)[1]
            raise Undecided("regex member " + name)
        if isinstance(obj, (Closure, FnRef)) and name == "operator bool":
            return True
        raise Undecided("member function " + name)

    def joined(self, out):
        r = b""
        for x in out:
            if isinstance(x, bool):
                x = int(x)
            if isinstance(x, int):
                x = str(x).encode()
            elif isinstance(x, Fraction):
                x = ("%g" % x).encode()
            elif isinstance(x, Lin):
                x = OpStr("to_string", x)
            elif not self.is_text(x):
                raise Undecided("text of a stream")
            r = self.cat(r, x)
        return r

    def m_string(self, cell, s, name, args, e):
        it, st = self.it, self.st
        A = [it.load(a) if isinstance(a, Cell) else a for a in args]
        if isinstance(s, OpStr) and name not in ("c_str", "data", "length", "size", "what", "empty"):
            if name in ("begin", "end", "substr"):
                pass
            else:
                raise Undecided("operation on an unmodelled text")
        if name == "what":
            return s
        if name in ("length", "size"):
            return self.length(s)
        if name == "empty":
            if isinstance(s, Span):
                return st.pred(s, tn.d_word(b""), "text is empty")
            if isinstance(s, Cat):
                return self.st.cmp("==", self.length(s), 0)
            if isinstance(s, OpStr):
                return self.st.cmp("==", self.length(s), 0)
            return not s
        if name in ("c_str", "data", "str"):
            return s
        if name == "compare":
            if len(A) == 1:
                return CmpR(s, self.text(A[0]))
            return CmpR(self.substr(s, it.num(A[0]), it.num(A[1])), self.text(A[2]))
        if name in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of"):
            n = self.rvtext(A[0])
            if is_num(n):
                n = bytes([n & 255]) if isinstance(n, int) else None
            pos = A[1] if len(A) > 1 else (NPOS if name in ("rfind", "find_last_of", "find_last_not_of") else 0)
            if isinstance(n, Chr):
                n = self.chr_text(n)
            if isinstance(n, Span) and isinstance(s, Span) and name == "find" and pos == 0 and n.sid == s.sid and n.f == s.f and st.words(n, 64) is None:
                # the place of a piece in the text it is a piece of: that place, unless the piece also occurs earlier (one example)
                inside = [st.range_of(st.norm_pos(sub(st.P(n.sid, y), st.P(n.sid, x))))[0] for x, y in ((s.o, n.o), (n.c, s.c))]
                if all(x is not None and x >= 0 for x in inside) and not self.choose_example(n):
                    return st.norm_pos(sub(st.P(n.sid, n.o), st.P(n.sid, s.o)))
            if isinstance(n, (Span, Cat)):
                n = self.concrete(n)
            if not isinstance(n, bytes):
                raise Undecided("search for an unmodelled text")
            if isinstance(s, Cat):
                s = self.concrete(s)
            if isinstance(s, bytes):
                p = cal.concrete(st, pos)
                if p is None:
                    raise Undecided("search at a variable position")
                return self.find_bytes(s, n, p, name)
            return FindR(s, n, pos, name)
        if name == "substr":
            return self.substr(s, it.num(A[0]) if A else 0, it.num(A[1]) if len(A) > 1 else NPOS)
        if name in ("at",):
            return self.str_index(cell, A[0], True)
        if name == "operator[]":
            return self.str_index(cell, A[0])
        if name == "front":
            return self.str_index(cell, 0)
        if name == "back":
            if isinstance(s, bytes):
                if not s:
                    st.event("oob", "back() of an empty text")
                    raise Undecided("back() of an empty text")
                return self.str_index(cell, len(s) - 1)
            if isinstance(s, Cat):
                return self.str_index(Cell(self.concrete(s)[-1:]), 0)
            c = Cell(Chr(s, -1), "character of a text")
            c.own = cell if isinstance(cell, Cell) else None
            return c
        if name in ("begin", "cbegin"):
            return It(cell if isinstance(cell, Cell) else Cell(s), 0)
        if name in ("end", "cend"):
            return It(cell if isinstance(cell, Cell) else Cell(s), self.length(s))
        if name in ("append", "push_back", "operator+=", "assign"):
            v = self.rvtext(A[0])
            if len(A) == 2 and is_num(A[0]) and is_num(A[1]):
                v = self.mkstring([A[0], A[1]], e)
            elif len(A) == 2 and isinstance(A[0], It):
                v = self.it_text(A[0], A[1])
            elif len(A) == 2 and is_num(A[1]):
                t0 = base_type(e["a"][0]["t"])
                v = self.substr(v, 0, it.num(A[1])) if t0.endswith("*") or t0.endswith("]") else self.substr(v, it.num(A[1]))
            elif len(A) == 3 and is_num(A[1]) and is_num(A[2]):
                v = self.substr(v, it.num(A[1]), it.num(A[2]))
            elif len(A) != 1:
                raise Undecided("string append")
            if it.swept is not None:
                if name == "assign":
                    raise Undecided("loop over the characters of a text")
                return self.swept_append(cell, v)
            if name == "assign":
                it.store(cell, v if self.is_text(v) else bytes([v & 255]))
            else:
                it.store(cell, self.cat(s, v))
            return cell
        if name == "pop_back":
            if isinstance(s, Cat):
                s = self.concrete(s)
            if isinstance(s, bytes):
                it.store(cell, s[:-1])
            else:
                it.store(cell, self.substr(s, 0, sub(self.length(s), 1)))
            return None
        if name == "clear":
            it.store(cell, b"")
            return None
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name in ("starts_with", "ends_with"):
            w = self.text(A[0])
            if isinstance(w, int):
                w = bytes([w & 255])
            if isinstance(w, bytes):
                return self.tpred(s, tn.d_prefix(w) if name == "starts_with" else tn.d_suffix(w), name)
        if name == "erase":
            if isinstance(s, Span) and len(A) >= 1 and is_num(A[0]):
                p = A[0]
                n = A[1] if len(A) > 1 else NPOS
                a = self.substr(s, 0, p)
                rest = self.substr(s, p)
                b = b"" if n == NPOS else self.substr(rest, n) if not st.cmp(">=", n, self.length(rest)) else b""
                it.store(cell, self.cat(a, b))
                return cell
            if isinstance(s, bytes) and A and isinstance(A[0], int):
                p = A[0]
                n = A[1] if len(A) > 1 else NPOS
                it.store(cell, s[:p] + (b"" if n == NPOS else s[p + n:]))
                return cell
        if name in ("rbegin", "crbegin", "rend", "crend"):
            return It(cell if isinstance(cell, Cell) else Cell(s), 0 if name.endswith("begin") else self.length(s), True)
        if name == "insert":
            if A and is_num(A[0]):
                p = it.num(A[0])
                if len(A) == 2:
                    v = self.rvtext(A[1])
                elif len(A) == 3 and is_num(A[1]) and is_num(A[2]):
                    v = self.mkstring([A[1], A[2]], e)
                elif len(A) == 3:
                    t0 = base_type(e["a"][1]["t"])
                    v = self.substr(self.rvtext(A[1]), 0, it.num(A[2])) if t0.endswith("*") or t0.endswith("]") else \
                        self.substr(self.rvtext(A[1]), it.num(A[2]))
                elif len(A) == 4:
                    v = self.substr(self.rvtext(A[1]), it.num(A[2]), it.num(A[3]))
                else:
                    raise Undecided("string::insert")
                it.store(cell, self.cat(self.cat(self.substr(s, 0, p), v), self.substr(s, p)))
                return cell
            if A and isinstance(A[0], It) and not A[0].rev:
                p = A[0].k
                if len(A) == 2:
                    v = bytes([self.algo.byte(A[1])])
                elif len(A) == 3 and isinstance(A[1], It):
                    v = self.it_text(A[1], A[2])
                elif len(A) == 3:
                    v = self.mkstring([A[1], A[2]], e)
                it.store(cell, self.cat(self.cat(self.substr(s, 0, p), v), self.substr(s, p)))
                return It(cell, p)
        if name == "replace":
            if len(A) >= 3 and is_num(A[0]) and is_num(A[1]):
                p, n = it.num(A[0]), it.num(A[1])
                if len(A) == 3:
                    v = self.rvtext(A[2])
                elif len(A) == 4 and is_num(A[2]):
                    v = self.mkstring([A[2], A[3]], e)
                else:
                    raise Undecided("string::replace")
            elif len(A) >= 3 and isinstance(A[0], It) and not A[0].rev:
                p, n = A[0].k, sub(A[1].k, A[0].k)
                v = self.it_text(A[2], A[3]) if len(A) == 4 and isinstance(A[2], It) else self.rvtext(A[2])
                if len(A) == 4 and not isinstance(A[2], It):
                    raise Undecided("string::replace")
            else:
                raise Undecided("string::replace")
            rest = self.substr(s, p)
            tail = b"" if n == NPOS or st.cmp(">=", n, self.length(rest)) else self.substr(rest, n)
            it.store(cell, self.cat(self.cat(self.substr(s, 0, p), v), tail))
            return cell
        if name == "erase" and A and isinstance(A[0], It) and not A[0].rev:
            p = A[0].k
            q = A[1].k if len(A) > 1 else add(p, 1)
            it.store(cell, self.cat(self.substr(s, 0, p), self.substr(s, q)))
            return It(cell, p)
        if name == "erase" and not A:
            it.store(cell, b"")
            return cell
        if name == "copy" and False:
            pass
        if name == "resize" and is_num(A[0]):
            n = cal.concrete(st, A[0])
            if isinstance(s, bytes) and isinstance(n, int):
                it.store(cell, s[:n] + bytes([(A[1] if len(A) > 1 else 0) & 255]) * (n - len(s)))
                return None
            if st.cmp("<=", A[0], self.length(s)):
                it.store(cell, self.substr(s, 0, A[0]))
                return None
        if name == "remove_prefix":
            it.store(cell, self.substr(s, it.num(A[0])))
            return None
        if name == "remove_suffix":
            it.store(cell, self.substr(s, 0, sub(self.length(s), it.num(A[0]))))
            return None
        if name.startswith("operator ") and "string_view" in name:
            return s
        if name == "swap" and args and isinstance(args[0], Cell):
            it.store(args[0], s)
            it.store(cell, A[0])
            return None
        raise Undecided("string::" + name)

    def it_text(self, a, b):
        """text between two iterators"""
        if not isinstance(b, It) or a.c is not b.c:
            raise Undecided("iterator range")
        if isinstance(a.c, Cell):
            if a.rev:
                cs, _ = self.algo.cells(a, b)
                return bytes(self.algo.byte(c.v) for c in cs)
            return self.substr(a.c, a.k, sub(b.k, a.k))
        return bytes(self.algo.byte(self.it.load(c)) for c in self.range_cells(a, b))

    def find_bytes(self, s, n, p, name):
        if name == "find":
            r = s.find(n, p) if p <= len(s) else -1
        elif name == "rfind":
            r = s.rfind(n, 0, min(len(s), p + len(n))) if p < NPOS else s.rfind(n)
        else:
            inset = name.endswith("first_of") and name == "find_first_of" or name == "find_last_of"
            rng = range(min(p, len(s)), len(s)) if "first" in name else range(min(p, len(s) - 1), -1, -1)
            r = -1
            for i in rng:
                if (s[i] in n) == bool(inset):
                    r = i
                    break
        return NPOS if r < 0 else r

    def m_match(self, cell, m, name, args, e):
        st = self.st
        A = [self.it.load(a) if isinstance(a, Cell) else a for a in args]
        k = self.it.num(A[0]) if A else 0
        if name == "empty":
            return m.mid is None
        if name == "ready":
            return m.ready
        if name == "size":
            return m.n
        if name == "str":
            return self.sub_str(SubM(m, k))
        if name == "operator[]":
            return SubM(m, k)
        if name == "length":
            g = self.group(m, k)
            return 0 if g is None else self.length(g)
        if name == "position":
            g = self.group(m, k)
            if g is None:
                if m.mid is None:
                    raise Undecided("position of an empty match")
                return self.length(m.src)
            return st.norm_pos(sub(st.P(g.sid, g.o), st.P(g.sid, m.src.o)))
        if name in ("prefix", "suffix"):
            self.chk(m)
            if m.mid is None:
                raise Undecided("prefix of an empty match")
            return SubM(m, "pre" if name == "prefix" else "suf")
        raise Undecided("match_results::" + name)

    def range_cells(self, a, b):
        if isinstance(a.c, Vec) and a.c is b.c and isinstance(a.k, int) and isinstance(b.k, int):
            return (a.c.e if not a.rev else a.c.e[::-1])[a.k:b.k]
        if isinstance(a.c, Map) and a.c is b.c:
            ks = a.c.keys()
            i = len(ks) if a.k is END else ks.index(a.k)
            j = len(ks) if b.k is END else ks.index(b.k)
            return [Cell(self.map_pair(a.c, k)) for k in ks[i:j]]
        raise Undecided("iterator range")

    def m_vec(self, cell, v, name, args, e):
        it = self.it
        A = [it.load(a) if isinstance(a, Cell) else a for a in args]
        if name in ("size", "max_size"):
            return len(v.e)
        if name == "empty":
            return not v.e
        if name == "at":
            return self.vec_at(v, A[0], "at")
        if name == "operator[]":
            return self.vec_at(v, A[0], "[]")
        if name in ("front", "back"):
            return self.vec_at(v, 0 if name == "front" else len(v.e) - 1, "[]")
        if name in ("begin", "cbegin"):
            return It(v, 0)
        if name in ("end", "cend"):
            return It(v, len(v.e))
        if name in ("rbegin", "crbegin"):
            return It(v, 0, True)
        if name in ("rend", "crend"):
            return It(v, len(v.e), True)
        self.it.touch(v)
        if isinstance(cell, Cell):
            cell.ver += 1
        if name in ("push_back", "emplace_back", "push_front", "emplace_front"):
            if len(A) == 0:
                x = it.default(v.et)
            elif len(A) == 1:
                x = it.copy(self.rvtext(A[0]))
                if it.st.opts.get("onpush"):
                    it.st.opts["onpush"](it, v, x)
            else:
                x = self.emplace(v.et, args, e)
            c = Cell(x)
            if name.endswith("back"):
                v.e.append(c)
            else:
                v.e.insert(0, c)
            return c
        if name == "pop_back":
            if not v.e:
                it.st.event("oob", "pop_back of an empty container")
                raise Undecided("pop_back")
            v.e.pop()
            return None
        if name == "clear":
            v.e.clear()
            return None
        if name == "pop_front":
            if not v.e:
                it.st.event("oob", "pop_front of an empty container")
                raise Undecided("pop_front")
            v.e.pop(0)
            return None
        if name in ("reserve", "shrink_to_fit"):
            return None
        if name == "fill":
            for c in v.e:
                c.v = it.copy(A[0])
            return None
        if name == "assign":
            if len(A) == 2 and isinstance(A[0], It):
                cs = [Cell(it.copy(it.load(c))) for c in self.algo.cells(A[0], A[1])[0]]
            elif len(A) == 2:
                k = cal.concrete(it.st, A[0])
                if k is None or not 0 <= k < 10000:
                    raise Undecided("vector::assign")
                cs = [Cell(it.copy(A[1])) for _ in range(k)]
            elif isinstance(A[0], Vec):
                cs = [Cell(it.copy(it.load(c))) for c in A[0].e]
            else:
                raise Undecided("vector::assign")
            v.e[:] = cs
            return None
        if name in ("reverse", "unique", "remove", "remove_if", "sort") and v.kind == "list":
            a, b = It(v, 0), It(v, len(v.e))
            if name == "sort":
                self.sort([Cell(a), Cell(b)] + list(args), [a, b] + A)
                return None
            r = self.algo.run(name, [Cell(a), Cell(b)] + list(args), [a, b] + A, e)
            if isinstance(r, It):
                del v.e[r.k:]
            return None
        if name == "emplace":
            name = "insert"
        if name == "insert":
            p = A[0].k
            if len(A) == 3 and isinstance(A[1], It):
                cs = [Cell(it.copy(it.load(c))) for c in self.range_cells(A[1], A[2])]
            elif len(A) == 2 and isinstance(A[1], Vec) and not v.et.startswith("std::vector"):
                cs = [Cell(it.copy(it.load(c))) for c in A[1].e]
            elif len(A) == 2:
                cs = [Cell(it.copy(self.rvtext(A[1])))]
            elif len(A) == 3 and is_num(A[1]):
                k = cal.concrete(it.st, A[1])
                if k is None or not 0 <= k < 10000:
                    raise Undecided("vector::insert")
                cs = [Cell(it.copy(A[2])) for _ in range(k)]
            else:
                raise Undecided("vector::insert")
            if not isinstance(p, int):
                raise Undecided("vector::insert")
            v.e[p:p] = cs
            return It(v, p)
        if name == "erase":
            p = A[0].k
            q = A[1].k if len(A) > 1 else p + 1
            if not isinstance(p, int) or not isinstance(q, int) or q > len(v.e):
                raise Undecided("vector::erase")
            del v.e[p:q]
            return It(v, p)
        if name == "resize" and isinstance(A[0], int):
            while len(v.e) > A[0]:
                v.e.pop()
            while len(v.e) < A[0]:
                v.e.append(Cell(it.default(v.et, True)))
            return None
        if name == "swap" and isinstance(A[0], Vec):
            v.e, A[0].e = A[0].e, v.e
            return None
        raise Undecided("vector::" + name)

    def emplace(self, t, args, e):
        """construction of an element from several arguments"""
        it = self.it
        t = base_type(t)
        A = [it.load(a) if isinstance(a, Cell) else a for a in args]
        if t.startswith("std::pair<") and len(A) == 2:
            return Obj("pair", {"first": Cell(it.copy(self.rvtext(A[0])), "first"), "second": Cell(it.copy(self.rvtext(A[1])), "second")})
        if t.startswith("std::tuple<"):
            return Obj("tuple", {str(i): Cell(it.copy(self.rvtext(a))) for i, a in enumerate(A)})
        if t in it.prog.records:
            fs = [f for f in it.prog.by_qn.get(t + "::" + t.rsplit("::", 1)[-1], []) if len(f["params"]) == len(A)]
            if len(fs) == 1:
                return it.run_ctor(fs[0], Obj(t), [a if p.get("ref") else it.copy(x) for p, a, x in zip(fs[0]["params"], args, A)])
        if t == SP_STR and len(A) == 2 and is_num(A[0]):
            return self.mkstring(A, e)
        raise Undecided("emplace")

    def m_map(self, cell, m, name, args, e):
        it = self.it
        A = [it.load(a) if isinstance(a, Cell) else a for a in args]
        if name in ("count", "contains"):
            k = self.map_lookup(m, A[0], name)
            return (k is not None) if name == "contains" else (1 if k is not None else 0)
        if name == "find":
            k = self.map_lookup(m, A[0], name)
            return It(m, END if k is None else k)
        if name in ("end", "cend"):
            return It(m, END)
        if name in ("begin", "cbegin"):
            ks = m.keys()
            return It(m, ks[0] if ks else END)
        if name == "at":
            k = self.map_lookup(m, A[0], name)
            if k is None:
                raise Throw("std::out_of_range", "key not in the table", self.st.loc)
            return m.e[k]
        if name == "operator[]":
            return self.map_index(m, A[0])
        if name in ("size",):
            return len(m.e)
        if name == "empty":
            return not m.e
        if name in ("rbegin", "rend", "crbegin", "crend") and not m.lazy:
            raise Undecided("reverse iteration over a table")
        if name in ("lower_bound", "upper_bound", "equal_range") and not m.lazy and not m.kind.startswith("unordered"):
            k0 = self.map_key(m, A[0])
            ks = m.keys()

            def bound(up):
                for k in ks:
                    if it.truth(it.compare("<", k0, k)) if up else not it.truth(it.compare("<", k, k0)):
                        return It(m, k)
                return It(m, END)
            if name == "equal_range":
                return Obj("pair", {"first": Cell(bound(False)), "second": Cell(bound(True))})
            return bound(name == "upper_bound")
        if name == "swap" and isinstance(A[0], Map):
            it.touch(m)
            m.e, A[0].e = A[0].e, m.e
            return None
        if name in ("reserve", "rehash"):
            return None
        if name == "merge" and isinstance(A[0], Map):
            for k in list(A[0].e):
                if k not in m.e:
                    m.e[k] = A[0].e.pop(k)
            return None
        if name in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            if len(A) == 1 and isinstance(A[0], Obj):
                k, new = self.map_insert(m, A[0].f["first"], it.copy(it.load(A[0].f["second"])))
            elif len(A) == 1:
                k, new = self.map_insert(m, A[0], True)
            elif len(A) == 2 and isinstance(A[0], It) and isinstance(A[1], It):
                for c in self.range_cells(A[0], A[1]):
                    p = it.load(c)
                    self.map_insert(m, p.f["first"], it.copy(it.load(p.f["second"])))
                return None
            elif len(A) == 2:
                v = A[1]
                if m.vt and m.vt.startswith("std::pair<") and not (isinstance(v, Obj)):
                    raise Undecided("emplace")
                k, new = self.map_insert(m, A[0], it.copy(v), assign=(name == "insert_or_assign"))
            else:
                raise Undecided("map::" + name)
            return Obj("pair", {"first": Cell(It(m, k)), "second": Cell(new)})
        if name == "erase":
            k = A[0].k if isinstance(A[0], It) else self.map_lookup(m, A[0], name)
            it.touch(m)
            if k is not None and k is not END:
                del m.e[k]
                return 1
            return 0
        if name == "clear":
            it.touch(m)
            m.e.clear()
            return None
        raise Undecided("map::" + name)

    def m_cal(self, cell, o, name, A, e):
        st = self.st
        if name in ("is_special", "is_not_a_date", "is_not_a_date_time"):
            return isinstance(o, Special)
        if name in ("is_infinity", "is_pos_infinity", "is_neg_infinity"):
            return False
        if isinstance(o, Special):
            raise Undecided("use of not_a_date")
        if isinstance(o, PT):
            if name == "date":
                return cal.pt_date(st, o)
            if name == "time_of_day":
                if o.k == 1 and o.secs == 0:
                    return Dur(1, 0, True)
                if o.k == 0:
                    lo, hi = st.range_of(o.secs)
                    if lo is not None and lo >= 0 and hi is not None and hi < 86400:
                        return Dur(0, o.secs, True)
                return Dur(o.k, o.secs, True)
        if isinstance(o, D):
            if name in ("year", "month", "day"):
                st.may_throw("std::out_of_range", "date arithmetic leaves the representable years") if o.ops else None
                return cal.proj(st, name, o)
            if name == "day_of_week":
                return cal.proj(st, "dow", o)
            if name == "year_month_day":
                return Obj("ymd", {k: Cell(cal.proj(st, k, o)) for k in ("year", "month", "day")})
            if name == "end_of_month":
                return D(("eomd", o))
            if name == "day_of_year":
                return atom("proj2", "doy", o)
            if name in ("day_number", "julian_day", "modjulian_day"):
                return cal.dn(o)
        if isinstance(o, Dur):
            w = {"hours": "hour", "minutes": "min", "seconds": "sec"}.get(name)
            if name == "is_negative" and o.k == 0:
                return st.cmp("<", o.secs, 0)
            if w and o.tod:
                return cal.tod_part(st, w, o.k, o.secs)
            if name == "total_seconds":
                return add(o.secs, scale(atom("reftod"), o.k)) if o.k else o.secs
            if w and isinstance(o.secs, int) and o.k == 0 and o.secs >= 0:
                return {"hour": o.secs // 3600, "min": o.secs // 60 % 60, "sec": o.secs % 60}[w]
        if isinstance(o, DDur):
            if name in ("days", "number_of_months"):
                return o.n
            if name == "get_rep":
                return o.n
            if name == "is_negative":
                return st.cmp("<", o.n, 0)
        if isinstance(o, NDow):
            if name == "get_date":
                k = o.a[0]
                if k in ("kdb", "kda"):
                    return cal.kday(st, k, o.a[1], A[0])
                y = self.it.num(A[0])
                if k == "part":
                    return cal.make_date(st, y, o.a[2], o.a[1])
                return D((k,) + tuple(o.a[1:]) + (y,))
        raise Undecided("calendar member " + name)

    # ================================================================= operators
    def operator(self, op, args, e):
        it, st = self.it, self.st
        A = [it.load(a) if isinstance(a, Cell) and not (op == ">>" and i) else a for i, a in enumerate(args)]
        a = A[0]
        if isinstance(a, Unknown):
            raise Undecided(a.why)
        if op == "[]":
            if isinstance(a, Map):
                return self.map_index(a, A[1])
            if isinstance(a, Vec):
                return self.vec_at(a, A[1], "[]")
            if isinstance(a, MatchV):
                return SubM(a, it.num(A[1]))
            if self.is_text(a):
                return self.str_index(args[0], A[1])
            if isinstance(a, It):
                return self.it_deref(self.it_step(a, it.num(A[1])))
        if op == "->":
            if isinstance(a, It):
                return Ptr(self.it_deref(a))
            if isinstance(a, Ptr):
                return a
            if isinstance(a, Obj) and a.cls == "optional":
                return Ptr(a.f["val"])
        if op == "*" and len(A) == 1:
            if isinstance(a, It):
                return self.it_deref(a)
            if isinstance(a, Ptr):
                return it.deref(a)
            if isinstance(a, Obj) and a.cls == "optional":
                return a.f["val"]
        if op in ("++", "--"):
            if isinstance(a, It):
                n = self.it_step(a, 1 if op == "++" else -1)
                it.store(args[0], n)
                return a if len(A) > 1 else args[0]
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return it.compare(op, a, A[1])
        if op == "!":
            return not it.truth(a)
        if op == "<<":
            if isinstance(a, Stream):
                b = A[1]
                if isinstance(b, Obj) and b.cls == "manip":
                    if "setw" in b.f:
                        a.w = b.f["setw"].v
                    if "setfill" in b.f:
                        a.fillc = b.f["setfill"].v
                elif not isinstance(b, (FnRefT, Ptr)):
                    if isinstance(b, SubM):
                        b = self.sub_text(b)
                    if a.w != 0:
                        n, a.w = a.w, 0
                        b = self.padded(b, n, a.fillc, e)
                    elif isinstance(b, int) and not isinstance(b, bool) and e and base_type(e["a"][1].get("t", "")) == "char" and \
                            not it.st.opts.get("onout"):
                        b = bytes([b & 255])
                    a.out.append(b)
                    if it.st.opts.get("onout"):
                        it.st.opts["onout"](it, a, b)
                return args[0]
            return args[0]
        if op == ">>" and isinstance(a, Stream) and a.inp is not None:
            w = a.inp.lstrip(b" \t\n\v\f\r")
            old = args[1].v if isinstance(args[1], Cell) else None
            t = base_type(e["a"][1]["t"])
            import re as _re
            if t == SP_STR:
                m = _re.match(rb"[^ \t\n\v\f\r]+", w)
                v = m and m.group(0)
            elif t in INTS and t != "char":
                m = _re.match(rb"[+-]?[0-9]+", w)
                v = m and int(m.group(0))
            elif t == "char":
                m = _re.match(rb"[\s\S]", w)
                v = m and schar(m.group(0)[0])
            else:
                raise Undecided("operator >>")
            if m is None or a.bad:
                a.bad = True
                if t in INTS and t != "char":
                    it.store(args[1], 0)
                return args[0]
            a.inp = w[m.end():]
            it.store(args[1], v)
            return args[0]
        if op in ("+", "+="):
            b = A[1]
            if it.swept is not None and op == "+=" and self.is_text(a):
                return self.swept_append(args[0], b)
            if self.is_text(a) or (self.is_text(b) and not isinstance(a, It)):
                r = self.cat(a, b)
                return self.assign_op(op, args, r)
            if isinstance(a, It):
                return self.assign_op(op, args, self.it_step(a, it.num(b)))
            return self.assign_op(op, args, self.plus(a, b, 1))
        if op in ("-", "-="):
            b = A[1] if len(A) > 1 else None
            if isinstance(a, It):
                if isinstance(b, It):
                    return self.it_distance(b, a)
                return self.assign_op(op, args, self.it_step(a, neg(it.num(b))))
            if b is None:
                if isinstance(a, Dur):
                    return Dur(-a.k, neg(a.secs))
                if isinstance(a, DDur):
                    return DDur(a.u, neg(a.n))
            return self.assign_op(op, args, self.plus(a, b, -1))
        if op in ("*", "*=") and isinstance(a, (Dur, DDur)):
            n = it.num(A[1])
            if isinstance(n, Lin):
                x = a.secs if isinstance(a, Dur) else a.n
                if isinstance(x, Lin) or (isinstance(a, Dur) and a.k):
                    raise Undecided("product")
                r = Dur(0, scale(n, x)) if isinstance(a, Dur) else DDur(a.u, scale(n, x))
            else:
                r = Dur(a.k * n, scale(a.secs, n)) if isinstance(a, Dur) else DDur(a.u, scale(a.n, n))
            return self.assign_op(op, args, r)
        if op == "=":
            it.store(args[0], self.assign_value(a, A[1]))
            return args[0]
        raise Undecided("operator %s on %s" % (op, type(a).__name__))

    def padded(self, b, n, ch, e):
        n, ch = self.it.num(n), self.it.num(ch)
        if isinstance(b, int) and not isinstance(b, bool):
            char = e and base_type(e["a"][1].get("t", "")) == "char"
            b = bytes([b & 255]) if char else str(b).encode()
        if isinstance(b, bytes) and isinstance(n, int) and isinstance(ch, int):
            return bytes([ch & 255]) * (n - len(b)) + b
        return OpStr("padded", n, ch, b)

    def swept_append(self, cell, v):
        if not isinstance(cell, Cell) or isinstance(v, bool) or not (isinstance(v, int) or isinstance(v, bytes) and len(v) == 1):
            raise Undecided("loop over the characters of a text")
        self.it.swept["app"].setdefault(id(cell), (cell, []))[1].append(v & 255 if isinstance(v, int) else v[0])
        return cell

    def assign_op(self, op, args, r):
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            self.it.store(args[0], r)
            return args[0]
        return r

    def it_distance(self, a, b):
        if isinstance(a.c, Map):
            ks = a.c.keys() + [END]
            return ks.index(b.k) - ks.index(a.k)
        return sub(b.k, a.k)

    def plus(self, a, b, sg):
        st = self.st
        if isinstance(a, (D, Special)) and isinstance(b, DDur):
            return cal.shift(st, a, b.u, b.n, sg)
        if isinstance(a, PT) and isinstance(b, DDur):
            return PT(cal.shift(st, a.d, b.u, b.n, sg), a.k, a.secs)
        if isinstance(a, PT) and isinstance(b, Dur):
            if a.k + sg * b.k not in (0, 1):
                raise Undecided("time arithmetic")
            st.may_throw("std::out_of_range", "time arithmetic leaves the representable years") if not isinstance(b.secs, int) else None
            return cal.mkpt(st, a.d, a.k + sg * b.k, add(a.secs, scale(b.secs, sg)))
        if isinstance(a, D) and isinstance(b, D) and sg < 0:
            return DDur("d", sub(cal.dn(a), cal.dn(b)))
        if isinstance(a, PT) and isinstance(b, PT) and sg < 0:
            if a.k == b.k:
                return Dur(0, sub(sub(cal.moment_value(a), scale(atom("reftod"), a.k) if a.k else 0),
                                  sub(cal.moment_value(b), scale(atom("reftod"), b.k) if b.k else 0)))
        if isinstance(a, Dur) and isinstance(b, Dur):
            return Dur(a.k + sg * b.k, add(a.secs, scale(b.secs, sg)))
        if isinstance(a, DDur) and isinstance(b, DDur) and a.u == b.u:
            return DDur(a.u, add(a.n, scale(b.n, sg)))
        if isinstance(a, Special) or isinstance(b, Special):
            return Special()
        if is_num(a) and is_num(b):
            return add(a, scale(b, sg))
        raise Undecided("arithmetic on %s and %s" % (type(a).__name__, type(b).__name__))

    # ================================================================= comparison
    def compare(self, op, a, b):
        st = self.st
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
        if isinstance(b, (CmpR, FindR, Chr)) and not isinstance(a, (CmpR, FindR, Chr)):
            return self.compare(flip[op], b, a)
        if isinstance(a, CmpR):
            if not isinstance(b, int):
                raise Undecided("string comparison")
            if b == 0 and op in ("==", "!="):
                r = self.eq(a.a, a.b)
                return r if op == "==" else not r
            if isinstance(a.a, bytes) and isinstance(a.b, bytes):
                v = (a.a > a.b) - (a.a < a.b)
                return {"<": v < b, ">": v > b, "<=": v <= b, ">=": v >= b}.get(op)
            raise Undecided("order of texts")
        if isinstance(a, FindR):
            return self.cmp_find(op, a, b)
        if isinstance(a, Chr):
            if isinstance(b, Chr):
                if isinstance(self.text(a.s), (bytes, Span)):
                    return self.compare(op, self.chr_values(a), b)
            b = self.it.num(b)
            if not isinstance(b, int):
                raise Undecided("character comparison")
            f = {"<": lambda v: v < b, ">": lambda v: v > b, "<=": lambda v: v <= b, ">=": lambda v: v >= b,
                 "==": lambda v: v == b, "!=": lambda v: v != b}[op]
            return self.chr_pred(a, f, "character %s %r" % (op, chr(b & 255)))
        if self.is_text(a) or self.is_text(b):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return op == "!="
            if op in ("==", "!="):
                a = self.sub_text(a) if isinstance(a, SubM) else a
                b = self.sub_text(b) if isinstance(b, SubM) else b
                r = self.eq(a, b)
                return r if op == "==" else not r
            if isinstance(a, bytes) and isinstance(b, bytes):
                return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            raise Undecided("order of texts")
        if isinstance(a, It) and isinstance(b, It):
            if isinstance(a.c, Map) or isinstance(b.c, Map):
                if a.c is not b.c:
                    raise Undecided("iterators of different containers")
                if op in ("==", "!="):
                    r = a.k == b.k
                    return r if op == "==" else not r
                raise Undecided("iterator order")
            return st.cmp(op, a.k, b.k)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            ca = a.cell if isinstance(a, Ptr) else None
            cb = b.cell if isinstance(b, Ptr) else None
            if op in ("==", "!="):
                return (ca is cb) if op == "==" else (ca is not cb)
        if isinstance(a, Special) or isinstance(b, Special):
            if op in ("==", "!="):
                r = isinstance(a, Special) and isinstance(b, Special)
                return r if op == "==" else not r
            raise Undecided("order of not_a_date")
        if isinstance(a, D) and isinstance(b, D):
            return self.cmp_dates(op, a, b)
        if isinstance(a, PT) and isinstance(b, PT):
            return st.cmp(op, cal.moment_value(a), cal.moment_value(b))
        if isinstance(a, Dur) and isinstance(b, Dur):
            x = add(a.secs, scale(atom("reftod"), a.k)) if a.k else a.secs
            y = add(b.secs, scale(atom("reftod"), b.k)) if b.k else b.secs
            return st.cmp(op, x, y)
        if isinstance(a, DDur) and isinstance(b, DDur) and a.u == b.u:
            return st.cmp(op, a.n, b.n)
        if isinstance(a, bool) and isinstance(b, bool):
            return {"==": a == b, "!=": a != b}.get(op)
        if isinstance(a, (Vec, Map, Obj, MatchV)) or isinstance(b, (Vec, Map, Obj, MatchV)):
            r = self.algo.compare(op, a, b)
            if r is not None:
                return r
            raise Undecided("comparison of %s" % type(a).__name__)
        return None

    def cmp_dates(self, op, a, b):
        return self.st.cmp(op, cal.dn(a), cal.dn(b))

    def cmp_find(self, op, f, b):
        if isinstance(b, FindR):
            b = self.to_num(b)
        if not isinstance(b, int):
            return self.it.st.cmp(op, self.to_num(f), b)
        sgn = getattr(f, "signed", False)
        absent = -1 if sgn else NPOS
        if b < 0 and not sgn:
            b &= NPOS
        simple = f.kind == "find" and f.pos == 0 or f.kind == "rfind" and (f.pos == NPOS or f.pos == 0)
        if not simple:
            if f.kind in ("find_first_of", "find_last_of") and f.pos in (0, NPOS):
                cont = tn.determinize(tn.concat([tn.anything(), tn.from_regex(("c", sum(1 << c for c in set(f.n)))), tn.anything()])).minimize()
            elif f.kind in ("find_first_not_of", "find_last_not_of") and f.pos in (0, NPOS):
                cont = tn.determinize(tn.concat([tn.anything(), tn.from_regex(("c", ALL & ~sum(1 << c for c in set(f.n)))), tn.anything()])).minimize()
            else:
                return self.compare(op, self.to_num(f), b)
        else:
            cont = tn.d_prefix(f.n) if f.kind == "rfind" and f.pos == 0 else tn.d_contains(f.n)
        what = "find(\"%s\")" % f.n.decode("latin-1")
        has = lambda: self.tpred(f.s, cont, what)
        pre = lambda: self.tpred(f.s, tn.d_prefix(f.n), what + " == 0")
        if b == absent:
            if op == "==":
                return not has()
            if op in ("!=",) or (op == "<" and not sgn) or (op == ">" and sgn):
                return has()
            if (op == ">=" and sgn) or (op == "<=" and not sgn):
                return True
        if b == 0 and f.kind in ("find", "rfind") and simple:
            first = pre if f.kind == "find" or f.pos == 0 else None
            if first is None:
                return self.compare(op, self.to_num(f), b)
            if op == "==":
                return pre()
            if op == "!=":
                return not pre()
            if op == ">":
                return not pre() if not sgn else (has() and not pre())
            if op == ">=":
                return True if not sgn else has()
            if op == "<":
                return False if not sgn else not has()
            if op == "<=":
                return pre() if not sgn else (pre() or not has())
        return self.it.st.cmp(op, self.to_num(f), b)

    def to_num(self, v):
        st = self.st
        if isinstance(v, CmpR):
            raise Undecided("string comparison used as a number")
        if isinstance(v, Chr):
            return self.chr_values(v)
        f = v
        if f.kind != "find":
            raise Undecided(f.kind)
        s = f.s
        if f.pos != 0:
            if st.cmp(">", f.pos, self.length(s)):
                return NPOS
            base = f.pos
            s = self.substr(s, f.pos)
        else:
            base = 0
        esc = b"".join((b"\\" + bytes([c]) if not (chr(c).isalnum() or c > 127) else bytes([c])) for c in f.n if c != 32 or True)
        esc = b"".join(bytes([c]) if (chr(c).isalnum() or c in b" _'\",:;<>=!@#%&~`") else b"\\" + bytes([c]) for c in f.n)
        if not self.tpred(s, tn.d_contains(f.n), "find(\"%s\")" % f.n.decode("latin-1")):
            return -1 if getattr(f, "signed", False) else NPOS
        mid = st.search(s, esc, False, "search")
        if mid is None:
            raise Infeasible()
        return st.norm_pos(add(base, sub(st.P(s.sid, (mid, 0, "o")), st.P(s.sid, s.o))))

    # ================================================================= free functions
    def free(self, fn, args, e):
        it, st = self.it, self.st
        name = last_name(fn)
        if name in ("tie", "forward_as_tuple"):
            return self.algo.a_tie(args, args, e)
        A = [it.load(a) if isinstance(a, Cell) else a for a in args]
        if name in ("stoi", "stol", "stoll", "stoul", "stof", "stod", "stold", "atoi", "atol"):
            if len(A) > 1 and isinstance(A[1], Ptr) and A[1].cell is not None:
                if name in ("stof", "stod", "stold"):
                    raise Undecided("position result of " + name)
                w = self.concrete(self.text(A[0]))
                r = self.parse_int(w)
                import re as _re
                it.store(A[1].cell, _re.match(rb"[ \t\n\v\f\r]*[+-]?[0-9]+", w).end())
                return r
            if len(A) > 2 and A[2] != 10:
                raise Undecided("number base")
            if name in ("atoi", "atol"):
                try:
                    return self.parse_int(A[0])
                except Throw as t:
                    if t.ty == "std::invalid_argument":
                        return 0
                    raise Undecided("overflow in atoi")
            r = self.parse_int(A[0], name in ("stof", "stod", "stold"))
            return it.to_float(r) if name == "stof" else r
        if name in ("abs", "labs", "fabs"):
            x = A[0]
            if isinstance(x, DDur):
                raise Undecided("abs")
            x = it.num(x)
            if not isinstance(x, Lin):
                return abs(x)
            return x if st.cmp(">=", x, 0) else neg(x)
        if name in ("floor", "ceil", "trunc", "round", "floorf", "ceilf", "lround"):
            x = it.num(A[0])
            if isinstance(x, int):
                return x
            if isinstance(x, Fraction):
                import math
                return {"f": math.floor(x), "c": math.ceil(x), "t": int(x), "r": math.floor(x + Fraction(1, 2)),
                        "l": math.floor(x + Fraction(1, 2))}[name[0]]
            if all(isinstance(v, int) for v in list(x.t.values()) + [x.c]):
                return x
            return atom(name[:5], x)
        if name in ("max", "min", "lowest") and not A:
            t = base_type((targs(fn[:fn.rfind("::")]) or [""])[0])
            if t in INTS:
                bits, sg = INTS[t]
                return ((1 << bits - sg) - 1) if name == "max" else -(1 << bits - 1) if sg else 0
            raise Undecided(fn)
        if name in ("max", "min"):
            if len(A) == 1 and isinstance(A[0], Vec):
                xs = [it.load(c) for c in A[0].e]
            else:
                xs = A[:2]
            r = xs[0]
            for x in xs[1:]:
                if it.compare("<", x, r) if name == "min" else it.compare("<", r, x):
                    r = x
            return r
        if name in ("isdigit", "isalpha", "isspace", "isalnum", "isupper", "islower", "ispunct"):
            import string
            sets = {"isdigit": b"0123456789", "isalpha": string.ascii_letters.encode(), "isspace": b" \t\n\v\f\r",
                    "isalnum": (string.ascii_letters + string.digits).encode(), "isupper": string.ascii_uppercase.encode(),
                    "islower": string.ascii_lowercase.encode(), "ispunct": string.punctuation.encode()}[name]
            c = A[0]
            if isinstance(c, Chr):
                return self.chr_pred(c, lambda v: 0 <= v < 256 and v in sets, name)
            c = it.num(c)
            if isinstance(c, int):
                return 0 <= c < 256 and c in sets
        if name in ("tolower", "toupper"):
            c = A[0]
            f = (lambda v: v + 32 if 65 <= v <= 90 else v) if name == "tolower" else (lambda v: v - 32 if 97 <= v <= 122 else v)
            if isinstance(c, Chr):
                t = c.f_ or [schar(b) for b in range(256)]
                n = Chr(c.s, c.k)
                n.f_ = [f(x) for x in t]
                return n
            c = it.num(c)
            if isinstance(c, int):
                return f(c)
        if name == "transform" and len(A) == 4 and isinstance(A[0], It) and isinstance(A[0].c, Cell) and not A[0].rev and (
                isinstance(A[2], It) and isinstance(A[2].c, Cell) and (A[2].k != "back" or self.is_text(it.load(A[2].c)))) and not (
                isinstance(self.text(A[0].c), bytes) and A[2].c is not A[0].c):
            return self.transform(args, A)
        if name == "for_each" and len(A) == 3 and isinstance(A[0], It) and isinstance(A[0].c, Cell) and A[0].k == 0:
            sp = self.text(A[0].c)
            if isinstance(sp, Span) and A[1].c is A[0].c and A[1].k == self.length(sp):
                it.sweep(sp, A[0].c, lambda b, x: it.apply(args[2], [x]) and None)
                return A[2]
        if name in ("regex_search", "regex_match"):
            return self.regex_call(name, args, A)
        if name == "regex_replace":
            if isinstance(A[0], It):
                raise Undecided("regex_replace on iterators")
            s, re, fmt = self.text(A[0]), A[1], self.text(A[2])
            if not isinstance(re, RegexV) or not isinstance(fmt, bytes):
                raise Undecided("regex_replace")
            if len(A) > 3 and A[3] not in (0,):
                raise Undecided("regex_replace flags")
            return self.finite(s, lambda w: rexec.replace(re.pat, re.icase, w, fmt), "replacement in text")
        if name in ("sort", "stable_sort"):
            return self.sort(args, A)
        if name == "make_shared" or name == "make_unique":
            t = base_type(e["t"])
            cls = targs(t)[0]
            if args:
                if len(args) == 1 and (base_type(cls) in INTS or base_type(cls) in FLOATS or base_type(cls) == "bool" or
                                       base_type(cls) == SP_STR):
                    return Ptr(Cell(A[0], "object"))
                if len(A) == 1 and isinstance(A[0], Obj) and A[0].cls == cls:
                    return Ptr(Cell(it.copy(A[0]), "object"))
                fs = [f for f in it.prog.by_qn.get(cls + "::" + cls.rsplit("::", 1)[-1], []) if len(f["params"]) == len(A)]
                if not fs and cls in it.prog.records:
                    fs = [f for b in it.prog.bases(cls)[1:] for f in it.prog.by_qn.get(b + "::" + b.rsplit("::", 1)[-1], [])
                          if len(f["params"]) == len(A)]
                if len(fs) != 1:
                    raise Undecided("make_shared with arguments")
                o = it.run_ctor(fs[0], Obj(cls), [a if p.get("ref") else it.copy(x) for p, a, x in zip(fs[0]["params"], args, A)])
                it.fill_fields(o, cls)
                return Ptr(Cell(o, "object"))
            return Ptr(Cell(it.default(cls), "object"))
        if name == "move" and len(A) == 3:
            return self.algo.run("copy", args, A, e)
        if name in ("move", "forward", "ref", "cref", "as_const", "move_if_noexcept"):
            return args[0]
        if name == "make_pair":
            return Obj("pair", {"first": Cell(it.copy(self.rvtext(A[0])), "first"), "second": Cell(it.copy(A[1]), "second")})
        if name == "swap":
            it.store(args[0], A[1])
            it.store(args[1], A[0])
            return None
        if name in ("begin", "cbegin", "end", "cend", "size", "empty"):
            return self.method(args[0], A[0], name, [], e)
        if name == "ptime_from_tm":
            return self.from_tm(A[0])
        if name == "to_tm":
            return self.to_tm(A[0])
        if name in ("to_simple_string", "to_iso_string", "to_iso_extended_string"):
            return OpStr(name, A[0])
        if name == "to_string":
            x = A[0]
            if isinstance(x, int) and e and base_type(e["a"][0].get("t", "")) in FLOATS:
                x = Fraction(x)
            if isinstance(x, int):
                return str(x).encode()
            if isinstance(x, Fraction):
                return ("%.6f" % x).encode()
            return OpStr("to_string", x)
        if name in ("local_time", "universal_time", "local_day", "universal_day", "time", "gmtime", "localtime", "now", "clock",
                    "getenv", "rand", "random", "local_microsec_clock", "gettimeofday"):
            st.event("clock", fn)
            if "local_time" in name or "universal_time" in name:
                return PT(D(("clock",)), 0, atom("clocktod"))
            if name.endswith("day"):
                return D(("clock",))
            return Unknown("value of " + fn)
        if name == "time_from_string":
            s = self.text(A[0])
            st.may_throw("std::exception", "text is not a date")
            return it.st.opts.get("refdate") or PT(D(("parsed", s)), 0, atom("parsedtod", s))
        if name == "end_of_month_day":
            return cal.eom(st, it.num(A[0]), it.num(A[1]))
        if name == "is_leap_year":
            return cal.leap(st, it.num(A[0]))
        if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator+", "operator-",
                    "operator<<"):
            return self.operator(name[8:], args, e)
        if name in algo.NAMES:
            return self.algo.run(name, args, A, e)
        if name in ("endl", "flush"):
            return args[0] if args else None
        if name in ("setw", "setfill"):
            return Obj("manip", {name: Cell(A[0])})
        if name == "setprecision":
            return Obj("manip", {})
        if name.startswith('operator""'):
            if name in ('operator""s', 'operator""sv'):
                return self.text(A[0])
            raise Undecided("literal " + name)
        if name in ("next_weekday", "previous_weekday", "days_until_weekday", "days_before_weekday") and isinstance(A[0], D):
            fwd = name in ("next_weekday", "days_until_weekday")
            r = cal.kday(st, "kda" if fwd else "kdb", it.num(A[1]), cal.shift(st, A[0], "d", 1, -1 if fwd else 1))
            if name.endswith("_weekday") and not name.startswith("days"):
                return r
            return DDur("d", sub(cal.dn(r), cal.dn(A[0])) if fwd else sub(cal.dn(A[0]), cal.dn(r)))
        if name == "exit" or name == "abort" or name == "terminate":
            raise Undecided("process exit")
        if name == "__builtin_expect":
            return A[0]
        raise Undecided("library function " + fn)

    def val(self, x):
        return self.it.load(x) if isinstance(x, Cell) else x

    def transform(self, args, A):
        it, st = self.it, self.st
        a, b, o = A[0], A[1], A[2]
        if not (isinstance(a, It) and isinstance(a.c, Cell) and isinstance(o, It)):
            raise Undecided("std::transform")
        s = self.text(a.c)
        n = self.length(s)
        into = None
        if o.k == "back":
            into = o.c
        elif o.c is not a.c:
            if isinstance(o.c, Cell) and o.k == 0 and same_len(self, self.text(o.c), s):
                into = o.c
                it.store(into, b"")
            else:
                raise Undecided("std::transform on part of a text")
        elif o.k != 0:
            raise Undecided("std::transform on part of a text")
        if a.k != 0 or b.k != n:
            raise Undecided("std::transform on part of a text")
        if into is not None:
            old = self.text(into)
            tmp = Cell(s, "text")
            self.transform([args[0], args[1], args[2], args[3]], [It(tmp, 0), It(tmp, n), It(tmp, 0), A[3]])
            it.store(into, self.cat(old, tmp.v))
            return o
        fn = A[3]
        table = []
        if isinstance(fn, FnRef) and last_name(fn.node.get("qn") or fn.node.get("fn") or fn.node.get("name")) in ("tolower", "toupper"):
            f = "lower" if "tolower" in (fn.node.get("qn") or fn.node.get("fn") or fn.node.get("name")) else "upper"
        else:
            p = st.pos
            for x in range(256):
                v = self.val(it.apply(args[3], [schar(x)]))
                if isinstance(v, bool):
                    v = int(v)
                if not isinstance(v, int) or st.pos != p:
                    raise Undecided("character map")
                table.append(v & 255)
            f = fold_of(table)
            if isinstance(s, bytes):
                it.store(a.c, bytes(table[x] for x in s))
                return o
            if f == "id":
                return o
        it.store(a.c, self.folded(s, f))
        return o

    def folded(self, s, f):
        if "nofold" in self.st.opts and not isinstance(s, bytes):
            return s
        if isinstance(s, bytes) and isinstance(f, tuple):
            return bytes(f[1][c] for c in s)
        if isinstance(s, bytes):
            return bytes((c + 32 if 65 <= c <= 90 else c) if f == "lower" else (c - 32 if 97 <= c <= 122 else c) for c in s)
        if isinstance(s, Span):
            return Span(s.sid, s.o, s.c, after(s.f, f))
        if isinstance(s, Cat):
            return Cat([self.folded(p, f) for p in s.parts])
        if isinstance(s, OpStr) and not isinstance(f, tuple):
            return OpStr(f, s)
        raise Undecided("letter case of an unmodelled text")

    def regex_call(self, name, args, A):
        mode = "search" if name == "regex_search" else "match"
        src = args[0]
        i = 1
        if isinstance(A[0], It):
            a, b = A[0], A[1]
            if not isinstance(a.c, Cell) or b.c is not a.c:
                raise Undecided("regex on iterators")
            s = self.substr(a.c, a.k, sub(b.k, a.k))
            src = a.c
            i = 2
        else:
            s = self.text(A[0])
            if isinstance(A[0], SubM):
                src = None
        mcell = None
        if isinstance(A[i], MatchV) or (isinstance(args[i], Cell) and isinstance(args[i].v, MatchV)):
            mcell = args[i]
            i += 1
        re = A[i]
        if len(A) > i + 1 and A[i + 1] not in (0,):
            raise Undecided("match flags")
        return self.do_match(s, re, mode, mcell, src if isinstance(src, Cell) else None)

    def sort(self, args, A):
        it = self.it
        a, b = A[0], A[1]
        if not (isinstance(a, It) and isinstance(a.c, Vec)):
            raise Undecided("sort")
        cs = a.c.e[a.k:b.k]
        out = []
        if it.st.opts.get("onsort"):
            it.st.opts["onsort"](it, a.c, args[2] if len(args) > 2 else None)
        for c in cs:
            j = len(out)
            while j > 0:
                if len(args) > 2:
                    r = it.truth(self.val(it.apply(args[2], [c, out[j - 1]])))
                else:
                    r = it.compare("<", it.load(c), it.load(out[j - 1]))
                if not r:
                    break
                j -= 1
            out.insert(j, c)
        vals = [c.v for c in out]
        a.c.e[a.k:b.k] = [Cell(v) for v in vals]
        return None

    # ---------------------------------------------------------------- broken-down time
    def from_tm(self, t):
        it, st = self.it, self.st
        if not isinstance(t, Obj) or t.cls != "tm":
            raise Undecided("ptime_from_tm")
        g = lambda n: it.num(it.load(t.f[n]))
        y, m, d = add(g("tm_year"), 1900), add(g("tm_mon"), 1), g("tm_mday")
        h, mi, s = g("tm_hour"), g("tm_min"), g("tm_sec")
        date = cal.make_date(st, y, m, d)
        return cal.mkpt(st, date, 0, add(add(scale(h, 3600), scale(mi, 60)), s))

    def to_tm(self, p):
        st = self.st
        o = self.default("tm", True)
        if isinstance(p, PT):
            d = cal.pt_date(st, p)
            k, s = p.k, p.secs
        elif isinstance(p, D):
            d, k, s = p, 0, 0
        else:
            raise Undecided("to_tm")
        o.f["tm_year"].v = sub(cal.proj(st, "year", d), 1900)
        o.f["tm_mon"].v = sub(cal.proj(st, "month", d), 1)
        o.f["tm_mday"].v = cal.proj(st, "day", d)
        o.f["tm_wday"].v = cal.proj(st, "dow", d)
        o.f["tm_hour"].v = cal.tod_part(st, "hour", k, s)
        o.f["tm_min"].v = cal.tod_part(st, "min", k, s)
        o.f["tm_sec"].v = cal.tod_part(st, "sec", k, s)
        o.f["tm_isdst"].v = -1
        return o


FnRefT = FnRef
SWEEP = atom("sweep")


def same_len(lib, a, b):
    try:
        return lib.length(a) == lib.length(b)
    except Undecided:
        return False


def after(f, g):
    """the folding "first f, then g" """
    if f is None or (not isinstance(f, tuple) and not isinstance(g, tuple)):
        return g
    def tab(x):
        if isinstance(x, tuple):
            return x[1]
        return [b + 32 if x == "lower" and 65 <= b <= 90 else b - 32 if x == "upper" and 97 <= b <= 122 else b for b in range(256)]
    a, b = tab(f), tab(g)
    r = fold_of([b[a[x]] for x in range(256)])
    return None if r == "id" else r
