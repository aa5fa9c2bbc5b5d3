"""Abstract values: linear forms over named unknowns, calendar terms, objects."""
from fractions import Fraction
from math import gcd

_intern = {}
_rev = []


def intern(a):
    i = _intern.get(a)
    if i is None:
        i = len(_rev)
        _intern[a] = i
        _rev.append(a)
    return i


class Lin:
    """c + sum coeff*atom; atoms are hashable terms standing for integers"""
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = []
        for a, k in sorted(self.t.items(), key=lambda x: repr(x[0])):
            n = show_atom(a)
            s.append(n if k == 1 else "-" + n if k == -1 else "%s*%s" % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return " + ".join(s).replace("+ -", "- ")


def show_atom(a):
    if not isinstance(a, tuple):
        return str(a)
    k = a[0]
    if k == "ref":
        return "ref." + a[1]
    if k == "num":
        return "number(%s)" % a[1]
    if k == "fld":
        return a[1]
    if k == "proj":
        return "%s(%r)" % (a[1], a[2])
    if k in ("div", "mod"):
        return "(%r %s %r)" % (a[1], "/" if k == "div" else "%", a[2])
    if k == "todh":
        return "%s(%s%r s)" % (a[1], "ref.time + " if a[2] else "", a[3])
    if k == "P":
        return "pos%r" % (a[2],)
    if k == "len":
        return "len(%s)" % (a[1],)
    return "%s(%s)" % (k, ", ".join(repr(x) if not isinstance(x, tuple) else show_atom(x) for x in a[1:]))


def is_num(v):
    return isinstance(v, (int, Fraction, Lin)) and not isinstance(v, bool)


def fr(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def atom(*a):
    return Lin(0, {tuple(a): 1})


def single(v):
    """a whole number as single precision holds it"""
    import struct
    return int(struct.unpack("f", struct.pack("f", v))[0])


def add(a, b):
    la, lb = isinstance(a, Lin), isinstance(b, Lin)
    if not la and not lb:
        return fr(a + b)
    if not la:
        return Lin(fr(a + b.c), b.t)
    if not lb:
        return Lin(fr(a.c + b), a.t)
    t = dict(a.t)
    for k, v in b.t.items():
        n = t.get(k, 0) + v
        if n == 0:
            t.pop(k, None)
        else:
            t[k] = fr(n)
    c = fr(a.c + b.c)
    return Lin(c, t) if t else c


def scale(a, k):
    if k == 0:
        return 0
    if isinstance(a, Lin):
        return Lin(fr(a.c * k), {x: fr(v * k) for x, v in a.t.items()})
    return fr(a * k)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def direction(l):
    """Lin -> (key, factor, const): l = factor*dir + const with dir canonical (primitive integer coefficients)"""
    items = sorted((intern(a), Fraction(v)) for a, v in l.t.items())
    den = 1
    for _, v in items:
        den = den * v.denominator // gcd(den, v.denominator)
    num = 0
    for _, v in items:
        num = gcd(num, int(v * den))
    f = Fraction(num, den)
    if items[0][1] < 0:
        f = -f
    return tuple((i, int(v / f)) for i, v in items), f, l.c


def from_dir(key):
    return Lin(0, {_rev[i]: v for i, v in key})


class Uninit:
    def __repr__(self):
        return "<uninitialised>"


UNINIT = Uninit()


class Unknown:
    """a value the analysis does not model; deciding anything on it stops the path as undecided"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<unknown: %s>" % self.why


class Cell:
    __slots__ = ("v", "g", "ver", "name", "dead", "own", "t")

    def __init__(self, v=UNINIT, name=None, g=None):
        self.v = v
        self.name = name
        self.g = g
        self.ver = 0
        self.dead = False
        self.own = None
        self.t = None


class Obj:
    __slots__ = ("cls", "f", "g")

    def __init__(self, cls, f=None):
        self.cls = cls
        self.f = f if f is not None else {}
        self.g = None

    def __repr__(self):
        return "%s{%s}" % (self.cls, ", ".join("%s=%r" % (k, c.v) for k, c in self.f.items()))


class Span:
    """piece of a symbolic text between two position markers, read through a letter-case folding f"""
    __slots__ = ("sid", "o", "c", "f")

    def __init__(self, sid, o, c, f=None):
        self.sid, self.o, self.c, self.f = sid, o, c, f

    def key(self):
        return (self.sid, self.o, self.c, self.f)

    def __eq__(self, x):
        return isinstance(x, Span) and self.key() == x.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s[%s..%s]%s" % (self.sid, show_m(self.o), show_m(self.c), "." + str(self.f)[:8] if self.f else "")


def show_m(m):
    if m == ("^",):
        return "start"
    if m == ("$",):
        return "end"
    if m[0] == "$":
        return "%s%s" % (m[1], "<" if m[2] == "o" else ">")
    return ".".join(map(str, m))


class Chr:
    """k-th character of a symbolic string"""
    __slots__ = ("s", "k", "f_")

    def __init__(self, s, k):
        self.s, self.k = s, k
        self.f_ = None          # table of mapped values, if any

    def __repr__(self):
        return "char(%r,%r)" % (self.s, self.k)


class Cat:
    """concatenation with opaque pieces: only compared structurally"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Cat):
                q = list(p.parts)
            else:
                q = [p]
            for x in q:
                if isinstance(x, bytes):
                    if not x:
                        continue
                    if out and isinstance(out[-1], bytes):
                        out[-1] += x
                        continue
                out.append(x)
        self.parts = tuple(out)

    def __eq__(self, o):
        return isinstance(o, Cat) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)

    def __repr__(self):
        return "cat%r" % (self.parts,)


class OpStr:
    """opaque string value with an identity"""
    __slots__ = ("k",)

    def __init__(self, *k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, OpStr) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "str(%s)" % (", ".join(map(repr, self.k)))


class Vec:
    __slots__ = ("kind", "et", "e", "g")

    def __init__(self, kind, et, e=None):
        self.kind, self.et = kind, et
        self.e = e if e is not None else []
        self.g = None

    def __repr__(self):
        return "%s%r" % (self.kind, [c.v for c in self.e])


class Map:
    __slots__ = ("kind", "kt", "vt", "e", "g", "lazy", "name")

    def __init__(self, kind, kt, vt):
        self.kind, self.kt, self.vt = kind, kt, vt
        self.e = {}
        self.g = None
        self.lazy = None
        self.name = None

    def keys(self):
        return sorted(self.e) if self.kind in ("map", "set", "multimap") else list(self.e)

    def __repr__(self):
        return "%s{%s}" % (self.kind, ", ".join("%r:%r" % (k, self.e[k].v) for k in self.keys()))


class It:
    __slots__ = ("c", "k", "rev")

    def __init__(self, c, k, rev=False):
        self.c, self.k, self.rev = c, k, rev

    def __repr__(self):
        return "it(%r)" % (self.k,)


END = ("end",)


class Ptr:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class Closure:
    def __init__(self, node, env, this, tu):
        self.node, self.env, self.this, self.tu = node, env, this, tu


class FnRef:
    def __init__(self, node):
        self.node = node


class RegexV:
    __slots__ = ("pat", "icase")

    def __init__(self, pat, icase):
        self.pat, self.icase = pat, icase

    def __repr__(self):
        return "regex(%r%s)" % (self.pat, ", icase" if self.icase else "")


class Flags:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = frozenset(s)


class MatchV:
    """std::smatch.  mid None: empty (no match or never used)"""
    __slots__ = ("mid", "src", "n", "cell", "ver", "ready", "pat", "icase")

    def __init__(self):
        self.mid = None
        self.src = None
        self.pat = self.icase = None
        self.n = 0
        self.cell = None
        self.ver = 0
        self.ready = False

    def copy(self):
        m = MatchV()
        for a in self.__slots__:
            setattr(m, a, getattr(self, a))
        return m


class SubM:
    __slots__ = ("m", "k")

    def __init__(self, m, k):
        self.m, self.k = m, k


class Stream:
    def __init__(self, name):
        self.name = name
        self.out = []
        self.inp = None
        self.bad = False
        self.w = 0
        self.fillc = 32


# ----------------------------------------------------------------------------- calendar terms
class D:
    """date term: base followed by operations ('d', days) / ('m', months)"""
    __slots__ = ("base", "ops", "_h")

    def __init__(self, base, ops=()):
        self.base, self.ops = base, ops
        self._h = None

    def __eq__(self, o):
        return isinstance(o, D) and self.base == o.base and self.ops == o.ops

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.base, self.ops))
        return self._h

    def __repr__(self):
        b = self.base
        s = "refdate" if b == ("ref",) else "%s(%s)" % (b[0], ", ".join(map(repr, b[1:])))
        for k, n in self.ops:
            s += " + %r %s" % (n, "days" if k == "d" else "months")
        return s

    def plus(self, k, n):
        if n == 0:
            return self
        ops = self.ops
        if ops and ops[-1][0] == k == "d":
            m = add(ops[-1][1], n)
            return D(self.base, ops[:-1] + ((("d", m),) if m != 0 else ()))
        b = self.base
        if k == "m" and not ops and b[0] == "ymd" and isinstance(n, int) and n % 12 == 0 and isinstance(b[2], int) and \
                (b[2] != 2 or (isinstance(b[3], int) and b[3] < 28)):
            # the same day of another year (only the end of February moves)
            return D(("ymd", add(b[1], n // 12), b[2], b[3]))
        return D(self.base, ops + ((k, n),))


class Special:
    """not_a_date_time and friends"""

    def __repr__(self):
        return "not_a_date"

    def __eq__(self, o):
        return isinstance(o, Special)

    def __hash__(self):
        return 7


class PT:
    """moment: date d, plus k times the reference's time of day, plus secs seconds"""
    __slots__ = ("d", "k", "secs")

    def __init__(self, d, k, secs):
        self.d, self.k, self.secs = d, k, secs

    def __eq__(self, o):
        return isinstance(o, PT) and (self.d, self.k, self.secs) == (o.d, o.k, o.secs)

    def __hash__(self):
        return hash((self.d, self.k, self.secs))

    def __repr__(self):
        return "moment(%r%s + %r s)" % (self.d, " + ref.time" if self.k else "", self.secs)


class Dur:
    """duration: k times the reference's time of day plus secs seconds; tod: it is a time of day (mod 24h)"""
    __slots__ = ("k", "secs", "tod")

    def __init__(self, k, secs, tod=False):
        self.k, self.secs, self.tod = k, secs, tod

    def __eq__(self, o):
        return isinstance(o, Dur) and (self.k, self.secs, self.tod) == (o.k, o.secs, o.tod)

    def __hash__(self):
        return hash((self.k, self.secs, self.tod))

    def __repr__(self):
        return "dur(%s%r s)" % ("ref.time + " if self.k else "", self.secs)


class DDur:
    """calendar duration: unit 'd' or 'm'"""
    __slots__ = ("u", "n")

    def __init__(self, u, n):
        self.u, self.n = u, n

    def __repr__(self):
        return "%r %s" % (self.n, self.u)


class NDow:
    __slots__ = ("a",)

    def __init__(self, *a):
        self.a = a
