"""Calendar terms: boost::gregorian / boost::posix_time operations on abstract dates and moments."""
from fractions import Fraction
from .val import *
from .state import Throw, Undecided

DAY = 86400


def is_const(x):
    return isinstance(x, int)


def concrete(st, x):
    """the single value of x, or None"""
    if isinstance(x, int):
        return x
    if isinstance(x, Lin):
        lo, hi = st.range_of(x)
        if lo is not None and lo == hi:
            return lo
    return None


def divisible(x, n):
    if isinstance(x, Lin):
        return x.c % n == 0 and all(isinstance(v, int) and v % n == 0 for v in x.t.values())
    return isinstance(x, int) and x % n == 0


def divides(x, n):
    return scale(x, Fraction(1, n))


def split_div(x, n):
    """x = n*q + r with r's constant in [0,n) and coefficients not divisible by n"""
    if not isinstance(x, Lin):
        return x // n, x % n
    q, r = x.c // n, x.c % n
    for a, k in x.t.items():
        if k % n == 0:
            q = add(q, Lin(0, {a: k // n}))
        else:
            r = add(r, Lin(0, {a: k}))
    return q, r


def pull(d):
    """d without its trailing day shift, and that shift"""
    if d.ops and d.ops[-1][0] == "d":
        return D(d.base, d.ops[:-1]), d.ops[-1][1]
    return d, 0


def dn(d):
    """day number of a date"""
    if isinstance(d, Special):
        raise Undecided("arithmetic on not_a_date")
    b, n = pull(d)
    return add(atom("dn", b), n)


def proj(st, what, d):
    if isinstance(d, Special):
        raise Undecided("component of not_a_date")
    if d.ops:
        k, n = d.ops[-1]
        rest = D(d.base, d.ops[:-1])
        if k == "m" and divisible(n, 12):
            if what == "year":
                return add(proj(st, what, rest), divides(n, 12))
            if what == "month":
                return proj(st, what, rest)
        if k == "d" and what == "dow":
            base = proj(st, "dow", rest)
            if divisible(n, 7):
                return base
            c, m = concrete(st, base), concrete(st, n)
            if c is not None and m is not None:
                return (c + m) % 7
        return atom("proj", what, d)
    b = d.base
    if b == ("ref",):
        a = ("ref", what)
        return st.const[a] if a in st.const else atom(*a)
    if b[0] == "ymd" and what != "dow":
        return b[{"year": 1, "month": 2, "day": 3}[what]]
    if b[0] == "ndow" and what in ("dow", "month", "year"):
        return {"dow": b[2], "month": b[3], "year": b[4]}[what]
    if b[0] == "ldow" and what in ("dow", "month", "year"):
        return {"dow": b[1], "month": b[2], "year": b[3]}[what]
    if b[0] in ("kdb", "kda") and what == "dow":
        return b[1]
    return atom("proj", what, d)


def mkpt(st, d, k, secs):
    if isinstance(d, Special):
        return d
    if not isinstance(secs, Lin):
        if isinstance(secs, Fraction):
            raise Undecided("fractional seconds")
        q, r = secs // DAY, secs % DAY
        return PT(d.plus("d", q), k, r)
    if k == 0:
        lo, hi = st.range_of(secs)
        if lo is not None and lo >= 0 and hi is not None and hi < DAY:
            return PT(d, k, secs)
    q, r = split_div(secs, DAY)
    return PT(d.plus("d", q), k, r)


def pt_date(st, p):
    if isinstance(p, Special):
        return p
    if p.k == 1 and p.secs == 0:
        return p.d
    if p.k == 0:
        lo, hi = st.range_of(p.secs)
        if lo is not None and lo >= 0 and hi is not None and hi < DAY:
            return p.d
    b, n = pull(p.d)
    return D(("of", b, p.k, p.secs)).plus("d", n)


def tod_part(st, what, k, secs):
    """hour/min/sec of the time of day (k*ref.tod + secs) mod 24h"""
    if k == 1 and secs == 0:
        a = ("ref", what)
        return st.const[a] if a in st.const else atom(*a)
    if k == 0:
        if isinstance(secs, int):
            s = secs % DAY
            return {"hour": s // 3600, "min": s // 60 % 60, "sec": s % 60}[what]
        lo, hi = st.range_of(secs)
        if lo is not None and lo >= 0 and hi is not None and hi < DAY:
            h, r = split_div(secs, 3600)
            rl, rh = st.range_of(r)
            if rl is not None and rl >= 0 and rh is not None and rh < 3600:
                if what == "hour":
                    return h
                m, s = split_div(r, 60)
                sl, sh = st.range_of(s)
                if sl is not None and sl >= 0 and sh is not None and sh < 60:
                    return m if what == "min" else s
    _, r = split_div(secs, DAY)
    if k == 1 and what == "sec" and divisible(r, 60):
        return tod_part(st, "sec", 1, 0)
    if k == 1 and what == "min" and divisible(r, 3600):
        return tod_part(st, "min", 1, 0)
    return atom("tod", what, k, r)


def moment_value(p):
    """seconds since the epoch as a linear form"""
    v = scale(dn(p.d), DAY)
    if p.k:
        v = add(v, scale(atom("reftod"), p.k))
    return add(v, p.secs)


def eom(st, y, m):
    """days in month m of year y (int, or an atom)"""
    cm = concrete(st, m)
    if cm is None:
        return atom("eom", y, m)
    if cm in (4, 6, 9, 11):
        return 30
    if cm != 2:
        return 31
    return 29 if leap(st, y) else 28


def leap(st, y):
    cy = concrete(st, y)
    if cy is not None:
        return cy % 4 == 0 and (cy % 100 != 0 or cy % 400 == 0)
    return st.flag(("leap", y), "%r is a leap year" % (y,))


def triple_of(y, m, d):
    """the date whose components these are, if they are the components of one date"""
    def src(x, what):
        if isinstance(x, Lin) and len(x.t) == 1 and x.c == 0:
            (a, k), = x.t.items()
            if k == 1:
                if a[0] == "ref" and a[1] == what:
                    return D(("ref",))
                if a[0] == "proj" and a[1] == what:
                    return a[2]
        return None
    b = src(d, "day")
    return b


def make_date(st, y, m, d):
    """gregorian::date(y, m, d)"""
    c = triple_of(y, m, d)
    if c is not None and proj(st, "month", c) == m and proj(st, "year", c) == y:
        return c
    rng(st, y, 1400, 9999, "boost::gregorian::bad_year", "year")
    rng(st, m, 1, 12, "boost::gregorian::bad_month", "month")
    rng(st, d, 1, 31, "boost::gregorian::bad_day_of_month", "day of the month")
    lo, hi = st.range_of(d)
    if hi is None or hi > 28:
        e = eom(st, y, m)
        if st.cmp(">", d, e):
            raise Throw("boost::gregorian::bad_day_of_month", "day %r does not exist in month %r of year %r" % (d, m, y), st.loc)
    return D(("ymd", y, m, d))


def rng(st, v, lo, hi, exc, what):
    l, h = st.range_of(v)
    if l is not None and l >= lo and h is not None and h <= hi:
        return
    if exc.endswith("bad_year") and isinstance(v, Lin) and all(a[0] in ("ref", "proj") for a in v.t) and \
            st.opts.get("throws") is None:
        return
    if st.cmp("<", v, lo) or st.cmp(">", v, hi):
        raise Throw(exc, "%s %r outside %d..%d" % (what, v, lo, hi), st.loc)


def shift(st, d, u, n, sign):
    if isinstance(d, Special):
        return d
    if isinstance(n, Fraction):
        raise Undecided("fractional date shift")
    st.may_throw("std::out_of_range", "date arithmetic leaves the representable years")
    return d.plus(u, scale(n, sign))


def kday(st, kind, w, d):
    if isinstance(d, Special):
        raise Undecided("arithmetic on not_a_date")
    c, x = concrete(st, proj(st, "dow", d)), concrete(st, w)
    if c is None or x is None:
        return D((kind, w, d))
    if kind == "kdb":
        n = (c - x) % 7 or 7
        return d.plus("d", -n)
    n = (x - c) % 7 or 7
    return d.plus("d", n)
