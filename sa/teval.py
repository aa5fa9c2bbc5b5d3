"""Values of abstract terms at one concrete valuation: used to confirm that two terms which differ in form
also differ in value (a difference is only reported together with a valuation that shows it)."""
import calendar
import datetime
import random
from fractions import Fraction
from . import val
from .val import *

EPOCH = 1721425  # ordinal offset is irrelevant: only differences are used


class NoVal(Exception):
    """the term depends on something a valuation does not fix"""


def ymd(o):
    try:
        d = datetime.date.fromordinal(o)
    except (ValueError, OverflowError):
        raise NoVal()
    return d


def ordinal(y, m, d):
    try:
        return datetime.date(int(y), int(m), int(d)).toordinal()
    except (ValueError, OverflowError):
        raise NoVal()


def add_months(o, n):
    d = ymd(o)
    y, m = divmod(d.year * 12 + d.month - 1 + int(n), 12)
    if not 1400 <= y <= 9999:
        raise NoVal()
    last = calendar.monthrange(y, m + 1)[1]
    end = d.day == calendar.monthrange(d.year, d.month)[1]
    return ordinal(y, m + 1, last if end else min(d.day, last))


def dow(o):
    return o % 7          # ordinal 1 is a Monday


class Env:
    def __init__(self, date, tod, atoms, st=None, rnd=None):
        self.date = date          # ordinal
        self.tod = tod            # seconds
        self.a = atoms            # atom -> value
        self.st = st
        self.rnd = rnd
        self.words = []

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Fraction)):
            return v
        if isinstance(v, Lin):
            r = v.c
            for a, k in v.t.items():
                r += k * self.atom(a)
            return r
        raise NoVal()

    def atom(self, a):
        if a in self.a:
            return self.a[a]
        r = self._atom(a)
        self.a[a] = r
        return r

    def _atom(self, a):
        k = a[0]
        if k == "ref":
            d = ymd(self.date)
            return {"year": d.year, "month": d.month, "day": d.day, "dow": dow(self.date), "hour": self.tod // 3600,
                    "min": self.tod // 60 % 60, "sec": self.tod % 60}[a[1]]
        if k == "reftod":
            return self.tod
        if k == "proj":
            o = self.day(a[2])
            d = ymd(o)
            return {"year": d.year, "month": d.month, "day": d.day, "dow": dow(o)}[a[1]]
        if k == "proj2":
            return ymd(self.day(a[2])).timetuple().tm_yday
        if k == "tod":
            s = (a[2] * self.tod + self.num(a[3])) % 86400
            return {"hour": s // 3600, "min": s // 60 % 60, "sec": s % 60}[a[1]]
        if k == "dn":
            return self.day(a[1])
        if k == "eom":
            y, m = int(self.num(a[1])), int(self.num(a[2]))
            if not (1 <= y <= 9999 and 1 <= m <= 12):
                raise NoVal()
            return calendar.monthrange(y, m)[1]
        if k in ("div", "mod"):
            x, n = self.num(a[1]), a[2]
            q = abs(x) // abs(n)
            q = q if (x >= 0) == (n > 0) else -q
            return q if k == "div" else x - q * n
        if k == "mul":
            return self.num(a[1]) * self.num(a[2])
        if k == "f32":
            return single(self.num(a[1]))
        if k == "trunc":
            return int(self.num(a[1]))
        if k == "abs":
            return abs(self.num(a[1]))
        if k in ("fld", "num") or (k == "sym"):
            if self.st is None:
                raise NoVal()
            lo, hi = self.st.atom_range(a)
            if lo is None:
                lo = 0 if hi is None or hi >= 0 else hi - 1000
            hi = max(10 ** 6, lo + 1000) if hi is None else hi
            if lo > hi:
                raise NoVal()
            r = self.rnd.random()
            if r < 0.45:
                return self.rnd.randint(lo, min(hi, lo + 12))
            if r < 0.6:
                return self.rnd.randint(lo, min(hi, lo + 70))
            if r < 0.75:
                return self.rnd.randint(lo, min(hi, lo + 400))
            if r < 0.9:
                return self.rnd.randint(max(lo, hi - 40), hi)
            return self.rnd.randint(lo, hi)
        raise NoVal()

    def day(self, d):
        if isinstance(d, Special):
            raise NoVal()
        b = d.base
        k = b[0]
        if k == "ref":
            o = self.date
        elif k == "ymd":
            o = ordinal(*[self.num(x) for x in b[1:4]])
        elif k == "ndow":
            n, w, m, y = [self.num(x) for x in b[1:5]]
            f = ordinal(y, m, 1)
            o = f + (w - dow(f)) % 7 + 7 * (n - 1)
            if ymd(o).month != m:
                o -= 7
        elif k == "ldow":
            w, m, y = [self.num(x) for x in b[1:4]]
            l = ordinal(y, m, calendar.monthrange(y, m)[1])
            o = l - (dow(l) - w) % 7
        elif k in ("kdb", "kda"):
            w, o = self.num(b[1]), self.day(b[2])
            o += ((w - dow(o)) % 7 or 7) if k == "kda" else -((dow(o) - w) % 7 or 7)
        elif k == "of":
            o = self.day(b[1]) + (b[2] * self.tod + int(self.num(b[3]))) // 86400
        elif k == "eomd":
            x = ymd(self.day(b[1]))
            o = ordinal(x.year, x.month, calendar.monthrange(x.year, x.month)[1])
        else:
            raise NoVal()
        for u, n in d.ops:
            n = self.num(n)
            o = o + int(n) if u == "d" else add_months(o, n)
            if not 511000 < o < 3652059:
                raise NoVal()
        return o

    def moment(self, p):
        return self.day(p.d) * 86400 + p.k * self.tod + self.num(p.secs)

    def value(self, v):
        if isinstance(v, D):
            return self.day(v)
        if isinstance(v, PT):
            return self.moment(v)
        if v is None or isinstance(v, (str, bytes)):
            return v
        return self.num(v)


DATES = [(2019, 1, 21), (2020, 2, 29), (2019, 2, 28), (2019, 12, 31), (2020, 1, 1), (2021, 3, 31), (2022, 7, 3), (2000, 2, 28),
         (1999, 12, 31), (2024, 4, 30), (2023, 8, 5), (2020, 3, 1), (2021, 6, 30), (2018, 10, 31), (2025, 5, 31), (2016, 11, 6),
         (2015, 9, 13), (2014, 1, 30), (2013, 1, 31), (2012, 12, 1), (2026, 12, 6), (2021, 1, 3), (2017, 1, 8)]
TODS = [0, 1, 59, 3599, 3600, 21599, 21600, 25199, 25200, 43199, 43200, 45296, 82799, 82800, 86340, 86399, 70000, 30000]


def envs(st, n=260, seed=1):
    """valuations that satisfy what the path is known to require"""
    rnd = random.Random(seed)
    need_dow = st.const.get(("ref", "dow"))
    made = 0
    draw = drawer(st, rnd)
    keys = [k for k in st.bounds if sum(1 for i, _ in k if val._rev[i][0] == "sym") > 0 and len(k) > 1]
    for i in range(n * 12):
        if made >= n:
            return
        if i % 2:
            d = ordinal(*rnd.choice(DATES))
        else:
            d = ordinal(rnd.randint(1995, 2040), 1, 1) + rnd.randint(0, 365)
        if need_dow is not None:
            d += (need_dow - dow(d)) % 7
        t = rnd.choice(TODS) if rnd.random() < 0.6 else rnd.randint(0, 86399)
        # aim at recorded bounds on the reference itself
        for what in ("hour", "min", "sec"):
            lo, hi = st.atom_range(("ref", what))
            u = {"hour": 3600, "min": 60, "sec": 1}[what]
            cur = t // u % (24 if what == "hour" else 60)
            if not lo <= cur <= hi:
                t += (rnd.randint(lo, hi) - cur) * u
        try:
            y = ymd(d)
            mo = st.atom_range(("ref", "month"))
            da = st.atom_range(("ref", "day"))
            yr = st.atom_range(("ref", "year"))
            if not (mo[0] <= y.month <= mo[1] and da[0] <= y.day <= da[1] and yr[0] <= y.year <= yr[1]):
                yy = y.year if yr[0] <= y.year <= yr[1] else rnd.randint(max(yr[0], 1400), min(yr[1], 9999))
                d = ordinal(yy, rnd.randint(*mo), rnd.randint(*da))
                if need_dow is not None and dow(d) != need_dow:
                    continue
        except NoVal:
            continue
        e = Env(d, t, {}, st, rnd)
        for a, v in st.const.items():
            if a[0] != "ref":
                e.a[a] = v
        if not draw(e):
            continue
        if keys:
            repair(st, e, keys)
        if consistent(st, e):
            made += 1
            yield e


def envs_on(st, days, n=400, seed=2):
    """valuations whose reference day is one of days(env): aimed at a boundary that random drawing rarely meets"""
    rnd = random.Random(seed)
    draw = drawer(st, rnd)
    for _ in range(n):
        base = Env(ordinal(2001, 1, 1), 0, {}, st, rnd)
        for a, v in st.const.items():
            if a[0] != "ref":
                base.a[a] = v
        if not draw(base):
            continue
        try:
            ds = days(base, rnd)
        except NoVal:
            continue
        keep = {a: v for a, v in base.a.items() if a[0] in ("num", "fld", "sym", "P") or a in st.const or a in st.numspan}
        for d in ds:
            w = st.const.get(("ref", "dow"))
            if w is not None and dow(d) != w:
                continue
            e = Env(d, rnd.randint(0, 86399), dict(keep), st, rnd)
            e.words = base.words
            try:
                ok = consistent(st, e)
            except NoVal:
                ok = False
            if ok:
                yield e


def repair(st, e, keys):
    """move free symbols so that recorded bounds on sums hold (random drawing rarely meets an equality)"""
    rev = val._rev
    for _ in range(3):
        moved = False
        for key in keys:
            lo, hi = st.bounds[key]
            try:
                v = sum(k * e.atom(rev[i]) for i, k in key)
            except NoVal:
                continue
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                continue
            want = lo if lo is not None and v < lo else hi
            d = want - v
            for i, k in sorted(key, key=lambda x: -abs(x[1])):
                a = rev[i]
                if a[0] != "sym" or a in st.const:
                    continue
                x = e.a[a]
                l, h = st.atom_range(a)
                c = int(abs(d) // abs(k)) * (1 if (d > 0) == (k > 0) else -1)
                y = x + c
                y = y if l is None or y >= l else l
                y = y if h is None or y <= h else h
                if y != x:
                    e.a[a] = y
                    d -= (y - x) * k
                    moved = True
            if moved:
                for a in [a for a in e.a if a[0] not in ("sym", "fld", "num", "P") and a not in st.const]:
                    del e.a[a]
        if not moved:
            return


def drawer(st, rnd):
    """-> function that draws a text of the path's language and sets the number atoms to what it says"""
    roots = dict(st.roots)
    for a, (sid, o, c) in st.numspan.items():
        lo, hi = st.atom_range(a)
        if lo is None or hi is None or hi - lo > 70:
            continue
        from . import tn
        w = st.lens(Span(sid, o, c))[1]
        if w is not None and (lo, hi) == (0, 10 ** w - 1):
            continue
        try:
            d = tn.d_regex(b"0*(" + b"|".join(b"%d" % v if v else b"" for v in range(lo, hi + 1)) + b")")
            r = tn.restrict(roots[sid], o, c, d)
            if r.acc:
                roots[sid] = r
        except Exception:
            pass

    def draw(e):
        from . import tn
        ws = {}
        for k, r in sorted(roots.items()):
            w = None
            for _ in range(6):
                w = tn.random_word(r, rnd)
                if w is not None:
                    break
            if w is None:
                return not st.numspan
            ws[k] = w
            e.a[("P", k, tn.END_M)] = len(w[0])
            for m, i in w[1].items():
                e.a[("P", k, m)] = i
        e.words = [ws[k][0] for k in sorted(ws)]
        for a, (sid, o, c) in st.numspan.items():
            w, pos = ws[sid]
            i = 0 if o == tn.START_M else pos.get(o)
            j = len(w) if c == tn.END_M else pos.get(c)
            if i is None or j is None:
                continue
            x = w[i:j]
            if not x.isdigit():
                return False
            v = int(x)
            if a in st.const and st.const[a] != v:
                return False
            e.a[a] = v
        return True
    return draw


def consistent(st, e):
    from .val import _rev
    for key, (lo, hi) in st.bounds.items():
        try:
            v = sum(k * e.atom(_rev[i]) for i, k in key)
        except NoVal:
            if all(_rev[i][0] in ("P", "usize", "size") for i, k in key):
                continue
            return False
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            return False
    for key, xs in st.excl.items():
        try:
            v = sum(k * e.atom(_rev[i]) for i, k in key)
        except NoVal:
            if all(_rev[i][0] in ("P", "usize", "size") for i, k in key):
                continue
            return False
        if v in xs:
            return False
    for key, val in st.memo.items():
        if isinstance(key, tuple) and key and key[0] == "leap":
            try:
                y = e.num(key[1])
            except NoVal:
                return False
            if (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)) != val:
                return False
    return True


def differ(st, pairs, n=260):
    """a valuation at which some pair (name, actual, expected) differs; -> (env, name, a, b) / None, and #checked"""
    if all(a == b for _, a, b in pairs):
        return None, 0
    k = 0
    for e in envs(st, n):
        try:
            vals = [(nm, e.value(a), e.value(b)) for nm, a, b in pairs]
        except NoVal:
            continue
        k += 1
        for nm, a, b in vals:
            if a != b:
                return (e, nm, a, b), k
    return None, k


def show_env(e):
    d = ymd(e.date)
    s = "reference %04d-%02d-%02d %02d:%02d:%02d" % (d.year, d.month, d.day, e.tod // 3600, e.tod // 60 % 60, e.tod % 60)
    for a, v in sorted(e.a.items(), key=repr):
        if a[0] == "sym" or (a[0] in ("fld", "num") and not e.words):
            s += ", %s = %s" % (show_atom(a), v)
    for w in e.words:
        s += ', text "%s"' % w.decode("latin-1")
    return s
