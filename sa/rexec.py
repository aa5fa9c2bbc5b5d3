"""ECMAScript matching of a pattern on a known word (for constant folding of regex calls on known words)."""
from . import rx

WORDS = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")


class Budget(Exception):
    pass


def matches(ast, s, start, full=False):
    """groups dict of the first match at position start, or None"""
    steps = [0]

    def m(a, i, g, k):
        steps[0] += 1
        if steps[0] > 200000:
            raise Budget()
        t = a[0]
        if t == "c":
            if i < len(s) and (a[1] >> s[i]) & 1:
                return k(i + 1, g)
            return None
        if t == "cat":
            xs = a[1]

            def go(j, i, g):
                if j == len(xs):
                    return k(i, g)
                return m(xs[j], i, g, lambda i2, g2: go(j + 1, i2, g2))
            return go(0, i, g)
        if t == "alt":
            for x in a[1]:
                r = m(x, i, g, k)
                if r is not None:
                    return r
            return None
        if t == "grp":
            return m(a[2], i, g, lambda i2, g2: k(i2, {**g2, a[1]: (i, i2)}))
        if t == "rep":
            x, lo, hi, greedy = a[1], a[2], a[3], a[4]

            def rep(n, i, g):
                def more():
                    if hi is not None and n >= hi:
                        return None
                    return m(x, i, g, lambda i2, g2: None if (i2 == i and n >= lo) else rep(n + 1, i2, g2))
                if n < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else k(i, g)
                r = k(i, g)
                return r if r is not None else more()
            return rep(0, i, g)
        if t == "bol":
            return k(i, g) if i == 0 else None
        if t == "eol":
            return k(i, g) if i == len(s) else None
        if t == "wb":
            w = (i > 0 and s[i - 1] in WORDS) != (i < len(s) and s[i] in WORDS)
            return k(i, g) if w != bool(a[1]) else None
        if t == "la":
            r = m(a[2], i, g, lambda i2, g2: g2)
            if a[1]:
                return k(i, g) if r is None else None
            return k(i, r) if r is not None else None
        raise rx.Unsupported("construct " + t)

    def end(i, g):
        if full and i != len(s):
            return None
        return {**g, 0: (start, i)}
    return m(ast, start, {}, end)


def search(pat, icase, s, pos=0):
    ast, _ = rx.parse(pat, icase)
    for i in range(pos, len(s) + 1):
        g = matches(ast, s, i)
        if g is not None:
            return g
    return None


def replace(pat, icase, s, fmt):
    out = b""
    pos = 0
    last = 0
    while pos <= len(s):
        g = search(pat, icase, s, pos)
        if g is None:
            break
        a, b = g[0]
        out += s[last:a] + expand(fmt, s, g)
        last = b
        pos = b if b > a else b + 1
    return out + s[last:]


def expand(fmt, s, g):
    out = b""
    i = 0
    while i < len(fmt):
        c = fmt[i:i + 1]
        if c == b"$" and i + 1 < len(fmt):
            n = fmt[i + 1:i + 2]
            if n.isdigit():
                k = int(n)
                i += 2
                if i < len(fmt) and fmt[i:i + 1].isdigit():
                    k = k * 10 + int(fmt[i:i + 1])
                    i += 1
                if k in g:
                    out += s[g[k][0]:g[k][1]]
                continue
            if n == b"&":
                out += s[g[0][0]:g[0][1]]
                i += 2
                continue
            if n == b"$":
                out += b"$"
                i += 2
                continue
        out += c
        i += 1
    return out
