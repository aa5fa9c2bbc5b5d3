"""Tagged regular languages: NFAs over bytes and zero-width position markers.

A tagged language describes a set of strings in which some positions carry names.  Capture groups of
a regular-expression match, and the fields of a specification phrase, are both such names, so
'this group is exactly that field' and 'this group can contain these words' are decided on automata.
"""
from collections import deque
from . import rx
from .rx import ALL, Dfa, minterms, low_byte

INF = None


class TN:
    """states 0..n-1; ch[s]=[(mask,t)], ep[s]=[t], mk[s]=[(marker,t)], one start, set of accepting states"""
    __slots__ = ("ch", "ep", "mk", "start", "acc", "_cache")

    def __init__(self, ch, ep, mk, start, acc):
        self.ch, self.ep, self.mk, self.start, self.acc = ch, ep, mk, start, frozenset(acc)
        self._cache = {}

    def size(self):
        return len(self.ch)

    def markers(self):
        if "mk" not in self._cache:
            self._cache["mk"] = {m for l in self.mk for m, _ in l}
        return self._cache["mk"]


class B:
    """builder"""

    def __init__(self):
        self.ch, self.ep, self.mk = [], [], []

    def new(self):
        self.ch.append([])
        self.ep.append([])
        self.mk.append([])
        return len(self.ch) - 1

    def done(self, start, acc):
        return trim(TN(self.ch, self.ep, self.mk, start, acc))


def trim(n):
    """keep useful states, drop pure-epsilon chains where cheap"""
    N = len(n.ch)
    reach = [False] * N
    st = [n.start]
    reach[n.start] = True
    pred = [[] for _ in range(N)]
    while st:
        s = st.pop()
        for _, t in n.ch[s]:
            pred[t].append(s)
            if not reach[t]:
                reach[t] = True
                st.append(t)
        for t in n.ep[s]:
            pred[t].append(s)
            if not reach[t]:
                reach[t] = True
                st.append(t)
        for _, t in n.mk[s]:
            pred[t].append(s)
            if not reach[t]:
                reach[t] = True
                st.append(t)
    co = [False] * N
    st = [s for s in n.acc if reach[s]]
    for s in st:
        co[s] = True
    while st:
        s = st.pop()
        for p in pred[s]:
            if not co[p]:
                co[p] = True
                st.append(p)
    keep = [s for s in range(N) if reach[s] and co[s]]
    if not co[n.start]:
        return TN([[]], [[]], [[]], 0, [])
    # collapse states whose only transition is a single epsilon
    rep = {}

    def find(s):
        path = []
        while (s not in n.acc and not n.ch[s] and not n.mk[s] and len(n.ep[s]) >= 1):
            es = [t for t in n.ep[s] if co[t]]
            if len(es) != 1 or s in path:
                break
            path.append(s)
            s = es[0]
        return s
    for s in keep:
        rep[s] = find(s)
    used = []
    idx = {}

    def mark(s):
        s = rep[s]
        if s not in idx:
            idx[s] = len(used)
            used.append(s)
        return idx[s]
    start = mark(n.start)
    ch, ep, mk = [], [], []
    i = 0
    while i < len(used):
        s = used[i]
        d = {}
        for m, t in n.ch[s]:
            if co[t]:
                k = mark(t)
                d[k] = d.get(k, 0) | m
        ch.append([(m, t) for t, m in d.items()])
        ep.append(sorted({mark(t) for t in n.ep[s] if co[t]} - {i}))
        mk.append(sorted({(m, mark(t)) for m, t in n.mk[s] if co[t]}, key=repr))
        i += 1
    return TN(ch, ep, mk, start, {idx[s] for s in n.acc if s in idx})


def empty(n):
    return not n.acc


def from_regex(ast, tag=None):
    """Language of the regex (assertions are ignored: an over-approximation), groups marked
    ((tag,k,'o') / (tag,k,'c')) when tag is given; group 0 is the whole match."""
    b = B()

    def build(a, s):
        t = a[0]
        if t == "c":
            e = b.new()
            b.ch[s].append((a[1], e))
            return e
        if t == "cat":
            for x in a[1]:
                s = build(x, s)
            return s
        if t == "alt":
            e = b.new()
            for x in a[1]:
                q = b.new()
                b.ep[s].append(q)
                b.ep[build(x, q)].append(e)
            return e
        if t == "grp":
            if tag is None:
                return build(a[2], s)
            q = b.new()
            b.mk[s].append(((tag, a[1], "o"), q))
            r = build(a[2], q)
            e = b.new()
            b.mk[r].append(((tag, a[1], "c"), e))
            return e
        if t == "rep":
            _, x, lo, hi, _g = a
            for _ in range(lo):
                s = build(x, s)
            if hi is None:
                q = b.new()
                b.ep[s].append(q)
                e = build(x, q)
                b.ep[e].append(q)
                f = b.new()
                b.ep[q].append(f)
                return f
            end = b.new()
            b.ep[s].append(end)
            for _ in range(hi - lo):
                s = build(x, s)
                b.ep[s].append(end)
            return end
        return s
    s = b.new()
    if tag is not None:
        q = b.new()
        b.mk[s].append(((tag, 0, "o"), q))
        r = build(ast, q)
        e = b.new()
        b.mk[r].append(((tag, 0, "c"), e))
    else:
        e = build(ast, s)
    return b.done(s, [e])


def const(w):
    b = B()
    s = b.new()
    st = s
    for c in w:
        e = b.new()
        b.ch[s].append((1 << c, e))
        s = e
    return b.done(st, [s])


def words(ws):
    b = B()
    st = b.new()
    acc = b.new()
    for w in ws:
        s = b.new()
        b.ep[st].append(s)
        for c in w:
            e = b.new()
            b.ch[s].append((1 << c, e))
            s = e
        b.ep[s].append(acc)
    return b.done(st, [acc])


def anything(mask=ALL):
    b = B()
    s = b.new()
    b.ch[s].append((mask, s))
    return b.done(s, [s])


def copy_into(b, n):
    off = len(b.ch)
    for i in range(len(n.ch)):
        b.new()
    for i in range(len(n.ch)):
        b.ch[off + i] = [(m, t + off) for m, t in n.ch[i]]
        b.ep[off + i] = [t + off for t in n.ep[i]]
        b.mk[off + i] = [(m, t + off) for m, t in n.mk[i]]
    return off


def concat(parts):
    b = B()
    st = b.new()
    cur = [st]
    for p in parts:
        off = copy_into(b, p)
        for c in cur:
            b.ep[c].append(p.start + off)
        cur = [a + off for a in p.acc]
    return b.done(st, cur)


def union(parts):
    b = B()
    st = b.new()
    acc = []
    for p in parts:
        off = copy_into(b, p)
        b.ep[st].append(p.start + off)
        acc += [a + off for a in p.acc]
    return b.done(st, acc)


def tagged(n, o, c):
    """markers o, c around the whole language"""
    b = B()
    s = b.new()
    e = b.new()
    off = copy_into(b, n)
    b.mk[s].append((o, n.start + off))
    for a in n.acc:
        b.mk[a + off].append((c, e))
    return b.done(s, [e])


def map_chars(n, f):
    cache = {}

    def g(m):
        if m not in cache:
            cache[m] = f(m)
        return cache[m]
    ch = [[(g(m), t) for m, t in l] for l in n.ch]
    return TN(ch, n.ep, n.mk, n.start, n.acc)


def lower_mask(m):
    return (m & ~rx.UPPER) | ((m & rx.UPPER) << 32)


def upper_mask(m):
    return (m & ~rx.LOWER) | ((m & rx.LOWER) >> 32)


def intersect(a, c):
    """product; markers of both interleave freely"""
    b = B()
    idx = {}
    work = []

    def get(p, q):
        k = (p, q)
        if k not in idx:
            idx[k] = b.new()
            work.append(k)
        return idx[k]
    st = get(a.start, c.start)
    while work:
        p, q = work.pop()
        s = idx[(p, q)]
        for m, t in a.ch[p]:
            for m2, t2 in c.ch[q]:
                mm = m & m2
                if mm:
                    b.ch[s].append((mm, get(t, t2)))
        for t in a.ep[p]:
            b.ep[s].append(get(t, q))
        for t in c.ep[q]:
            b.ep[s].append(get(p, t))
        for m, t in a.mk[p]:
            b.mk[s].append((m, get(t, q)))
        for m, t in c.mk[q]:
            b.mk[s].append((m, get(p, t)))
    acc = [i for (p, q), i in idx.items() if p in a.acc and q in c.acc]
    return b.done(st, acc)


def intersect_dfa(a, d):
    b = B()
    idx = {}
    work = []

    def get(p, q):
        k = (p, q)
        if k not in idx:
            idx[k] = b.new()
            work.append(k)
        return idx[k]
    st = get(a.start, d.start)
    while work:
        p, q = work.pop()
        s = idx[(p, q)]
        for m, t in a.ch[p]:
            for m2, t2 in d.trans[q]:
                mm = m & m2
                if mm:
                    b.ch[s].append((mm, get(t, t2)))
        for t in a.ep[p]:
            b.ep[s].append(get(t, q))
        for m, t in a.mk[p]:
            b.mk[s].append((m, get(t, q)))
    acc = [i for (p, q), i in idx.items() if p in a.acc and d.acc[q]]
    return b.done(st, acc)


START_M, END_M = ("^",), ("$",)


EMPTY = TN([[]], [[]], [[]], 0, [])


def embed(a, mo, mc, inner):
    """Constrain the span of `a` between markers mo and mc (start/end of text allowed) to the tagged
    language `inner`, adding inner's markers."""
    b = B()
    idx = {}
    work = []

    def get(k):
        if k not in idx:
            idx[k] = b.new()
            work.append(k)
        return idx[k]
    # phases: 0 before mo, 1 inside with inner state, 2 after mc
    st = get((a.start, 0, -1)) if mo != START_M else get((a.start, 1, inner.start))
    while work:
        k = work.pop()
        p, ph, q = k
        s = idx[k]
        if ph == 1:
            for m, t in a.ch[p]:
                for m2, t2 in inner.ch[q]:
                    mm = m & m2
                    if mm:
                        b.ch[s].append((mm, get((t, 1, t2))))
            for t2 in inner.ep[q]:
                b.ep[s].append(get((p, 1, t2)))
            for m, t2 in inner.mk[q]:
                b.mk[s].append((m, get((p, 1, t2))))
        else:
            for m, t in a.ch[p]:
                b.ch[s].append((m, get((t, ph, -1))))
        for t in a.ep[p]:
            b.ep[s].append(get((t, ph, q)))
        for m, t in a.mk[p]:
            if ph == 0 and m == mo:
                b.mk[s].append((m, get((t, 1, inner.start))))
            elif ph == 1 and m == mc:
                if q in inner.acc:
                    b.mk[s].append((m, get((t, 2, -1))))
            elif ph == 2 and m == mo:
                # repeated group: a later iteration; restart
                b.mk[s].append((m, get((t, 1, inner.start))))
            else:
                b.mk[s].append((m, get((t, ph, q))))
    acc = []
    for (p, ph, q), i in idx.items():
        if p in a.acc:
            if mc == END_M:
                if ph == 1 and q in inner.acc:
                    acc.append(i)
            elif ph == 2:
                acc.append(i)
    return b.done(st, acc)


def restrict(a, mo, mc, d, absent_ok=None):
    """Keep strings whose (last) span mo..mc is in the DFA d.  Strings where the span does not exist are
    kept when the DFA accepts the empty string (an unmatched group reads as empty)."""
    if mo == mc:
        return a if d.acc[d.start] else EMPTY
    if absent_ok is None:
        absent_ok = d.acc[d.start]
    b = B()
    idx = {}
    work = []

    def get(k):
        if k not in idx:
            idx[k] = b.new()
            work.append(k)
        return idx[k]
    st = get((a.start, -1)) if mo != START_M else get((a.start, d.start))
    OK, BAD = -2, -3
    while work:
        k = work.pop()
        p, q = k
        s = idx[k]
        if q >= 0:
            for m, t in a.ch[p]:
                for m2, t2 in d.trans[q]:
                    mm = m & m2
                    if mm:
                        b.ch[s].append((mm, get((t, t2))))
        else:
            for m, t in a.ch[p]:
                b.ch[s].append((m, get((t, q))))
        for t in a.ep[p]:
            b.ep[s].append(get((t, q)))
        for m, t in a.mk[p]:
            if m == mo and mo != START_M:
                b.mk[s].append((m, get((t, d.start))))
            elif m == mc and q >= 0:
                b.mk[s].append((m, get((t, OK if d.acc[q] else BAD))))
            else:
                b.mk[s].append((m, get((t, q))))
    acc = []
    for (p, q), i in idx.items():
        if p in a.acc:
            if q == OK or (q == -1 and absent_ok) or (mc == END_M and q >= 0 and d.acc[q]):
                acc.append(i)
    return b.done(st, acc)


def participation(a, mo):
    """'always' | 'never' | 'maybe': does an accepted string carry the marker?"""
    key = ("part", mo)
    if key in a._cache:
        return a._cache[key]
    if mo in (START_M, END_M):
        r = "always"
    else:
        # reachable accept without / with marker
        seen = {(a.start, False)}
        st = [(a.start, False)]
        w = wo = False
        while st:
            s, f = st.pop()
            if s in a.acc:
                if f:
                    w = True
                else:
                    wo = True
            nx = [(t, f) for _, t in a.ch[s]] + [(t, f) for t in a.ep[s]] + [(t, f or m == mo) for m, t in a.mk[s]]
            for k in nx:
                if k not in seen:
                    seen.add(k)
                    st.append(k)
        r = "always" if w and not wo else ("never" if not w else "maybe")
    a._cache[key] = r
    return r


def with_marker(a, mo, yes):
    """strings that carry / do not carry the marker"""
    b = B()
    idx = {}
    work = []

    def get(k):
        if k not in idx:
            idx[k] = b.new()
            work.append(k)
        return idx[k]
    st = get((a.start, False))
    while work:
        k = work.pop()
        p, f = k
        s = idx[k]
        for m, t in a.ch[p]:
            b.ch[s].append((m, get((t, f))))
        for t in a.ep[p]:
            b.ep[s].append(get((t, f)))
        for m, t in a.mk[p]:
            if m == mo:
                if yes:
                    b.mk[s].append((m, get((t, True))))
            else:
                b.mk[s].append((m, get((t, f))))
    return b.done(st, [i for (p, f), i in idx.items() if p in a.acc and f == yes])


def span(a, mo, mc):
    """the tagged language of the span mo..mc (over-approximation: any iteration of a repeated group)"""
    key = ("span", mo, mc)
    if key in a._cache:
        return a._cache[key]
    if mo == START_M and mc == END_M:
        return a
    if mo == mc:
        return const(b"")
    b = B()
    idx = {}
    work = []

    def get(p):
        if p not in idx:
            idx[p] = b.new()
            work.append(p)
        return idx[p]
    st = b.new()
    if mo == START_M:
        starts = [a.start]
    else:
        starts = [t for l in a.mk for m, t in l if m == mo]
    for t in starts:
        b.ep[st].append(get(t))
    acc = set()
    while work:
        p = work.pop()
        s = idx[p]
        for m, t in a.ch[p]:
            b.ch[s].append((m, get(t)))
        for t in a.ep[p]:
            b.ep[s].append(get(t))
        for m, t in a.mk[p]:
            if m == mc:
                acc.add(s)
            elif m == mo:
                continue
            else:
                b.mk[s].append((m, get(t)))
        if mc == END_M and p in a.acc:
            acc.add(s)
    r = b.done(st, acc)
    a._cache[key] = r
    return r


def forget(a):
    """drop markers"""
    return TN(a.ch, [a.ep[i] + [t for _, t in a.mk[i]] for i in range(len(a.ch))], [[] for _ in a.ch], a.start, a.acc)


def adjacent(a, m1, m2):
    """True when on every accepted string carrying both markers no byte lies between their last occurrences"""
    if m1 == m2:
        return True
    key = ("adj", m1, m2)
    if key in a._cache:
        return a._cache[key]
    # state: (s, k) k: 0 none seen, 1 m1 seen adjacent so far, 2 m2 seen adjacent so far, 3 both ok, 4 broken(m1 first), 5 broken(m2 first) , 6 violated
    s0 = a.start
    k0 = 0
    if m1 == START_M:
        k0 = 1
    elif m2 == START_M:
        k0 = 2
    seen = {(s0, k0)}
    st = [(s0, k0)]
    res = True
    both = False
    while st and res:
        s, k = st.pop()
        if s in a.acc:
            kk = k
            if m1 == END_M:
                kk = 3 if k == 2 else (6 if k in (5,) else kk)
            elif m2 == END_M:
                kk = 3 if k == 1 else (6 if k in (4,) else kk)
            if kk == 3:
                both = True
            if kk == 6:
                res = False
                break
        nx = []
        ck = {0: 0, 1: 4, 2: 5, 3: 3, 4: 4, 5: 5, 6: 6}[k]
        for _, t in a.ch[s]:
            nx.append((t, ck))
        for t in a.ep[s]:
            nx.append((t, k))
        for m, t in a.mk[s]:
            q = k
            if m == m1:
                q = {0: 1, 1: 1, 2: 3, 3: 3, 4: 1, 5: 6, 6: 6}[k]
                if k == 3:
                    q = 3
            elif m == m2:
                q = {0: 2, 1: 3, 2: 2, 3: 3, 4: 6, 5: 2, 6: 6}[k]
            nx.append((t, q))
        for x in nx:
            if x not in seen:
                seen.add(x)
                st.append(x)
    r = res and both
    a._cache[key] = r
    return r


def lengths(a):
    """(min, max or None) number of bytes of accepted strings"""
    if "len" in a._cache:
        return a._cache["len"]
    if not a.acc:
        return (0, -1)
    # min: 0-1 BFS
    dist = {a.start: 0}
    dq = deque([a.start])
    while dq:
        s = dq.popleft()
        for t in list(a.ep[s]) + [t for _, t in a.mk[s]]:
            if t not in dist or dist[t] > dist[s]:
                dist[t] = dist[s]
                dq.appendleft(t)
        for _, t in a.ch[s]:
            if t not in dist or dist[t] > dist[s] + 1:
                dist[t] = dist[s] + 1
                dq.append(t)
    lo = min(dist[s] for s in a.acc)
    # max: SCC with a char edge -> unbounded
    hi = longest(a)
    a._cache["len"] = (lo, hi)
    return lo, hi


def longest(a):
    N = len(a.ch)
    succ = [[(t, 1) for _, t in a.ch[s]] + [(t, 0) for t in a.ep[s]] + [(t, 0) for _, t in a.mk[s]] for s in range(N)]
    comp, nc = scc(succ)
    for s in range(N):
        for t, c in succ[s]:
            if c and comp[s] == comp[t]:
                return None
    order = sorted(range(N), key=lambda s: comp[s])  # sinks first
    best = {}
    # components are numbered in reverse topological order
    members = {}
    for s in range(N):
        members.setdefault(comp[s], []).append(s)
    for c in range(nc):
        m = -1
        for s in members[c]:
            if s in a.acc:
                m = max(m, 0)
            for t, w in succ[s]:
                if comp[t] != c and best[comp[t]] >= 0:
                    m = max(m, best[comp[t]] + w)
        best[c] = m
    return best[comp[a.start]]


def scc(succ):
    """component number per node; components are numbered in reverse topological order"""
    N = len(succ)
    index, low, on, comp, stk = [None] * N, [0] * N, [False] * N, [None] * N, []
    cnt = ncomp = 0
    for root in range(N):
        if index[root] is not None:
            continue
        call = [(root, 0)]
        while call:
            v, i = call.pop()
            if i == 0:
                index[v] = low[v] = cnt
                cnt += 1
                stk.append(v)
                on[v] = True
            rec = False
            for j in range(i, len(succ[v])):
                w = succ[v][j][0]
                if index[w] is None:
                    call.append((v, j + 1))
                    call.append((w, 0))
                    rec = True
                    break
                elif on[w]:
                    low[v] = min(low[v], index[w])
            if rec:
                continue
            if low[v] == index[v]:
                while True:
                    w = stk.pop()
                    on[w] = False
                    comp[w] = ncomp
                    if w == v:
                        break
                ncomp += 1
            if call:
                u = call[-1][0]
                low[u] = min(low[u], low[v])
    return comp, ncomp


def weighted(a, ks):
    """range (min or None, max or None) of the sum of k * position(marker) over the accepted strings in which all of
    the markers {marker: k} take part; None when there is no such string"""
    ms = sorted((m for m in ks if m not in (START_M, END_M)), key=repr)
    bit = {m: 1 << i for i, m in enumerate(ms)}
    full = (1 << len(ms)) - 1
    base = ks.get(END_M, 0)
    wt = [base + sum(ks[m] for m in ms if not b & bit[m]) for b in range(full + 1)]
    idx, nodes, succ = {(a.start, 0): 0}, [(a.start, 0)], []
    i = 0

    def get(k):
        n = idx.get(k)
        if n is None:
            n = idx[k] = len(nodes)
            nodes.append(k)
        return n
    while i < len(nodes):
        s, b = nodes[i]
        e = [(get((t, b)), wt[b]) for _, t in a.ch[s]] + [(get((t, b)), 0) for t in a.ep[s]]
        for m, t in a.mk[s]:
            e.append((get((t, b | bit.get(m, 0))), 0))
        succ.append(e)
        i += 1
    pred = [[] for _ in nodes]
    for u, e in enumerate(succ):
        for v, _ in e:
            pred[v].append(u)
    acc = {i for i, (s, b) in enumerate(nodes) if b == full and s in a.acc}
    co = set(acc)
    st = list(acc)
    while st:
        for p in pred[st.pop()]:
            if p not in co:
                co.add(p)
                st.append(p)
    if 0 not in co:
        return None
    succ = [[(v, w) for v, w in e if v in co] if u in co else [] for u, e in enumerate(succ)]
    comp, nc = scc(succ)
    members = [[] for _ in range(nc)]
    for u in co:
        members[comp[u]].append(u)
    out = []
    for sign in (1, -1):
        best = {}
        for c in range(nc):
            if not members[c]:
                continue
            mem = members[c]
            inner = [(u, v, sign * w) for u in mem for v, w in succ[u] if comp[v] == c]
            if any(w < 0 for _, _, w in inner):
                best = None
                break
            for u in mem:
                x = 0 if u in acc else None
                for v, w in succ[u]:
                    if comp[v] != c:
                        y = best[v] + sign * w
                        x = y if x is None or y < x else x
                best[u] = x
            # weights inside a component are not negative: settle by relaxation
            if inner:
                inv = {}
                for u, v, w in inner:
                    inv.setdefault(v, []).append((u, w))
                import heapq
                h = [(best[u], u) for u in mem if best[u] is not None]
                heapq.heapify(h)
                while h:
                    d, v = heapq.heappop(h)
                    if best[v] < d:
                        continue
                    for u, w in inv.get(v, ()):
                        if best[u] is None or d + w < best[u]:
                            best[u] = d + w
                            heapq.heappush(h, (d + w, u))
        out.append(None if best is None else sign * best[0])
    return tuple(out)


def finite_words(a, limit=200):
    """the set of accepted byte strings when it has at most `limit` elements, else None"""
    key = ("fw", limit)
    if key in a._cache:
        return a._cache[key]
    if not a.acc:
        return set()
    lo, hi = lengths(a)
    r = None
    if hi is not None and hi <= 64:
        d = determinize(a, complete=False)
        out = set()
        ok = True
        st = [(0, b"")]
        while st:
            s, w = st.pop()
            if d[1][s]:
                out.add(w)
                if len(out) > limit:
                    ok = False
                    break
            for m, t in d[0][s]:
                k = bin(m).count("1")
                if k * 1 > limit:
                    ok = False
                    break
                x = m
                while x:
                    bit = x & -x
                    st.append((t, w + bytes([bit.bit_length() - 1])))
                    x ^= bit
            if not ok or len(st) > limit * 70:
                ok = False
                break
        r = out if ok else None
    a._cache[key] = r
    return r


def eclose(a, states):
    seen = set(states)
    st = list(states)
    while st:
        s = st.pop()
        for t in a.ep[s]:
            if t not in seen:
                seen.add(t)
                st.append(t)
        for _, t in a.mk[s]:
            if t not in seen:
                seen.add(t)
                st.append(t)
    return frozenset(seen)


def determinize(a, complete=True, limit=20000):
    """subset construction ignoring markers; -> Dfa (complete) or (trans, acc) lists trimmed of dead states"""
    key = ("det", complete)
    if key in a._cache:
        return a._cache[key]
    start = eclose(a, [a.start])
    idx = {start: 0}
    order = [start]
    trans = []
    i = 0
    while i < len(order):
        S = order[i]
        edges = [(m, t) for s in S for m, t in a.ch[s]]
        masks = {m for m, _ in edges}
        d = {}
        for part in minterms(masks):
            bit = low_byte(part)
            T = [t for m, t in edges if (m >> bit) & 1]
            if not T and not complete:
                continue
            T = eclose(a, T) if T else frozenset()
            if T not in idx:
                if len(order) >= limit:
                    raise rx.Unsupported("determinisation too large")
                idx[T] = len(order)
                order.append(T)
            d[idx[T]] = d.get(idx[T], 0) | part
        trans.append([(m, t) for t, m in d.items()])
        i += 1
    acc = [bool(S & a.acc) for S in order]
    r = Dfa(trans, acc) if complete else (trans, acc)
    a._cache[key] = r
    return r


def dfa_of(a):
    if "dfa" not in a._cache:
        a._cache["dfa"] = determinize(a).minimize()
    return a._cache["dfa"]


def sample(a):
    """a shortest accepted string (bytes) or None"""
    if not a.acc:
        return None
    dist = {a.start: b""}
    dq = deque([a.start])
    seen = {a.start}
    # 0-1 BFS
    best = None
    import heapq
    h = [(0, 0, a.start, b"")]
    done = set()
    n = 1
    while h:
        l, _, s, w = heapq.heappop(h)
        if s in done:
            continue
        done.add(s)
        if s in a.acc:
            return w
        for t in list(a.ep[s]) + [t for _, t in a.mk[s]]:
            if t not in done:
                n += 1
                heapq.heappush(h, (l, n, t, w))
        for m, t in a.ch[s]:
            if t not in done:
                n += 1
                pref = m & (rx.LOWER | rx.DIGIT) or m & 0x7fffffff_ffffffff_ffffffff_00000000 or m
                heapq.heappush(h, (l + 1, n, t, w + bytes([low_byte(pref)])))
    return None


def random_word(a, rnd, limit=400):
    """an accepted string drawn by a random walk: (bytes, {marker: last position}) or None"""
    if not a.acc:
        return None
    acc = set(a.acc)
    s, out, pos = a.start, bytearray(), {}
    for _ in range(limit * 4):
        opts = [(0, None, t) for t in a.ep[s]] + [(1, m, t) for m, t in a.mk[s]] + [(2, m, t) for m, t in a.ch[s]]
        if s in acc and (not opts or rnd.random() < 0.5 or len(out) > limit):
            return bytes(out), pos
        if not opts:
            return None
        k, m, t = opts[rnd.randrange(len(opts))] if len(opts) > 1 else opts[0]
        if k == 1:
            pos[m] = len(out)
        elif k == 2:
            pref = m & (rx.LOWER | rx.DIGIT) or m & 0x7fffffff_ffffffff_ffffffff_00000000 or m
            cs = _bytes_of(pref)
            out.append(cs[rnd.randrange(len(cs))])
        s = t
    return None


_bo = {}


def _bytes_of(m):
    if m not in _bo:
        _bo[m] = [i for i in range(256) if m >> i & 1]
    return _bo[m]


def included(a, d):
    """L(a) subset of L(d)?  (d complete DFA)  -> (True, None) or (False, witness)"""
    r = intersect_dfa(a, d.complement())
    if not r.acc:
        return True, None
    return False, sample(r)


def meets(a, d):
    return bool(intersect_dfa(a, d).acc)


# helpers producing DFAs for common predicates (cached)
_pd = {}


def d_word(w):
    return d_words((w,))


def d_words(ws):
    k = ("w", tuple(sorted(ws)))
    if k not in _pd:
        _pd[k] = determinize(words(k[1])).minimize()
    return _pd[k]


def d_contains(w):
    k = ("in", w)
    if k not in _pd:
        _pd[k] = determinize(concat([anything(), const(w), anything()])).minimize()
    return _pd[k]


def d_prefix(w):
    k = ("pre", w)
    if k not in _pd:
        _pd[k] = determinize(concat([const(w), anything()])).minimize()
    return _pd[k]


def d_suffix(w):
    k = ("suf", w)
    if k not in _pd:
        _pd[k] = determinize(concat([anything(), const(w)])).minimize()
    return _pd[k]


def d_regex(p, icase=False):
    """language of an assertion-free regex, whole-string"""
    k = ("re", p, icase)
    if k not in _pd:
        ast, _ = rx.parse(p, icase)
        _pd[k] = determinize(from_regex(ast)).minimize()
    return _pd[k]


def tn_regex(p, icase=False):
    ast, _ = rx.parse(p, icase)
    return from_regex(ast)
