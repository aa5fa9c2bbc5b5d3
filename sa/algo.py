"""Standard algorithms and small library types on abstract values (sequences of known length)."""
from fractions import Fraction
from .val import *
from .state import *
from . import cal
from .interp import last_name, base_type, targs, schar

FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "less": "<", "greater": ">",
            "less_equal": "<=", "greater_equal": ">=", "equal_to": "==", "not_equal_to": "!=", "negate": "neg",
            "logical_not": "!", "logical_and": "&&", "logical_or": "||"}

NAMES = {"count", "count_if", "find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "accumulate", "reduce", "reverse",
         "remove", "remove_if", "unique", "replace", "replace_if", "fill", "fill_n", "iota", "equal", "transform", "copy", "copy_if",
         "copy_n", "max_element", "min_element", "minmax_element", "adjacent_find", "lower_bound", "upper_bound", "binary_search",
         "equal_range", "rotate", "partition", "stable_partition", "search", "mismatch", "lexicographical_compare", "is_sorted",
         "iter_swap", "swap_ranges", "generate", "inner_product", "reverse_copy", "remove_copy_if", "for_each", "is_partitioned",
         "distance", "next", "prev", "advance", "back_inserter", "front_inserter", "inserter", "clamp", "exchange", "tie", "make_tuple",
         "forward_as_tuple", "get", "minmax", "pow", "div", "ldiv", "strlen", "strcmp", "strncmp", "getline", "invoke", "apply",
         "find_first_of", "partial_sum", "adjacent_difference", "for_each_n", "next_permutation", "nth_element", "partial_sort",
         "max_element", "sqrt", "fmod", "signbit", "copysign", "isxdigit", "data", "rbegin", "rend", "crbegin", "crend", "ssize",
         "mem_fn", "bind", "not_fn", "holds_alternative", "get_if", "visit", "make_optional", "stable_sort_dummy", "erase", "erase_if",
         "from_chars", "strtol", "strtoul", "strtod", "addressof", "div_dummy", "includes", "merge", "set_difference",
         "set_intersection", "set_union", "find_end", "equal_to", "make_move_iterator"}


class Algo:
    def __init__(self, lib):
        self.lib = lib
        self.it = lib.it
        self.st = lib.st

    # ------------------------------------------------------------------ sequences
    def val(self, x):
        return self.it.load(x) if isinstance(x, Cell) else x

    def text_of(self, c):
        t = self.lib.text(c)
        if not isinstance(t, bytes):
            t = self.lib.concrete(t)
            c.v = t
        return t

    def idx(self, it):
        k = it.k
        if isinstance(k, Lin):
            k = cal.concrete(self.st, k)
        if not isinstance(k, int):
            raise Undecided("iterator at a variable position")
        return k

    def cells(self, a, b):
        """cells of the range; a commit function for texts"""
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            raise Undecided("pointer range")
        if not isinstance(a, It) or not isinstance(b, It) or a.c is not b.c:
            raise Undecided("iterator range")
        if isinstance(a.c, (Vec, Map)):
            return self.lib.range_cells(a, b), None
        if isinstance(a.c, Cell):
            t = self.text_of(a.c)
            i, j = self.idx(a), self.idx(b) if not isinstance(b.k, Lin) else len(t) if b.k == self.lib.length(t) else self.idx(b)
            if a.rev:
                cs = [Cell(schar(x)) for x in t[::-1][i:j]]
            else:
                cs = [Cell(schar(x)) for x in t[i:j]]

            def commit():
                n = bytes(self.byte(c.v) for c in cs)
                if a.rev:
                    r = t[::-1]
                    n = (r[:i] + n + r[j:])[::-1]
                else:
                    n = t[:i] + n + t[j:]
                if n != t:
                    self.it.store(a.c, n)
            return cs, commit
        raise Undecided("iterator range")

    def byte(self, v):
        v = self.it.num(v)
        if not isinstance(v, int):
            raise Undecided("character value")
        return v & 255

    def settle(self, *its):
        """texts that iterators point into are reduced to one word first, so that positions are known"""
        for x in its:
            if isinstance(x, It) and isinstance(x.c, Cell) and self.lib.is_text(x.c.v):
                old = self.lib.text(x.c)
                if not isinstance(old, bytes):
                    n = self.lib.length(old)
                    t = self.text_of(x.c)
                    for y in its:
                        if isinstance(y, It) and y.c is x.c and y.k == n:
                            y.k = len(t)

    def step(self, i, n):
        return self.lib.it_step(i, n)

    def put(self, c, v):
        self.it.store(c, v)

    def emit(self, o, vs):
        """write values through an output iterator; the iterator afterwards"""
        it = self.it
        if not isinstance(o, It):
            raise Undecided("output iterator")
        if o.k == "back" or o.k == "front" or isinstance(o.k, tuple) and o.k and o.k[0] == "ins":
            for v in vs:
                tgt = self.val(o.c)
                if self.lib.is_text(tgt):
                    it.store(o.c, self.lib.cat(tgt, bytes([self.byte(v)])))
                elif isinstance(tgt, Map):
                    self.lib.method(o.c, tgt, "insert", [v], None)
                elif o.k == "back" or o.k == "front":
                    self.lib.method(o.c, tgt, "push_" + o.k, [v], None)
                else:
                    p = o.k[1]
                    self.lib.method(o.c, tgt, "insert", [It(tgt, p), v], None)
                    o = It(o.c, ("ins", p + 1))
            return o
        end = self.step(o, len(vs))
        if isinstance(o.c, Vec):
            k = self.idx(o)
            if not o.rev and k + len(vs) > len(o.c.e):
                self.st.event("oob", "algorithm writes past the end")
                raise Undecided("algorithm writes past the end")
        elif isinstance(o.c, Cell):
            self.settle(o)
            if self.idx(o) + len(vs) > len(self.text_of(o.c)):
                self.st.event("oob", "algorithm writes past the end")
                raise Undecided("algorithm writes past the end")
        cs, commit = self.cells(o, end)
        for c, v in zip(cs, vs):
            c.v = it.copy(v)
        self.lib.it.touch(o.c) if isinstance(o.c, Vec) else None
        if commit:
            commit()
        return end

    def call(self, f, *a):
        return self.val(self.it.apply(f, [x if isinstance(x, Cell) else Cell(x) for x in a]))

    def test(self, f, *a):
        return self.it.truth(self.call(f, *a))

    # ------------------------------------------------------------------ comparison of values
    def user_op(self, op, x, y):
        """the program's own operator for two objects, applied; None when there is none"""
        for a in (x, y):
            if isinstance(a, Obj) and a.cls in self.it.prog.records:
                for f in self.it.prog.method(a.cls, "operator" + op):
                    if len(f["params"]) == 1 and a is x:
                        return self.it.truth(self.val(self.it.call(f, Cell(x), [Cell(y)])))
                for f in self.it.prog.by_qn.get(a.cls.rpartition("::")[0] + ("::" if "::" in a.cls else "") + "operator" + op, []) + \
                        self.it.prog.by_qn.get("operator" + op, []):
                    if len(f["params"]) == 2 and base_type(f["params"][0]["t"]) == x.cls:
                        return self.it.truth(self.val(self.it.call(f, None, [Cell(x), Cell(y)])))
        return None

    def compare(self, op, a, b):
        """comparison of objects and containers; None: not one of these"""
        if isinstance(a, Obj) and isinstance(b, Obj):
            r = self.user_op(op, a, b)
            if r is not None:
                return r
            if a.cls == b.cls and a.cls in ("pair", "tuple", "ymd"):
                return self.lexi(op, [c.v for c in a.f.values()], [c.v for c in b.f.values()])
            if a.cls == "optional" and b.cls == "optional":
                return self.opt(op, a, b)
        if isinstance(a, Obj) and a.cls == "optional" or isinstance(b, Obj) and b.cls == "optional":
            w = lambda v: v if isinstance(v, Obj) and v.cls == "optional" else Obj("optional", {"has": Cell(True), "val": Cell(v)})
            if isinstance(a, Obj) and a.cls == "nullopt" or isinstance(b, Obj) and b.cls == "nullopt":
                e = Obj("optional", {"has": Cell(False), "val": Cell(UNINIT)})
                return self.opt(op, e if a.cls == "nullopt" else a, e if b.cls == "nullopt" else b)
            return self.opt(op, w(a), w(b))
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.lexi(op, [self.val(c) for c in a.e], [self.val(c) for c in b.e])
        if isinstance(a, Map) and isinstance(b, Map) and op in ("==", "!=") and not a.lazy and not b.lazy:
            r = set(a.e) == set(b.e) and (a.kind in ("set", "unordered_set") or
                                          all(self.eq(self.val(a.e[k]), self.val(b.e[k])) for k in a.e))
            return r if op == "==" else not r
        return None

    def opt(self, op, a, b):
        ha, hb = self.val(a.f["has"]), self.val(b.f["has"])
        if op in ("==", "!="):
            r = ha == hb and (not ha or self.eq(self.val(a.f["val"]), self.val(b.f["val"])))
            return r if op == "==" else not r
        if ha and hb:
            return self.it.compare(op, self.val(a.f["val"]), self.val(b.f["val"]))
        return {"<": ha < hb, ">": ha > hb, "<=": ha <= hb, ">=": ha >= hb}[op]

    def eq(self, a, b):
        return self.it.truth(self.it.compare("==", a, b))

    def lexi(self, op, xs, ys):
        if op in ("==", "!="):
            r = len(xs) == len(ys) and all(self.eq(x, y) for x, y in zip(xs, ys))
            return r if op == "==" else not r
        if op == ">":
            return self.lexi("<", ys, xs)
        if op == "<=":
            return not self.lexi("<", ys, xs)
        if op == ">=":
            return not self.lexi("<", xs, ys)
        for x, y in zip(xs, ys):
            if self.it.truth(self.it.compare("<", x, y)):
                return True
            if self.it.truth(self.it.compare("<", y, x)):
                return False
        return len(xs) < len(ys)

    def less(self, args, k):
        f = args[k] if len(args) > k else None
        if f is not None:
            return lambda x, y: self.test(f, x, y)
        return lambda x, y: self.it.truth(self.it.compare("<", self.val(x), self.val(y)))

    def same(self, args, k):
        f = args[k] if len(args) > k else None
        if f is not None:
            return lambda x, y: self.test(f, x, y)
        return lambda x, y: self.eq(self.val(x), self.val(y))

    # ------------------------------------------------------------------ function objects
    def functor(self, cls, args):
        n = strip(cls)
        op = FUNCTORS.get(n)
        vs = [self.val(a) for a in args]
        it = self.it
        if op is None:
            return NotImplemented
        if op == "neg":
            return neg(it.num(vs[0]))
        if op == "!":
            return not it.truth(vs[0])
        if op == "&&":
            return it.truth(vs[0]) and it.truth(vs[1])
        if op == "||":
            return it.truth(vs[0]) or it.truth(vs[1])
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return it.truth(it.compare(op, vs[0], vs[1]))
        if is_num(vs[0]) and is_num(vs[1]):
            ts = targs(cls)
            t = base_type(ts[0]) if ts and ts[0] != "void" else "int"
            return it.binop(op, vs[0], vs[1], t, t)
        return self.val(self.lib.operator(op, [Cell(vs[0]), Cell(vs[1])], None))

    # ------------------------------------------------------------------ free functions
    def run(self, name, args, A, e):
        it, st, lib = self.it, self.st, self.lib
        f = getattr(self, "a_" + name, None)
        if f is not None:
            return f(args, A, e)
        if name in ("next", "prev"):
            n = A[1] if len(A) > 1 else 1
            return self.step(A[0], n if name == "next" else neg(n))
        if A and isinstance(A[0], It) and len(A) > 1 and isinstance(A[1], It):
            self.settle(*A)
            cs, commit = self.cells(A[0], A[1])
            r = self.on_range(name, args, A, cs, e)
            if r is not NotImplemented:
                v, changed = r
                if changed:
                    if isinstance(A[0].c, Vec):
                        it.touch(A[0].c)
                    if commit:
                        commit()
                return v
        raise Undecided("std::" + name)

    def on_range(self, name, args, A, cs, e):
        it = self.it
        a, b = A[0], A[1]
        at = lambda i: self.step(a, i) if i < len(cs) else b
        if name in ("find_if", "find_if_not", "any_of", "all_of", "none_of"):
            want = name not in ("find_if_not", "all_of")
            for i, c in enumerate(cs):
                if self.test(args[2], c) == want:
                    return {"any_of": True, "all_of": False, "none_of": False}.get(name, at(i)), False
            return {"any_of": False, "all_of": True, "none_of": True}.get(name, b), False
        if name == "find":
            for i, c in enumerate(cs):
                if self.eq(self.val(c), A[2]):
                    return at(i), False
            return b, False
        if name == "count_if":
            return sum(1 for c in cs if self.test(args[2], c)), False
        if name == "count":
            return sum(1 for c in cs if self.eq(self.val(c), A[2])), False
        if name == "for_each":
            for c in cs:
                it.apply(args[2], [c])
            return A[2], True
        if name in ("accumulate", "reduce"):
            acc = A[2] if len(A) > 2 else 0
            for c in cs:
                if len(args) > 3:
                    acc = self.call(args[3], Cell(acc), c)
                elif is_num(acc):
                    acc = it.binop("+", acc, self.val(c), "", base_type((e or {}).get("t", "")))
                else:
                    acc = self.val(self.lib.operator("+", [Cell(acc), c], None))
            return acc, False
        if name == "inner_product":
            acc = A[3]
            d, _ = self.cells(A[2], self.step(A[2], len(cs)))
            for c, x in zip(cs, d):
                p = it.binop("*", self.val(c), self.val(x), "", "") if len(args) < 6 else self.call(args[5], c, x)
                acc = it.binop("+", acc, p, "", "") if len(args) < 5 else self.call(args[4], Cell(acc), Cell(p))
            return acc, False
        if name == "reverse":
            vs = [c.v for c in cs][::-1]
            return self.fillc(cs, vs), True
        if name in ("remove", "remove_if"):
            keep = []
            for c in cs:
                d = self.test(args[2], c) if name == "remove_if" else self.eq(self.val(c), A[2])
                if not d:
                    keep.append(c.v)
            self.fillc(cs, keep)
            return at(len(keep)), True
        if name == "unique":
            same = self.same(args, 2)
            keep = []
            for c in cs:
                if not keep or not same(Cell(keep[-1]), c):
                    keep.append(c.v)
            self.fillc(cs, keep)
            return at(len(keep)), True
        if name in ("replace", "replace_if"):
            for c in cs:
                if self.test(args[2], c) if name == "replace_if" else self.eq(self.val(c), A[2]):
                    c.v = it.copy(A[3])
            return None, True
        if name == "fill":
            for c in cs:
                c.v = it.copy(A[2])
            return None, True
        if name == "generate":
            for c in cs:
                c.v = self.call(args[2])
            return None, True
        if name == "iota":
            v = A[2]
            for c in cs:
                c.v = v
                v = add(v, 1)
            return None, True
        if name in ("equal", "mismatch"):
            two = len(A) > 3 and isinstance(A[3], It)
            same = self.same(args, 4 if two else 3)
            end = A[3] if two else None
            if end is None:
                if isinstance(A[2].c, Vec) and self.idx(A[2]) + len(cs) > len(A[2].c.e) and name == "equal":
                    n = len(A[2].c.e) - self.idx(A[2])
                    ds, _ = self.cells(A[2], self.step(A[2], n))
                    for c, d in zip(cs, ds):
                        if not same(c, d):
                            return False, False
                    self.st.event("oob", "std::equal past the end")
                    raise Undecided("std::equal past the end")
                end = self.step(A[2], len(cs))
            ds, _ = self.cells(A[2], end)
            if name == "equal":
                return len(cs) == len(ds) and all(same(c, d) for c, d in zip(cs, ds)), False
            i = 0
            while i < len(cs) and i < len(ds) and same(cs[i], ds[i]):
                i += 1
            return Obj("pair", {"first": Cell(self.step(a, i)), "second": Cell(self.step(A[2], i))}), False
        if name == "lexicographical_compare":
            ds, _ = self.cells(A[2], A[3])
            less = self.less(args, 4)
            for c, d in zip(cs, ds):
                if less(c, d):
                    return True, False
                if less(d, c):
                    return False, False
            return len(cs) < len(ds), False
        if name == "transform":
            if len(args) == 4:
                vs = [self.call(args[3], c) for c in cs]
                return self.emit(A[2], vs), False
            ds, _ = self.cells(A[2], self.step(A[2], len(cs)))
            vs = [self.call(args[4], c, d) for c, d in zip(cs, ds)]
            return self.emit(A[3], vs), False
        if name in ("copy", "copy_if", "reverse_copy", "remove_copy_if", "move"):
            vs = [self.val(c) for c in cs if name in ("copy", "reverse_copy", "move") or
                  self.test(args[3], c) == (name == "copy_if")]
            return self.emit(A[2], vs[::-1] if name == "reverse_copy" else vs), False
        if name in ("max_element", "min_element"):
            less = self.less(args, 2)
            if not cs:
                return b, False
            k = 0
            for i in range(1, len(cs)):
                if less(cs[k], cs[i]) if name == "max_element" else less(cs[i], cs[k]):
                    k = i
            return at(k), False
        if name == "minmax_element":
            less = self.less(args, 2)
            if not cs:
                return Obj("pair", {"first": Cell(b), "second": Cell(b)}), False
            lo = hi = 0
            for i in range(1, len(cs)):
                if less(cs[i], cs[lo]):
                    lo = i
                if not less(cs[i], cs[hi]):
                    hi = i
            return Obj("pair", {"first": Cell(at(lo)), "second": Cell(at(hi))}), False
        if name == "adjacent_find":
            same = self.same(args, 2)
            for i in range(len(cs) - 1):
                if same(cs[i], cs[i + 1]):
                    return at(i), False
            return b, False
        if name in ("lower_bound", "upper_bound", "binary_search", "equal_range"):
            less = self.less(args, 3)
            x = Cell(A[2])

            def bound(upper):
                lo, hi = 0, len(cs)
                while lo < hi:
                    m = (lo + hi) // 2
                    if (not less(x, cs[m])) if upper else less(cs[m], x):
                        lo = m + 1
                    else:
                        hi = m
                return lo
            if name == "binary_search":
                i = bound(False)
                return i < len(cs) and not less(x, cs[i]), False
            if name == "equal_range":
                return Obj("pair", {"first": Cell(at(bound(False))), "second": Cell(at(bound(True)))}), False
            return at(bound(name == "upper_bound")), False
        if name in ("partition", "stable_partition"):
            yes, no = [], []
            for c in cs:
                (yes if self.test(args[2], c) else no).append(c.v)
            if name == "partition" and yes and no:
                raise Undecided("std::partition")
            self.fillc(cs, yes + no)
            return at(len(yes)), True
        if name == "is_partitioned":
            seen = False
            for c in cs:
                r = self.test(args[2], c)
                if r and seen:
                    return False, False
                seen = seen or not r
            return True, False
        if name == "is_sorted":
            less = self.less(args, 2)
            return not any(less(cs[i + 1], cs[i]) for i in range(len(cs) - 1)), False
        if name == "search" or name == "find_end":
            ds, _ = self.cells(A[2], A[3])
            same = self.same(args, 4)
            rng = range(len(cs) - len(ds) + 1)
            for i in (rng if name == "search" else reversed(rng)):
                if all(same(cs[i + j], d) for j, d in enumerate(ds)):
                    return at(i), False
            return b, False
        if name == "find_first_of":
            ds, _ = self.cells(A[2], A[3])
            same = self.same(args, 4)
            for i, c in enumerate(cs):
                if any(same(c, d) for d in ds):
                    return at(i), False
            return b, False
        if name == "rotate":
            cs, commit = self.cells(A[0], A[2])
            k = self.idx(A[1]) - self.idx(A[0])
            vs = [c.v for c in cs]
            self.fillc(cs, vs[k:] + vs[:k])
            if commit:
                commit()
            return self.step(A[0], len(cs) - k), False
        if name == "swap_ranges":
            end = self.step(A[2], len(cs))
            ds, cm = self.cells(A[2], end)
            for c, d in zip(cs, ds):
                c.v, d.v = d.v, c.v
            if cm:
                cm()
            return end, True
        if name in ("partial_sum", "adjacent_difference"):
            out, acc = [], None
            for i, c in enumerate(cs):
                v = self.val(c)
                if i == 0:
                    out.append(v)
                elif name == "partial_sum":
                    out.append(self.call(args[3], Cell(out[-1]), c) if len(args) > 3 else it.binop("+", out[-1], v, "", ""))
                else:
                    out.append(self.call(args[3], c, cs[i - 1]) if len(args) > 3 else it.binop("-", v, self.val(cs[i - 1]), "", ""))
            return self.emit(A[2], out), False
        if name in ("set_difference", "set_intersection", "set_union", "merge", "includes"):
            ds, _ = self.cells(A[2], A[3])
            less = self.less(args, 5 if name != "includes" else 4)
            out, i, j, inc = [], 0, 0, True
            while i < len(cs) or j < len(ds):
                if j == len(ds) or i < len(cs) and less(cs[i], ds[j]):
                    if name in ("set_difference", "set_union", "merge"):
                        out.append(cs[i].v)
                    i += 1
                elif i == len(cs) or less(ds[j], cs[i]):
                    if name in ("set_union", "merge"):
                        out.append(ds[j].v)
                    inc = False
                    j += 1
                else:
                    if name in ("set_intersection", "set_union", "merge"):
                        out.append(cs[i].v)
                    i += 1
                    if name != "merge":
                        j += 1
            if name == "includes":
                return inc, False
            return self.emit(A[4], out), False
        return NotImplemented

    def fillc(self, cs, vs):
        for c, v in zip(cs, vs):
            c.v = v

    def a_distance(self, args, A, e):
        return self.lib.it_distance(A[0], A[1])

    def a_advance(self, args, A, e):
        self.it.store(args[0], self.step(A[0], A[1]))

    def a_make_move_iterator(self, args, A, e):
        return A[0]

    def a_back_inserter(self, args, A, e):
        return It(args[0], "back")

    def a_front_inserter(self, args, A, e):
        return It(args[0], "front")

    def a_inserter(self, args, A, e):
        if isinstance(A[0], Map):
            return It(args[0], "back")
        return It(args[0], ("ins", self.idx(A[1])))

    def a_copy(self, args, A, e):
        o = A[2]
        if isinstance(o, It) and o.k == "back" and isinstance(A[0], It) and isinstance(A[0].c, Cell) and \
                self.lib.is_text(self.val(o.c)) and not A[0].rev:
            self.it.store(o.c, self.lib.cat(self.lib.text(o.c), self.lib.substr(A[0].c, A[0].k, sub(A[1].k, A[0].k))))
            return o
        if isinstance(A[0], Ptr) or isinstance(A[0], Vec):
            raise Undecided("std::copy from an array")
        self.settle(*A)
        cs, _ = self.cells(A[0], A[1])
        return self.emit(o, [self.val(c) for c in cs])

    def a_copy_n(self, args, A, e):
        cs, _ = self.cells(A[0], self.step(A[0], A[1]))
        return self.emit(A[2], [self.val(c) for c in cs])

    def a_fill_n(self, args, A, e):
        k = cal.concrete(self.st, A[1])
        if k is None or not 0 <= k < 10000:
            raise Undecided("std::fill_n")
        return self.emit(A[0], [A[2]] * k)

    def a_for_each_n(self, args, A, e):
        cs, _ = self.cells(A[0], self.step(A[0], A[1]))
        for c in cs:
            self.it.apply(args[2], [c])
        return self.step(A[0], A[1])

    def a_iter_swap(self, args, A, e):
        a, b = self.lib.it_deref(A[0]), self.lib.it_deref(A[1])
        x, y = self.it.load(a), self.it.load(b)
        self.it.store(a, y)
        self.it.store(b, x)

    def a_clamp(self, args, A, e):
        less = self.less(args, 3)
        if less(Cell(A[0]), Cell(A[1])):
            return A[1]
        return A[2] if less(Cell(A[2]), Cell(A[0])) else A[0]

    def a_minmax(self, args, A, e):
        if isinstance(A[0], Vec):
            xs = [self.val(c) for c in A[0].e]
            lo = hi = xs[0]
            for x in xs[1:]:
                if self.it.compare("<", x, lo):
                    lo = x
                if not self.it.compare("<", x, hi):
                    hi = x
        else:
            lo, hi = (A[1], A[0]) if self.less(args, 2)(Cell(A[1]), Cell(A[0])) else (A[0], A[1])
        return Obj("pair", {"first": Cell(lo), "second": Cell(hi)})

    def a_exchange(self, args, A, e):
        old = A[0]
        self.it.store(args[0], self.lib.assign_value(old, A[1]))
        return old

    def a_tie(self, args, A, e):
        return Obj("tuple", {str(i): (a if isinstance(a, Cell) else Cell(a)) for i, a in enumerate(args)})

    a_forward_as_tuple = a_tie

    def a_make_tuple(self, args, A, e):
        return Obj("tuple", {str(i): Cell(self.it.copy(self.lib.rvtext(a))) for i, a in enumerate(A)})

    def a_make_optional(self, args, A, e):
        return Obj("optional", {"has": Cell(True), "val": Cell(self.it.copy(A[0]))})

    def a_get(self, args, A, e):
        o = A[0]
        ts = targs(e.get("fnt") or "") or []
        key = e.get("key", "")
        k = None
        if key.endswith(">") and ")<" in key:
            first = key[key.rindex(")<") + 2:-1].split(";")[0]
            k = int(first.rstrip("UL")) if first.rstrip("UL").isdigit() else first
        if isinstance(o, Obj) and o.cls in ("pair", "tuple") and isinstance(k, int):
            return list(o.f.values())[k]
        if isinstance(o, Vec) and isinstance(k, int):
            return o.e[k]
        raise Undecided("std::get")

    def a_pow(self, args, A, e):
        a, b = self.it.num(A[0]), self.it.num(A[1])
        if isinstance(a, (int, Fraction)) and isinstance(b, int) and abs(b) < 64 and (a != 0 or b >= 0):
            return fr(Fraction(a) ** b)
        raise Undecided("std::pow")

    def a_fmod(self, args, A, e):
        a, b = self.it.num(A[0]), self.it.num(A[1])
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and b:
            m = abs(Fraction(a)) % abs(Fraction(b))
            return fr(m if a >= 0 else -m)
        raise Undecided("std::fmod")

    def a_div(self, args, A, e):
        return Obj("div_t", {"quot": Cell(self.it.div(self.it.num(A[0]), self.it.num(A[1]), "int")),
                             "rem": Cell(self.it.mod(self.it.num(A[0]), self.it.num(A[1])))})

    a_ldiv = a_div

    def a_strlen(self, args, A, e):
        return self.lib.length(self.lib.text(A[0]))

    def a_strcmp(self, args, A, e):
        from .interp import CmpR
        return CmpR(self.lib.text(A[0]), self.lib.text(A[1]))

    def a_strncmp(self, args, A, e):
        from .interp import CmpR
        n = self.it.num(A[2])
        cut = lambda s: s[:n] if isinstance(s, bytes) else self.lib.substr(s, 0, n)
        return CmpR(cut(self.lib.text(A[0])), cut(self.lib.text(A[1])))

    def a_invoke(self, args, A, e):
        return self.it.apply(args[0], list(args[1:]))

    def a_addressof(self, args, A, e):
        return Ptr(args[0] if isinstance(args[0], Cell) else Cell(args[0]))

    def a_isxdigit(self, args, A, e):
        f = lambda v: 0 <= v < 256 and chr(v) in "0123456789abcdefABCDEF"
        if isinstance(A[0], Chr):
            return self.lib.chr_pred(A[0], f, "isxdigit")
        v = self.it.num(A[0])
        if isinstance(v, int):
            return f(v)
        raise Undecided("isxdigit")

    def cont(self, name, args, A, e):
        return self.lib.method(args[0], A[0], {"ssize": "size"}.get(name, name), [], e)

    def a_rbegin(self, args, A, e):
        return self.cont("rbegin", args, A, e)

    def a_rend(self, args, A, e):
        return self.cont("rend", args, A, e)

    def a_crbegin(self, args, A, e):
        return self.cont("rbegin", args, A, e)

    def a_crend(self, args, A, e):
        return self.cont("rend", args, A, e)

    def a_ssize(self, args, A, e):
        return self.cont("size", args, A, e)

    def a_data(self, args, A, e):
        return self.cont("data", args, A, e)

    def a_getline(self, args, A, e):
        s = A[0]
        if not isinstance(s, Stream) or s.inp is None:
            raise Undecided("getline")
        d = bytes([self.it.num(A[2]) & 255]) if len(A) > 2 else b"\n"
        if not s.inp:
            self.it.store(args[1], b"")
            s.bad = True
            return args[0]
        h, sep, t = s.inp.partition(d)
        s.inp = t
        self.it.store(args[1], h)
        return args[0]

    def a_strtol(self, args, A, e):
        if isinstance(A[1], Ptr) and A[1].cell is not None or len(A) > 2 and A[2] != 10:
            raise Undecided("strtol")
        try:
            return self.lib.parse_int(A[0])
        except Throw as t:
            if t.ty == "std::invalid_argument":
                return 0
            raise Undecided("overflow in strtol")

    def a_partial_sort(self, args, A, e):
        a = [args[0], args[2]] + list(args[3:])
        return self.lib.sort(a, [A[0], A[2]] + A[3:])

    def a_holds_alternative(self, args, A, e):
        raise Undecided("std::variant")


def strip(cls):
    n = cls[5:] if cls.startswith("std::") else cls
    i = n.find("<")
    return n[:i] if i > 0 else n
