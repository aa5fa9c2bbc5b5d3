"""C33: the command line program, interpreted with every parser's scan and every refiner replaced by recorders."""
from sa.scn import *
from sa import tn, state, interp
from sa.prog import AnalysisError
from sa.val import *
from data import RESULT, tag_values
from refine import REF1, refiner

NOT_REGISTERED = {"ENRelativeDateFormatParser"}
ORDERS = [lambda k, n: (k * 7 + 3) % n, lambda k, n: n - 1 - k, lambda k, n: (k * 5 + 1) % n // 2]


def main_of(prog):
    fs = [f for f in prog.functions.values() if f["qn"] == "main" and len(f["params"]) == 2]
    if not fs:
        raise AnalysisError("anchor vanished: main of the command line program")
    return fs[0]


def c33(shared, argc):
    prog = shared.prog
    parsers = sorted(prog.derived("parser::Parser"))
    olr, mdt, mdr = (refiner(prog, "OverlapRemover", "OverlapRemovalRefiner"), refiner(prog, "ENMergeDateAndTime", "ENMergeDateAndTimeRefiner"),
                     refiner(prog, "ENMergeDateRange", "ENMergeDateRangeRefiner"))
    tza = refiner(prog, "ExtractTimeZoneAbbreviation", "ExtractTimeZoneAbbreviationRefiner")
    main = main_of(prog)
    task = Task("program with %s" % ("a reference" if argc == 3 else "no reference" if argc == 2 else "%d arguments" % argc), 400, 60)

    def body(st):
        def ck(c, rule, msg):
            task.obligations += 1
            if not c:
                raise Fail(rule, msg, loc=st.loc, shown=True)
        st.opts["throws"] = set()
        it = interp.Interp(shared, st)
        order = ORDERS[st.choose(len(ORDERS), "positions")]
        per = st.choose(3, "results per parser")        # 0, 1, 2
        drop = st.choose(2, "refiners drop the first result") if per else 0
        text, ref = OpStr("input", 0), OpStr("reference", 0)
        runs, refs, out, ids, chain = [], [], [], {}, [None]
        sorted_at = []

        def ident(o):
            return o.f["text"].v.k[1] if "text" in o.f and isinstance(o.f["text"].v, OpStr) else None

        def new(k, j, idx):
            o = it.default(RESULT)
            c = Cell(o)
            it.call_named(c, RESULT, "setIndex", [idx])
            it.call_named(c, RESULT, "setText", [OpStr("lentext", 1 + k * 10 + j)])
            return o

        def execute(it2, f, this, args):
            cls = this.v.cls
            ck(not refs, "parsers run before refiners", "%s runs after a refiner" % cls)
            k = len(runs)
            runs.append((cls, it2.load(args[0]), it2.load(args[1])))
            v = Vec("vector", RESULT)
            for j in range(per):
                o = new(k, j, order(k, 12) + 20 * j)
                ids[1 + k * 10 + j] = order(k, 12) + 20 * j
                v.e.append(Cell(o))
            return v

        def refine(it2, f, this, args):
            v = it2.load(args[0])
            if not isinstance(v, Vec):
                raise Undecided("refined list")
            t = it2.load(args[1])
            got = [ident(c.v) for c in v.e]
            if any(g is None for g in got):
                raise Undecided("results of unknown origin")
            ck(same(t, text), "refiners get the complete text", "%s gets another text" % this.v.cls)
            if not refs:
                ck(sorted(got) == sorted(ids), "all results are combined", "%d of %d results reach the refiners" % (len(got), len(ids)))
                pos = [ids[g] for g in got]
                ck(pos == sorted(pos), "results are ordered by position", "the first refiner gets positions %s" % pos)
            else:
                ck(got == chain[0], "each refiner continues with the previous one's results", "%s gets %s instead of %s" % (this.v.cls, got, chain[0]))
            refs.append(this.v.cls)
            keep = v.e[1:] if drop and len(v.e) > 1 else v.e
            chain[0] = [ident(c.v) for c in keep]
            return Vec("vector", RESULT, [Cell(it2.copy(c.v)) for c in keep])

        def to_date(it2, f, this, args):
            return OpStr("date", ident(this.v))
        for c in parsers + ["parser::Parser"]:
            it.hooks[c + "::execute"] = execute
        for c in prog.derived(REF1) + [REF1]:
            it.hooks[c + "::refine"] = refine
        it.hooks[RESULT + "::toDate"] = to_date
        st.opts["onout"] = lambda it2, s, v: out.append((s.name, v))
        args = Vec("array", "char *", [Cell(b"time"), Cell(text), Cell(ref)][:argc] if argc <= 3 else [Cell(b"time"), Cell(text), Cell(ref), Cell(b"x")])
        try:
            it.call(main, None, [argc, args])
        except Throw as x:
            if argc == 3 and not runs:
                return              # a reference that is no date
            raise Fail("the program does not throw", "it throws %s" % x, shown=True)
        clock = [e for e in st.events if e[0] == "clock"]
        shown = [v for n, v in out if n == "cout"]
        flat = [p for v in shown if isinstance(v, (bytes, OpStr, Cat)) for p in (v.parts if isinstance(v, Cat) else [v])]
        dates = [p.k[1] for p in flat if isinstance(p, OpStr) and p.k[0] == "date"]
        if argc not in (2, 3):
            ck(not runs and not dates and shown, "a wrong number of arguments shows the usage", "parsers run or nothing is shown")
            return
        names = [c for c, _, _ in runs]
        for c in parsers:
            if c.split("::")[-1] not in NOT_REGISTERED:
                ck(names.count(c) == 1, "every parser runs once", "%s runs %d times" % (c, names.count(c)))
        for c, t, r in runs:
            ck(names.count(c) == 1, "every parser runs once", "%s runs %d times" % (c, names.count(c)))
            ck(same(t, text), "every parser gets the same text", "%s gets another text" % c)
            if argc == 2:
                ck(isinstance(r, PT) and r.d.base == ("clock",) and not r.d.ops, "without a reference the clock is the reference", "%s gets %s" % (c, show(r)))
            else:
                ck(isinstance(r, PT) and r == PT(D(("parsed", ref)), 0, atom("parsedtod", ref)), "every parser gets the given reference", "%s gets %s" % (c, show(r)))
            ck(r == runs[0][2], "every parser gets the same reference", "%s gets another reference" % c)
        if argc == 3:
            ck(not clock, "the clock is read only without a reference", "%s is called" % (clock[0][2] if clock and len(clock[0]) > 2 else "the clock"))
        if refs or per:
            for c in (olr, tza, mdt, mdr):
                ck(refs.count(c) == 1, "every refiner runs once", "%s runs %d times" % (c, refs.count(c)))
            ck(refs.index(olr) < min(refs.index(mdt), refs.index(mdr)), "overlaps are removed before any merging", "order %s" % refs)
            ck(refs.index(mdt) < refs.index(mdr), "dates and times are merged before ranges are joined", "order %s" % refs)
        if per:
            ck(dates == chain[0][:1], "the first remaining result is shown", "shown: %s, remaining: %s" % (dates, chain[0][:3]))
        else:
            ck(not dates and shown, "an input without dates is reported as such", "a date is shown" if dates else "nothing is shown")
    return explore_task(task, body)
