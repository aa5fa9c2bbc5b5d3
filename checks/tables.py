"""C12: the constant vocabulary tables, evaluated from their initialisers, against the standard meanings."""
from sa.scn import *
from sa import interp
from sa.prog import AnalysisError
from sa.val import *

UNITS = "one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen twenty".split()
ORD = ("first second third fourth fifth sixth seventh eighth ninth tenth eleventh twelfth thirteenth fourteenth fifteenth sixteenth seventeenth "
       "eighteenth nineteenth twentieth").split()
MONTHS = "january february march april may june july august september october november december".split()
DAYS = "sunday monday tuesday wednesday thursday friday saturday".split()


def integers():
    need = {w: i + 1 for i, w in enumerate(UNITS[:12])}
    know = {w: i + 1 for i, w in enumerate(UNITS)}
    know.update({"zero": 0, "a": 1, "an": 1})
    return need, lambda k: know.get(k)


def ordinals():
    need = {w: i + 1 for i, w in enumerate(ORD)}
    for i in range(9):
        need["twenty " + ORD[i]] = 21 + i
    need["thirtieth"] = 30
    need["thirty first"] = 31

    def know(k):
        k = k.replace("-", " ")
        if k in need:
            return need[k]
        d = k.rstrip("stndrh")
        return int(d) if d.isdigit() else None
    return need, know


def months():
    need = {}
    for i, m in enumerate(MONTHS):
        for w in {m, m[:3]}:
            need[w] = i + 1
        need[m[:3] + "."] = i + 1
    need["sept"] = need["sept."] = 9

    def know(k):
        w = k.rstrip(".")
        c = [i for i, m in enumerate(MONTHS) if len(w) >= 3 and m.startswith(w)]
        return c[0] + 1 if len(c) == 1 else None
    return need, know


def weekdays():
    need = {}
    for i, d in enumerate(DAYS):
        need[d] = need[d[:3]] = i
    for w, i in (("tues", 2), ("thur", 4), ("thurs", 4)):
        need[w] = i

    def know(k):
        w = k.rstrip(".")
        c = [i for i, d in enumerate(DAYS) if len(w) >= 3 and d.startswith(w)]
        return c[0] if len(c) == 1 else None
    return need, know


def hm(s):
    sg = -1 if s[0] == "-" else 1
    h, _, m = s.lstrip("+-").partition(":")
    return sg * (int(h) * 60 + int(m or 0))


# civil offsets (where a zone changed its offset within living memory, every offset it has had is admitted)
ZONES = """ACDT +10:30;ACST +9:30;ADT -3;AEDT +11;AEST +10;AFT +4:30;AKDT -8;AKST -9;ALMT +6,+5;AMST -3;AMT -4;ANAST +12;ANAT +12;AQTT +5;ART -3;
AST -4;AWDT +9;AWST +8;AZOST 0;AZOT -1;AZST +5;AZT +4;BNT +8;BOT -4;BRST -2;BRT -3;BST +1;BTT +6;CAST +8;CAT +2;CCT +6:30;CDT -5;CEST +2;CET +1;
CHADT +13:45;CHAST +12:45;CKT -10;CLST -3;CLT -4;COT -5;CST -6;CVT -1;CXT +7;CHST +10;DAVT +7;EASST -5;EAST -6;EAT +3;ECT -5;EDT -4;EEST +3;EET +2;
EGST 0;EGT -1;EST -5;ET -5;FJST +13;FJT +12;FKST -3;FKT -4;FNT -2;GALT -6;GAMT -9;GET +4;GFT -3;GILT +12;GMT 0;GST +4;GYT -4;HAA -3;HAC -5;HADT -9;
HAE -4;HAP -7;HAR -6;HAST -10;HAT -2:30;HAY -8;HKT +8;HLV -4:30,-4;HNA -4;HNC -6;HNE -5;HNP -8;HNR -7;HNT -3:30;HNY -9;HOVT +7;ICT +7;IDT +3;IOT +6;
IRDT +4:30;IRKST +9;IRKT +9,+8;IRST +3:30;IST +5:30;JST +9;KGT +6;KRAST +8;KRAT +8,+7;KST +9;KUYT +4;LHDT +11;LHST +10:30;LINT +14;MAGST +12;
MAGT +12,+11;MART -9:30;MAWT +5;MDT -6;MESZ +2;MEZ +1;MHT +12;MMT +6:30;MSD +4;MSK +4,+3;MST -7;MUT +4;MVT +5;MYT +8;NCT +11;NDT -2:30;NFT +11:30,+11;
NOVST +7;NOVT +6,+7;NPT +5:45;NST -3:30;NUT -11;NZDT +13;NZST +12;OMSST +7;OMST +7,+6;PDT -7;PET -5;PETST +12;PETT +12;PGT +10;PHOT +13;PHT +8;PKT +5;
PMDT -2;PMST -3;PONT +11;PST -8;PT -8;PWT +9;PYST -3;PYT -4;RET +4;SAMT +4;SAST +2;SBT +11;SCT +4;SGT +8;SRT -3;SST -11;TAHT -10;TFT +5;TJT +5;TKT +13;
TLT +9;TMT +5;TVT +12;ULAT +8;UTC 0;UYST -2;UYT -3;UZT +5;VET -4:30,-4;VLAST +11;VLAT +11,+10;VUT +11;WAST +2;WAT +1;WEST +1;WESZ +1;WET 0;WEZ 0;
WFT +12;WGST -2;WGT -3;WIB +7;WIT +9;WITA +8;WST +13;WT 0;YAKST +10;YAKT +10,+9;YAPT +10;YEKST +6;YEKT +6,+5"""


def zones():
    need = {}
    for z in ZONES.replace("\n", "").split(";"):
        n, _, o = z.partition(" ")
        need[n] = [hm(x) for x in o.split(",")]
    return need, lambda k: need.get(k)


KINDS = {"number words": (integers, ("one", "two", "seven", "twelve")), "ordinal words": (ordinals, ("first", "third", "twentieth")),
         "month names": (months, ("january", "mar", "december")), "weekday names": (weekdays, ("sunday", "wed", "friday")),
         "timezone abbreviations": (zones, ("GMT", "EST", "JST"))}


def tables(shared, it, probe):
    """every global table from words to numbers that holds one of the probes"""
    out = []
    for qn in sorted(shared.prog.globals):
        v = it.const_global(qn)
        if isinstance(v, Map) and v.kind in ("map", "unordered_map") and any(p.encode() in v.e or p.lower().encode() in v.e for p in probe):
            out.append((qn, v))
    return out


def c12(shared, kind):
    make, probe = KINDS[kind]
    task = Task("table of " + kind, 20, 60)

    def body(st):
        it = interp.Interp(shared, st)
        need, know = make()
        ts = tables(shared, it, probe)
        if not ts:
            raise AnalysisError("no table of " + kind)
        full = set()
        for qn, m in ts:
            for k, c in sorted(m.e.items()):
                v = it.load(c)
                w = k.decode("latin-1")
                want = know(w)
                if want is None and know(w.upper()) is not None:
                    want = know(w.upper())
                if want is None:
                    continue
                task.obligations += 1
                full.add(w)
                if isinstance(v, bool) or not isinstance(v, int):
                    raise Undecided("table value")
                if v not in (want if isinstance(want, list) else [want]):
                    raise Fail("every word stands for its standard value", "%s maps %r to %d instead of %s"
                               % (qn, w, v, " or ".join(map(str, want)) if isinstance(want, list) else want),
                               loc=shared.prog.globals[qn][0].get("loc"), shown=True)
        for w in need:
            task.obligations += 1
            if w not in full and w.lower() not in full:
                raise Fail("no word is missing", "%r is in none of %s" % (w, [q for q, _ in ts]), loc=shared.prog.globals[ts[0][0]][0].get("loc"), shown=True)
    return explore_task(task, body)
