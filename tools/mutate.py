#!/usr/bin/env python3
"""Plants small mechanical changes (one per scratch copy) and says which of them no check reports.
usage: mutate.py OUT N SEED [file substring ...]"""
import os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "src/parsers/en/"


def gen(cls, *fam):
    return list(fam) + [p + ":" + cls for p in ("C14", "C07", "C13", "C09", "C10")] + ["C37", "C38"]


MAP = {
    "src/result.cpp": ["C03", "C01", "C02", "C04", "C05:scan", "C14:quer", "C15", "C28"],
    "src/parsers/parsers.cpp": ["C06", "C07:scan", "C09:scan", "C05", "C10:CasualTime"],
    "src/utils/utils.cpp": ["C19", "C24", "C18", "C15", "C08:Casual", "C13:TimeAgo"],
    "src/utils/utils.hpp": ["C12", "C19", "C18"],
    "src/refiners/ExtractTimeZoneAbbreviation.hpp": ["C31", "C32", "C14:tags"],
    "src/refiners/OverlapRemovalRefiner.hpp": ["C28"],
    E + "ENCasualDateParser.hpp": gen("CasualDate", "C15"),
    E + "ENCasualTimeParser.hpp": gen("CasualTime", "C16"),
    E + "ENDayOfTheWeekParser.hpp": gen("DayOfWeek", "C17"),
    E + "ENDeadlineFormatParser.hpp": gen("Deadline", "C18"),
    E + "ENISOFormatParser.hpp": gen("ISO", "C22"),
    E + "ENMonthNameMiddleEndianParser.hpp": gen("MiddleEndian", "C24"),
    E + "ENMonthNameParser.hpp": gen("MonthNameParser", "C23"),
    E + "ENRelativeDateFormatParser.hpp": gen("Relative", "C20"),
    E + "ENTimeAgoFormatParser.hpp": gen("TimeAgo", "C19"),
    E + "ENTimeLaterParser.hpp": gen("TimeLater", "C19"),
    E + "ENTimeExpressionParser.hpp": gen("TimeExpression", "C25", "C26"),
    E + "ENUSHolidaysParser.hpp": gen("Holiday", "C27"),
    E + "ENWeekExperessionParser.hpp": gen("Week", "C21"),
    "src/refiners/en/ENMergeDateAndTimeRefiner.hpp": ["C29", "C32", "C14:tags"],
    "src/refiners/en/ENMergeDateRangeRefiner.hpp": ["C30", "C32", "C14:tags"],
    "time.cpp": ["C33"],
}
OPS = [(r"(?<![<>=!-])<(?![<=])(?=\s*-?[\w(])", ["<="]), (r"(?<![<>=!-])>(?![>=])(?=\s*-?[\w(])", [">="]), (r"<=", ["<"]), (r">=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&|\band\b", ["or"]), (r"\|\||\bor\b", ["and"]), (r"(?<=\w) \+ (?=\w)", [" - "]), (r"(?<=\w) - (?=\w)", [" + "]),
       (r"\+=", ["-="]), (r"-=", ["+="]), (r" \* ", [" / "]), (r" / ", [" * "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"(?<![\w.\"\\{,])\b\d+\b(?![.\w\"])", ["INC", "DEC"]), (r"\bif\s*\((?=.*\)\s*\{?\s*$)", ["NEG"]), (r"^\s*[\w.>-]+\([^;{}]*\);\s*$", ["DEL"]),
       (r"^\s*[\w.\->]+\s*[-+]?=\s*[^;={}]*;\s*$", ["DEL"]), (r"setHour\(", ["setMinute("]), (r"startDate", ["endDate"]), (r"endDate", ["startDate"]),
       (r"\.set(Year|Month|Hour|Minute|Seconds)\(", ["IMPLY"]), (r"implyComponent\(\"(year|month|mday|hour|min|sec|wday)\", ", ["SET"]),
       (r"getMonth\(\)", ["get_mDay()"]), (r"getMinute\(\)", ["getSeconds()"]), (r"\b(month|day|year|hours|minutes|seconds)\(\)", ["NEXT"])]
NEXT = {"month": "day", "day": "month", "year": "month", "hours": "minutes", "minutes": "seconds", "seconds": "minutes"}
COMP = {"Year": "year", "Month": "month", "Hour": "hour", "Minute": "min", "Seconds": "sec"}
SETR = {"year": "setYear", "month": "setMonth", "mday": "set_mDay", "hour": "setHour", "min": "setMinute", "sec": "setSeconds", "wday": "set_wDay"}


def mutants(repo):
    for f in MAP:
        com = False
        for n, l in enumerate(open(os.path.join(repo, f)).read().split("\n")):
            s = l.strip()
            if s.startswith("/*"):
                com = True
            if com:
                com = "*/" not in l
                continue
            if s.startswith(("//", "#", "*")) or "R\"(" in l or "std::cerr" in l or "const unsigned short" in l or "_GROUP" in l and "=" in l and "match" not in l:
                continue
            code = l.split("//")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    for r in reps:
                        x = m.group(0)
                        if r in ("INC", "DEC"):
                            t = str(int(x) + (1 if r == "INC" else -1))
                            if t.startswith("-"):
                                continue
                        elif r == "NEG":
                            i, d = m.end(), 1
                            while i < len(code) and d:
                                d += {"(": 1, ")": -1}.get(code[i], 0)
                                i += 1
                            if d:
                                continue
                            yield f, n, l, code[:m.end()] + "!(" + code[m.end():i - 1] + ")" + code[i - 1:]
                            continue
                        elif r == "DEL":
                            t = ""
                        elif r == "IMPLY":
                            t = ".implyComponent(\"%s\", " % COMP[m.group(1)]
                        elif r == "SET":
                            t = SETR[m.group(1)] + "("
                        elif r == "NEXT":
                            t = NEXT[m.group(1)] + "()"
                        else:
                            t = r
                        yield f, n, l, code[:m.start()] + t + code[m.end():]


def one(job):
    k, (f, n, old, new) = job
    d = "/tmp/mut/%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
        p = os.path.join(d, f)
        ls = open(p).read().split("\n")
        if ls[n] != old:
            return k, f, n, old, new, "STALE"
        ls[n] = new
        open(p, "w").write("\n".join(ls))
        us = ["time.cpp"] if f != "src/result.cpp" else ["src/result.cpp"]
        if f.endswith("parsers.cpp") or f.endswith("utils.cpp"):
            us = [f]
        if "Relative" in f:
            open(d + "/x.cpp", "w").write("#include \"%s\"\nint main() {}\n" % f)
            us = ["x.cpp"]
        for u in us:
            r = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-w", "-I.", u], cwd=d, capture_output=True)
            if r.returncode:
                return k, f, n, old, new, "NOCOMPILE"
        if os.path.exists(d + "/x.cpp"):
            os.remove(d + "/x.cpp")
        und = []
        for p in MAP[f]:
            a = [sys.executable, V + "/checks/run.py", "--property", p.split(":")[0]] + (["--only", p.split(":")[1]] if ":" in p else [])
            try:
                r = subprocess.run(a, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d), timeout=600)
            except subprocess.TimeoutExpired:
                und.append(p + " timeout")
                continue
            if r.returncode == 1:
                return k, f, n, old, new, "caught by %s: %s" % (p, r.stdout[:160].split("\n")[0])
            if r.returncode == 2:
                und.append(p + " rc2 " + r.stdout[-200:].strip() + r.stderr[-300:].strip())
            m = re.search(r"(\d+) undecided", r.stdout)
            if m and m.group(1) != "0":
                und.append(p + " " + m.group(0))
        return k, f, n, old, new, "SURVIVED " + "; ".join(und)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    out, N, seed, only = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    ms = [m for m in mutants("/repo") if not only or any(o in m[0] for o in only)]
    ms = list(dict.fromkeys(ms))
    print(len(ms), "mutants")
    random.Random(seed).shuffle(ms)
    with ThreadPoolExecutor(int(os.environ.get("MUT_JOBS", "2"))) as ex, open(out, "a", buffering=1) as o:
        for r in ex.map(one, enumerate(ms[:N])):
            o.write("#%d %s:%d %s\n    - %s\n    + %s\n" % (r[0], r[1], r[2] + 1, r[5], r[3].strip(), r[4].strip()))
