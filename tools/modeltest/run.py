#!/usr/bin/env python3
"""Compares the abstract interpreter's library models with the real library on mt.cpp (no input: every value is known)."""
import os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(H))
d = "/tmp/mt"
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
subprocess.run("git -C /repo archive HEAD | tar x -C %s" % d, shell=True, check=True)
src = open(H + "/mt.cpp").read()
open(d + "/src/mt.cpp", "w").write(src)
names = re.findall(r"^S ([tu]_\w+)\(\)", src, re.M)
open(d + "/m.cc", "w").write(src + "\nint main() {\n" + "".join('  std::cout << "%s " << %s() << "\\n";\n' % (x, x) for x in names) + "}\n")
subprocess.run(["g++", "-std=c++17", "-w", "-o", d + "/m", d + "/m.cc", "-lboost_date_time"], check=True)
os.remove(d + "/m.cc")
real = dict(l.partition(" ")[::2] for l in subprocess.run([d + "/m"], capture_output=True, text=True).stdout.split("\n") if l)
os.environ["VERIF_REPO"] = d
sys.path[:0] = [V, V + "/checks"]
import traceback
from sa import prog, interp, state
from sa.val import *
p = prog.load()
sh = interp.Shared(p)
bad = 0
only = sys.argv[1:]
for x in names:
    if only and x not in only:
        continue
    f = p.by_qn[x][0]
    st = state.State([])
    it = interp.Interp(sh, st)
    try:
        r = it.call(f, None, [])
        r = it.load(r) if isinstance(r, Cell) else r
        got = r.decode("latin-1") if isinstance(r, bytes) else repr(r)
    except state.Undecided as e:
        if only:
            traceback.print_exc()
        got = "UNDECIDED %s at %s" % (e, st.loc)
    except Exception as e:
        got = "%s %s at %s" % (type(e).__name__, e, st.loc)
        if only:
            traceback.print_exc()
    if got != real[x]:
        bad += 1
        print(x, "real", repr(real[x]), "model", got)
print(len(names), "functions,", bad, "differ")
shutil.rmtree(d)
