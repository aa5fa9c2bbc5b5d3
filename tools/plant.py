#!/usr/bin/env python3
"""Plant bugs: for every entry of the given bug list (a python file defining BUGS) make the change in /repo, build, run the
stable tests and the demonstration with and without it, and store the ones that qualify under /verif/seeded/<id>/."""
import sys, os, subprocess, json, shutil, textwrap
REPO='/repo'; SEED='/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def clean(): sh('git -C /repo checkout -- .')
CLI='''#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
bad=0
while IFS='|' read -r text ref want; do
    got=$(TZ=UTC timeout 20 ./_build/time "$text" "$ref" 2>/dev/null | tail -1)
    if [ "$got" != "$(printf '%b' "$want")" ]; then
        echo "'$text' ($ref): got '$got', expected '$want'"; bad=1
    fi
done < "$here/cases.txt"
exit $bad
'''
CPP='''#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -w -O0 -I"$PWD" "$here/demo.cpp" src/result.cpp src/utils/utils.cpp src/parsers/parsers.cpp -lboost_date_time -o "$tmp/demo" || exit 3
TZ=UTC timeout 60 "$tmp/demo"
'''
PRE='''#include <iostream>
#include <string>
#include <algorithm>
#include <unistd.h>
%s
using namespace std;
static int bad=0;
#define CHECK(c) do { if(!(c)) { std::cout << "failed: " #c << std::endl; bad=1; } } while(0)
static posix_time::ptime T(const char* s) { return posix_time::time_from_string(s); }
int main() {
%s
    return bad;
}
'''
INC='\n'.join('#include "src/parsers/en/%s.hpp"'%n for n in '''ENISOFormatParser ENTimeLaterParser ENMonthNameParser ENCasualTimeParser ENCasualDateParser ENUSHolidaysParser ENDayOfTheWeekParser ENTimeAgoFormatParser ENDeadlineFormatParser ENTimeExpressionParser ENWeekExperessionParser ENMonthNameMiddleEndianParser ENRelativeDateFormatParser'''.split())
INC+='\n'+'\n'.join('#include "src/refiners/%s.hpp"'%n for n in '''OverlapRemovalRefiner en/ENMergeDateRangeRefiner ExtractTimeZoneAbbreviation en/ENMergeDateAndTimeRefiner'''.split())
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
def build():
    r=sh('bash /opt/vp/build.sh'); return r.returncode==0, r.stdout[-1500:]+r.stderr[-1500:]
def demo(d):
    r=sh('bash %s/demo.sh'%d, cwd=REPO); return r.returncode, r.stdout+r.stderr
def orig_lines(f):
    out=sh('git blame -s %s'%f, cwd=REPO).stdout.split('\n')
    return out
def main():
    ns={}; exec(open(sys.argv[1]).read(), ns)
    only=sys.argv[2:]
    bugs=[b for b in ns['BUGS'] if not only or any(o in b['id'] for o in only)]
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    stage='/tmp/plant'; shutil.rmtree(stage, ignore_errors=True); os.makedirs(stage)
    ok,_=build(); assert ok
    for b in bugs:                       # unchanged-tree run of every demo
        d=b['dir']=os.path.join(stage,b['id']); os.makedirs(d)
        if 'cpp' in b:
            open(d+'/demo.cpp','w').write(PRE%(INC,textwrap.indent(textwrap.dedent(b['cpp']).strip(),'    ')))
            open(d+'/demo.sh','w').write(CPP)
        else:
            open(d+'/cases.txt','w').write(''.join('|'.join(c)+'\n' for c in b['cli']))
            open(d+'/demo.sh','w').write(CLI)
        os.chmod(d+'/demo.sh',0o755)
        rc,out=demo(d); b['ok']=rc==0
        if rc: print(b['id'],'DEMO FAILS UNCHANGED',out[-600:])
    for b in bugs:
        if not b['ok']: continue
        try:
            bad=None
            for f,old,new in b['edits']:
                p=os.path.join(REPO,f); s=open(p).read()
                n=b.get('nth',0)
                if s.count(old)!=1 and 'nth' not in b: bad='old text occurs %d times in %s: %s'%(s.count(old),f,old); break
                if 'nth' in b:
                    parts=s.split(old); s=old.join(parts[:n+1])+new+old.join(parts[n+1:])
                else: s=s.replace(old,new)
                open(p,'w').write(s)
            if bad: print(b['id'],bad); continue
            diff=sh('git -C /repo diff').stdout
            # removed lines must be original ones
            mine=[]
            for f,_,_ in b['edits']:
                cur=None
            r=sh("git -C /repo diff -U0")
            for l in r.stdout.split('\n'):
                if l.startswith('--- '): f=l[6:]; bl=sh('git -C /repo blame -s HEAD -- %s'%f).stdout.split('\n')
                if l.startswith('@@'):
                    a=l.split()[1][1:].split(','); st=int(a[0]); c=int(a[1]) if len(a)>1 else 1
                    for i in range(st,st+c):
                        if not bl[i-1].startswith('^'): mine.append((f,i))
            if mine: print(b['id'],'note: touches lines of my fixes',mine)
            ok,log=build()
            if not ok: print(b['id'],'BUILD FAILS',log); continue
            sh('bash /opt/vp/test.sh /tmp/plant.json'); res=json.load(open('/tmp/plant.json'))
            lost=set(base)-set(res['passed'])
            if lost: print(b['id'],'LOST TESTS',sorted(lost)); continue
            rc,out=demo(b['dir'])
            if rc==0: print(b['id'],'DEMO PASSES WITH THE BUG'); continue
            if rc==3: print(b['id'],'DEMO DOES NOT COMPILE',out[-500:]); continue
            dst=os.path.join(SEED,b['id']); shutil.rmtree(dst,ignore_errors=True); shutil.copytree(b['dir'],dst)
            open(dst+'/patch.diff','w').write(diff)
            json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(dst+'/meta.json','w'),indent=1)
            print(b['id'],'kept:',out.strip()[:160])
        finally: clean()
    build()
main()
