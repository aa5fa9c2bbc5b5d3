import sys,os,subprocess,json,shutil,time
ns={}; exec(open(sys.argv[1]).read(),ns); only=sys.argv[2:]
for b in ns['EDITS']:
    if only and not any(o in b['id'] for o in only): continue
    d='/tmp/rfc/'+b['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s'%d,shell=True,check=True)
    bad=None
    if 'span' in b:
        f,s0,s1,inc=b['span']; p=d+'/'+f; s=open(p).read(); i=s.find(s0); j=s.find(s1,i)
        if i<0 or j<0: bad='span'
        else: s=s[:i]+b['new']+s[j+(len(s1) if inc else 0):]; open(p,'w').write(s)
    for f,o,n in b.get('edits',[]):
        p=d+'/'+f; s=open(p).read()
        if s.count(o)!=1 and not b.get('all'): bad='%d x %s'%(s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    if bad: print(b['id'],'EDIT',bad); continue
    r=subprocess.run('cd %s && g++ -std=c++17 -fsyntax-only -w -I. time.cpp && g++ -std=c++17 -fsyntax-only -w -I. src/result.cpp && g++ -std=c++17 -w -fsyntax-only -I. src/utils/utils.cpp && g++ -std=c++17 -w -fsyntax-only -I. src/parsers/parsers.cpp'%d,shell=True,capture_output=True,text=True)
    if r.returncode: print(b['id'],'COMPILE',r.stderr[:600]); continue
    for p in b['props'].split():
        t=time.time()
        a=['python3','/verif/checks/run.py','--property',p]
        if ':' in p: p,o=p.split(':'); a=['python3','/verif/checks/run.py','--property',p,'--only',o]
        r=subprocess.run(a,capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d))
        ok=r.returncode==0
        print(b['id'],p,'rc',r.returncode,'%.0fs'%(time.time()-t),(r.stdout.strip().split('\n')[-1][-110:] if ok else 'ALARM '+r.stdout[:700]+r.stderr[-500:]),flush=True)
    shutil.rmtree(d)
