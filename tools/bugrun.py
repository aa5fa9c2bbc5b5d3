import sys,os,subprocess,json,shutil,glob,time
S='/verif/seeded'
ids=sorted(os.listdir(S)); only=sys.argv[1:]
for i in ids:
    if only and not any(o in i for o in only): continue
    d='/tmp/br/'+i; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run('git -C /repo archive HEAD | tar x -C %s'%d,shell=True,check=True)
    r=subprocess.run('cd %s && git init -q . 2>/dev/null; git apply %s/%s/patch.diff'%(d,S,i),shell=True,capture_output=True,text=True)
    if r.returncode: print(i,'PATCH',r.stderr); continue
    p=json.load(open(S+'/%s/meta.json'%i))['property']
    t=time.time()
    r=subprocess.run(['python3','/verif/checks/run.py','--property',p],capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=d))
    print(i,p,'rc',r.returncode,'%.0fs'%(time.time()-t),(r.stdout.strip().split('\n')[0][:260] if r.returncode==1 else r.stdout[-300:]+r.stderr[-500:]),flush=True)
    shutil.rmtree(d)
