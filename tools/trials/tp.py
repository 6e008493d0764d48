#!/usr/bin/env python3
# tp.py SPEC [ids]: try bugs without demos: build, stable tests, then intended checks
import sys,os,subprocess,json,shutil,time
BUGS=[]
def B(id,props,*edits,note=''): BUGS.append((id,props.split(','),edits,note))
exec(open(sys.argv[1]).read())
KEEP=set(subprocess.run(["git","-C","/verif","ls-files","replays"],capture_output=True,text=True).stdout.replace("replays/","").split())
only=set(sys.argv[2:])
for id,props,edits,note in BUGS:
    if only and id not in only: continue
    D=f'/tmp/tp.{os.getpid()}'; shutil.rmtree(D,ignore_errors=True); shutil.copytree('/repo',D,symlinks=True)
    ok=True
    for f,o,n in edits:
        p=f"{D}/{f}"; s=open(p).read()
        if s.count(o)!=1: print(id,'EDIT count',s.count(o),repr(o[:70])); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: continue
    r=subprocess.run('. /verif/bin/env.sh; go build ./... && go test -count=1 ./... 2>&1 | grep -v "no test files"',shell=True,cwd=D,executable='/bin/bash',capture_output=True,text=True)
    if r.returncode or 'FAIL' in r.stdout: print(id,'BUILD/TEST',(r.stdout+r.stderr)[-400:]); continue
    res=[]
    for p in props:
        t=time.time()
        r=subprocess.run(['/verif/bin/check',p],env=dict(os.environ,VERIF_REPO=D),capture_output=True,text=True)
        idx=[l for l in r.stdout.splitlines() if l.startswith('seed ')]
        res.append((p,r.returncode,round(time.time()-t),idx[0].split(',')[1] if idx else r.stderr[-200:] if r.returncode==2 else ''))
        if r.returncode==1 and not os.environ.get('ALL'): break
    print('OK  ' if any(x[1]==1 for x in res) else 'MISS',id,res,flush=True)
    for f in os.listdir('/verif/replays'):
        if '-1-' in f and f not in KEEP: os.remove('/verif/replays/'+f)
    shutil.rmtree(D,ignore_errors=True)
