#!/usr/bin/env python3
# mk.py SPEC.py : SPEC defines BUGS=[dict(id,prop,needs,breaks,edits=[(file,old,new)],demo=go code | demofiles, cmd)]
import sys,os,subprocess,json,shutil,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
only=set(sys.argv[2:])
DEMO_SH='''#!/bin/bash
# Exit 0 if the behaviour is right, nonzero if not.  Runs in the repository.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod CGO_ENABLED=%s
printf '{"Replace":{"%%s":"%%s"}}\\n' "$repo/zz_demo_verif_test.go" "$here/demo_test.go.txt" >"$W/overlay.json"
go test -overlay "$W/overlay.json" %s-count=1 -timeout 120s -run '^TestDemo' . 2>&1 | tail -40
exit "${PIPESTATUS[0]}"
'''
HDR='''package flate

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"
	"time"
)

var _ = bytes.NewReader
var _ = errors.New
var _ = fmt.Sprint
var _ = io.EOF
var _ = rand.New
var _ sync.Mutex
var _ = time.Second

'''
def run(cmd,cwd,timeout=300):
    try: p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout); return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 124,'timeout'
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    out=f"/verif/seeded/{b['id']}"
    D=tempfile.mkdtemp(prefix='/tmp/plant/w.'); shutil.rmtree(D)
    shutil.copytree('/repo',D,symlinks=True)
    ok=True
    for f,o,n in b['edits']:
        p=f"{D}/{f}"; s=open(p).read()
        if s.count(o)!=1: print(b['id'],'EDIT count',s.count(o),f,repr(o[:60])); ok=False; break
        open(p,'w').write(s.replace(o,n))
    if not ok: shutil.rmtree(D); continue
    rc,diff=run('git diff',D)
    rc,o=run('go build ./... && go vet . 2>&1',D)
    if rc: print(b['id'],'BUILD',o); shutil.rmtree(D); continue
    os.makedirs(out,exist_ok=True)
    open(out+'/patch.diff','w').write(diff)
    race=b.get('race',False)
    if 'demosh' in b:
        open(out+'/demo.sh','w').write(b['demosh'])
        for k,v in b.get('files',{}).items(): open(out+'/'+k,'w').write(v)
    else:
        open(out+'/demo.sh','w').write(DEMO_SH%('1' if race else '0','-race ' if race else ''))
        open(out+'/demo_test.go.txt','w').write(HDR.replace('"testing"','"testing"\n\t'+'\n\t'.join(b.get('imports',[])))+b['demo'])
    os.chmod(out+'/demo.sh',0o755)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(out+'/meta.json','w'),indent=1)
    # stable tests
    rc,o=run('go test -count=1 ./... 2>&1 | tail -30',D)
    if 'FAIL' in o: print(b['id'],'TESTS FAIL with bug',o[-600:])
    # demos from a moved folder
    T=tempfile.mkdtemp(prefix='/tmp/plant/d.'); shutil.rmtree(T); shutil.copytree(out,T); os.remove(T+'/patch.diff'); os.remove(T+'/meta.json')
    rc0,o0=run(T+'/demo.sh','/repo'); rc1,o1=run(T+'/demo.sh',D)
    shutil.rmtree(T)
    st='ok' if rc0==0 and rc1 not in(0,3) else 'DEMO BAD'
    print(b['id'],st,'clean rc',rc0,'bug rc',rc1)
    if st!='ok': print(o0[-1500:],'-----',o1[-1500:])
    elif 'build failed' in o1 or 'setup failed' in o1: print('demo build?',o1[-800:])
    if st=='ok':
        for pid in b.get('check',[b['prop']]):
            rc,o=run(f'VERIF_REPO={D} bin/check {pid} quick','/verif',900)
            v=[l[:220] for l in o.splitlines() if 'VIOLATION' in l]
            print('   ',pid,'rc',rc,'|',v[:1] if v else o.splitlines()[-1][:200])
    shutil.rmtree(D)
