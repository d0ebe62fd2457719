#!/usr/bin/env python3
# seed.py FILE.py : makes /verif/seeded/<id>/ from a description (id, property, needs, breaks, edits, demo) after confirming it in a scratch copy.
import sys,os,subprocess,json,shutil
V='/verif'
ENV=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0: the property holds on this input; non-zero: it is broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cat >"$tmp/overlay.json" <<J
{"Replace": {"$PWD/zzdemo/main.go": "$here/main.go.txt"}}
J
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
go build -o "$tmp/midiasm" ./cmd/midiasm || exit 3
cd "$tmp" && timeout 60 ./demo
'''
def seed(id,prop,needs,breaks,edits,demo):
    wt='/tmp/seedwt'
    shutil.rmtree(wt,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',wt],check=True)
    for f,old,new in edits:
        p=os.path.join(wt,f); s=open(p).read()
        assert s.count(old)==1,(id,f,old,s.count(old))
        base=sh(f"git show $(git rev-list --max-parents=0 HEAD):{f}",wt).stdout
        s=s.replace(old,new); open(p,'w').write(s)
    g=sh("gofmt -l .",wt).stdout.strip()
    # removed lines must be original
    d=sh("git diff -U0",wt).stdout
    base=''.join(sh(f"git show $(git rev-list --max-parents=0 HEAD):{f}",wt).stdout for f,_,_ in edits)
    rem=[l[1:] for l in d.splitlines() if l.startswith('-') and not l.startswith('---')]
    notorig=[l for l in rem if l.strip() and l not in base]
    b=sh("go build ./... && go vet ./... >/dev/null 2>&1; go build ./...",wt)
    assert b.returncode==0,b.stderr
    t=sh("go test -json -vet=off -count=1 ./...",wt)
    passed=set()
    for l in t.stdout.splitlines():
        try: o=json.loads(l)
        except Exception: continue
        if o.get('Action')=='pass' and o.get('Test'): passed.add((o['Package'],o['Test']))
    st=json.load(open('/opt/vp/BASELINE.json'))['stable']
    names={f"{p}::{n}" for p,n in passed}|{f"{p}/{n}" for p,n in passed}|{f"{p}.{n}" for p,n in passed}|{f"{p}:{n}" for p,n in passed}
    missing=[s for s in st if s not in names]
    if missing: print(id,'TESTS FAIL',len(missing),missing[:5]); return False
    out=os.path.join(V,'seeded',id); shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    open(out+'/patch.diff','w').write(sh("git diff",wt).stdout)
    open(out+'/main.go.txt','w').write(demo)
    open(out+'/demo.sh','w').write(DEMO); os.chmod(out+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(out+'/meta.json','w'),indent=1)
    r1=sh(f"bash {out}/demo.sh",wt); 
    sh("git checkout -- .",wt)
    r0=sh(f"bash {out}/demo.sh",wt)
    ok=r0.returncode==0 and r1.returncode not in (0,3)
    print(id,'OK' if ok else 'BAD DEMO','unchanged',r0.returncode,'patched',r1.returncode,(r1.stdout+r1.stderr).strip()[:200] if ok else (r0.stdout+r0.stderr+r1.stdout+r1.stderr)[:1500])
    if notorig: print('   removed lines not original:',notorig)
    if g: print('   gofmt',g)
    if not ok: shutil.rmtree(out)
    shutil.rmtree(wt,ignore_errors=True)
    return ok
if __name__=='__main__':
    for f in sys.argv[1:]: exec(open(f).read())
