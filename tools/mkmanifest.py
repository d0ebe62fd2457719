#!/usr/bin/env python3
# Writes MANIFEST.json from the lists below and properties.jsonl.
import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH="contract-based deductive verification of the real code: contracts (requires/ensures) in /verif/harness/props/{f}, proof obligations generated from go/ssa of /repo by govc on every run, loop invariants inferred and proved by induction, discharged by z3/cvc5; refutations replayed on the real code"
CLAIMED={}
def claim(id,note,f=None): CLAIMED[id]=(note,f or id.lower()+".go")
NA={}
exec(open(os.path.join(V,'tools','claims.py')).read())
ids=[json.loads(l)['id'] for l in open(os.path.join(V,'properties.jsonl'))]
checks=[dict(property=i,quick_cmd=f"./check.sh {i} quick",thorough_cmd=f"./check.sh {i} thorough",technique=TECH.format(f=CLAIMED[i][1]),level="proof",level_note=CLAIMED[i][0]) for i in ids if i in CLAIMED]
na=[dict(property=i,reason=NA.get(i,"not built yet")) for i in ids if i not in CLAIMED]
m=dict(version=1,setup_cmd="cd govc && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 go build -o ../bin/govc .",checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
