#!/usr/bin/env python3
# Writes DESIGN.md from design.in.md, the contracts' comments, evidence and seeds' results.
import re,json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL={};NA={}
def claim(i,n,f=None): CL[i]=n
exec(open(V+'/tools/claims.py').read())
docs={}
for f in sorted(glob.glob(V+'/harness/props/*.go')):
    s=open(f).read()
    for m in re.finditer(r'((?:^//.*\n)*)^func (C\d\d_\w+)\(\)',s,re.M):
        d=' '.join(l[2:].strip() for l in m.group(1).splitlines())
        body=s[m.end():m.end()+200]
        lab='sampled' if re.match(r' \{\n\tverif\.Sample\(\)',body) else ''
        docs[m.group(2)]=(d,lab)
BOUNDED={'C08_File','C08_Chunk','C08_Track'}
out=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l)
    if p['id'] not in CL: continue
    out.append(f"### {p['id']} {p['title']}\n\n{CL[p['id']]}\n")
    for h in sorted(docs):
        if h.startswith(p['id']):
            d,lab=docs[h]
            if h in BOUNDED: lab='bounded'
            out.append(f"* `{h}`"+(f" ({lab})" if lab else "")+(f": {d}" if d else ""))
    out.append('')
fd=json.load(open(V+'/known_findings.json'))['Findings']
fs=[f"* **known** {x['property']} `{x['key']}`: {x['what']}" for x in fd if x['status']=='known']+[f"* {x['what']}" for x in fd if x['status']=='fixed']
res={}
rp=V+'/tools/seed_results.json'
if os.path.exists(rp): res=json.load(open(rp))
sd=["| seed | what it breaks | caught by |","|---|---|---|"]
for d in sorted(glob.glob(V+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); n=os.path.basename(d)
    sd.append(f"| {n} | {m['what_it_breaks']} | {res.get(n,'')} |")
pr=''
if os.path.exists(V+'/tools/probes.txt'): pr='\n'+open(V+'/tools/probes.txt').read()
t=open(V+'/tools/design.in.md').read()
for k,v in dict(PROPERTIES='\n'.join(out),C20=NA.get('C20',''),FINDINGS='\n'.join(fs),SEEDS='\n'.join(sd),PROBES=pr).items(): t=t.replace('@'+k+'@',v)
open(V+'/DESIGN.md','w').write(t)
