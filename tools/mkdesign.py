#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, the harness doc comments, tools/design_props.json and tools/catch.json."""
import json, re, glob, os
V='/verif'
head=open(V+'/tools/design_head.md').read()
pp=json.load(open(V+'/tools/design_props.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
H={}
for f in sorted(glob.glob(V+'/harness/src/*.rs')):
    doc=[]
    for l in open(f):
        s=l.strip()
        if s.startswith('///'): doc.append(s[3:].strip()); continue
        m=re.search(r'extern "C" fn (h_(c\d\d)_\w+)',s)
        if m: H.setdefault(m.group(2).upper(),[]).append((m.group(1),re.sub(r'\s*\[(jobs|time|ins) \d+\]','',' '.join(doc)),os.path.basename(f)))
        if not s.startswith('#[') or m: doc=[]
o=[head,'\n## 2. Properties: harnesses, oracles, bounds\n']
for p in props:
    i=p['id']; q=pp.get(i,{})
    o.append('### %s %s\n'%(i,p['title']))
    o.append('*Oracle.* %s\n'%q.get('oracle',''))
    if q.get('restrict'): o.append('*Outside the claim (by design of the format or API, not defects).* %s\n'%q['restrict'])
    if q.get('why'): o.append('*Why tests cannot settle it.* %s\n'%q['why'])
    o.append('| harness (%s) | bound |\n|---|---|'%', '.join(sorted({x[2] for x in H.get(i,[])})))
    for n,d,_ in H.get(i,[]): o.append('| `%s`%s | %s |'%(n[6:],' (thorough)' if n.endswith('_t') else '',d.replace('|','\\|')))
    o.append('')
o.append(open(V+'/tools/design_tail.md').read())
try: c=json.load(open(V+'/tools/catch.json'))
except FileNotFoundError: c={}
o.append('\n### 4.1 Which check catches which planted change\n\n| planted change | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    k=os.path.basename(os.path.dirname(d)); m=json.load(open(d))
    o.append('| %s | %s | %s | %s |'%(k,m['property'],m['needs'].replace('|','\\|'),c.get(k,'not run')))
open(V+'/DESIGN.md','w').write('\n'.join(o)+'\n')
