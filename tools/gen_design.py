#!/usr/bin/env python3
# fills the planted-bug table of DESIGN.md from seeded/*/meta.json and tools/seed_results.txt ("<id> <checks that caught it>")
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res={}
for l in open(V+'/tools/seed_results.txt'):
    w=l.split()
    if w: res[w[0]]=' '.join(w[1:])
rows=['| planted bug | property | needs | caught by |','|---|---|---|---|']
ds=sorted((json.load(open(f'{V}/seeded/{d}/meta.json'))['property'],d) for d in os.listdir(V+'/seeded'))
for prop,d in ds:
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append('| %s | %s | %s | %s |'%(d,prop,m['needs'].replace('|','/'),res.get(d,'?')))
s=open(V+'/DESIGN.md').read()
s=re.sub(r'<!--SEEDS-->.*?<!--/SEEDS-->',lambda _:'<!--SEEDS-->\n'+'\n'.join(rows)+'\n<!--/SEEDS-->',s,flags=re.S)
open(V+'/DESIGN.md','w').write(s)
