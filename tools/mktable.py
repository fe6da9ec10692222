#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json,os,re
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| planted bug | property (check that catches it) | needs | note |','|---|---|---|---|']
notes=json.load(open(os.path.join(H,'tools','seed_notes.json')))
for d in sorted(os.listdir(H+'/seeded'), key=lambda d:(json.load(open(H+'/seeded/'+d+'/meta.json'))['property'],d)):
    m=json.load(open(H+'/seeded/'+d+'/meta.json'))
    rows.append('| %s | %s | %s | %s |'%(d,m['property'],m['needs'],notes.get(d,'')))
s=open(H+'/DESIGN.md').read()
b,e='<!-- table -->','<!-- end -->'
t=b+'\n'+'\n'.join(rows)+'\n'+e
s=re.sub(re.escape(b)+'.*?'+re.escape(e),lambda m:t,s,flags=re.S) if b in s else s.replace('SEEDTABLE',t)
open(H+'/DESIGN.md','w').write(s)
