#!/usr/bin/env python3
"""seedtable.py: the table of planted bugs (from seeded/*/meta.json) for DESIGN.md; NEEDED marks those that a check missed at first"""
import json,glob,os,re
N=json.load(open(os.path.dirname(os.path.abspath(__file__))+'/seednotes.json'))
rows=['| planted bug | what it breaks | needs | caught by (quick) |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    k=d.split('/')[-2]; m=json.load(open(d)); n=N.get(k)
    rows.append('| `%s` | %s | %s | %s%s |'%(k,m['what_it_breaks'],m['needs'],m['property'],' — missed at first: '+n if n else ''))
s=open('/verif/DESIGN.md').read()
a='<!-- seedtable -->'; 
if a not in s: s=s.replace('(table at the end of this work)',a+'\n'+a)
i=s.index(a); j=s.index(a,i+5)
open('/verif/DESIGN.md','w').write(s[:i+len(a)]+'\n'+'\n'.join(rows)+'\n'+s[j:])
