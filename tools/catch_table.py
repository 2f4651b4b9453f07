#!/usr/bin/env python3
"""Rewrites the catch table of DESIGN.md from seeded/*/meta.json and CATCH below."""
import json,os,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CATCH=json.load(open(V+'/tools/catch.json'))
rows=['| planted change | needs | caught by (check: scenario/policy/bound) |','|---|---|---|']
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    i=os.path.basename(os.path.dirname(m)); j=json.load(open(m))
    rows.append('| %s | %s | %s: %s |'%(i,j['needs'].replace('|','/'),j['property'],CATCH.get(i,'?')))
p=V+'/DESIGN.md'; s=open(p).read()
a,b='<!-- catch table -->\n','<!-- end of catch table -->\n'
t=a+'\n'.join(rows)+'\n'+b
if a in s: s=s[:s.index(a)]+t+s[s.index(b)+len(b):]
else: s=s.rstrip('\n')+'\n\n## 5. Planted changes and what catches them\n\nEvery change under `seeded/` builds, passes the stable tests and fails its own\ndemonstration; each was run against the quick check of its property. What is named\nis the first scenario which reports it (others often do too).\n\n'+t
open(p,'w').write(s)
