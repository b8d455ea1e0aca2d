#!/usr/bin/env python3
"""fills the table of planted changes in DESIGN.md from seeded/*/meta.json"""
import json,glob,os,collections,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d=collections.defaultdict(list)
for m in glob.glob(V+'/seeded/*/meta.json'): d[json.load(open(m))['property']].append(os.path.basename(os.path.dirname(m)))
t=''.join('| %s | %s |\n' % (p,', '.join(sorted(d[p]))) for p in sorted(d))
s=open(V+'/DESIGN.md').read()
h='| property | planted changes |\n|---|---|\n'
i=s.index(h)+len(h); j=s.index('Missed at first',i)
open(V+'/DESIGN.md','w').write(s[:i]+t+'\n'+s[j:])
