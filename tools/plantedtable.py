#!/usr/bin/env python3
"""Rewrites the table of section 8 of DESIGN.md from seeded/*/meta.json (a maintenance helper; no check runs it)."""
import json,glob,os,re
rows=[]
for m in glob.glob('/verif/seeded/*/meta.json'):
    d=json.load(open(m)); rows.append((d['property'],os.path.basename(os.path.dirname(m)),d['what_it_breaks']))
rows.sort()
t='| property | change | what it breaks |\n|---|---|---|\n'+''.join('| %s | %s | %s |\n'%r for r in rows)
s=open('/verif/DESIGN.md').read()
s=re.sub(r'\| property \| change \| what it breaks \|\n\|---\|---\|---\|\n(\|.*\n)*',lambda _:t,s)
open('/verif/DESIGN.md','w').write(s)
