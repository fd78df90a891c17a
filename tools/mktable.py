#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json (and seeded/misses.txt, if any)."""
import json,glob,re
rows=["| bug | property | what it breaks | caught |","|--|--|--|--|"]
try: miss=dict(l.rstrip('\n').split(' ',1) for l in open('/verif/seeded/misses.txt'))
except OSError: miss={}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    b=f.split('/')[-2]; m=json.load(open(f))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {'no: '+miss[b] if b in miss else 'yes'} |")
t="<!--table-->\n"+"\n".join(rows)+"\n<!--/table-->"
s=open('/verif/DESIGN.md').read()
s=s.replace('@@TABLE@@',t) if '@@TABLE@@' in s else re.sub(r'<!--table-->.*?<!--/table-->',lambda _:t,s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
