#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json,glob,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| id | caught by | needs | breaks |','|----|-----------|-------|--------|']
for f in sorted(glob.glob(here+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
s=open(here+'/DESIGN.md').read()
a,b='<!-- planted -->','<!-- /planted -->'
i,j=s.index(a),s.index(b)
open(here+'/DESIGN.md','w').write(s[:i+len(a)]+'\n'+'\n'.join(rows)+'\n'+s[j:])
