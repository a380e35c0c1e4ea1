#!/usr/bin/env python3
"""Writes the table of DESIGN.md, section 6, from seeded/*/meta.json."""
import json,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
rows=[]
for i in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(f'{root}/seeded/{i}/meta.json'))
    c=lambda s:s.replace('|','\\|').replace('\n',' ')
    rows.append(f"| {i} | {m['property']} | {c(m['needs'])} |")
d=open(root+'/DESIGN.md').read()
i=d.index('| bug | property and check | needs |')
open(root+'/DESIGN.md','w').write(d[:i]+'| bug | property and check | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n')
