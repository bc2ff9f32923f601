#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L=[]
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    n=m['needs']; L.append(f"- {d}: caught by {m['property']}. Needs {n[0].lower()+n[1:] if n[1:2].islower() else n}.")
t=open(V+'/DESIGN.md').read()
t=re.sub(r'(\n- s01-.*)\Z','\n'+'\n'.join(L).replace('\\','\\\\')+'\n',t,flags=re.S)
open(V+'/DESIGN.md','w').write(t)
