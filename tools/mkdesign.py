#!/usr/bin/env python3
# Assembles /verif/DESIGN.md from tools/design_head.md, the known-findings file, the planted bugs and tools/design_tail.md.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=open(V+'/tools/design_head.md').read()
out+="| property | commit | what failed |\n|---|---|---|\n"
for l in open(V+'/known-findings.txt'):
    if l.startswith('fixed:'):
        _,p,c,w=l.split(' ',3); out+=f"| {p.split('=')[1]} | {c} | {w.strip()} |\n"
out+="\n## Planted bugs\n\nEach lies in `seeded/<id>/` (patch, demonstration, meta). `caught` names the checks (quick tier, seed 1) seen to report it; the first is the property it was written against.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n"
caught=json.load(open(V+'/tools/caught.json'))
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    out+=f"| {d} | {m['property']} | {m['needs']} | {caught.get(d,m['property'])} |\n"
out+="\n"+open(V+'/tools/design_tail.md').read()
open(V+'/DESIGN.md','w').write(out)
