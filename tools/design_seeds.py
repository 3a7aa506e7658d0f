#!/usr/bin/env python3
# lists the planted bugs for DESIGN.md (between the markers)
import json,os,re
base='/verif/seeded'; out=[]
for d in sorted(os.listdir(base)):
    m=json.load(open(f'{base}/{d}/meta.json'))
    out.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
t='<!-- seeds -->\n| planted bug | caught by | what it breaks |\n|---|---|---|\n'+'\n'.join(out)+'\n<!-- end seeds -->'
p='/verif/DESIGN.md'; s=open(p).read()
if '@@SEEDS@@' in s: s=s.replace('@@SEEDS@@',t)
else: s=re.sub(r'<!-- seeds -->.*<!-- end seeds -->',lambda _:t,s,flags=re.S)
open(p,'w').write(s)
