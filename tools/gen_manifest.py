#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; properties without an entry are not_applicable and need a reason."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS={}
NA={}
exec(open(os.path.join(here,"tools","manifest_table.py")).read())
props=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
m={"version":1,
"setup_cmd":"./setup.sh",
"checks":[],"not_applicable":[],
"notes":"One Go program (/verif/tool) loads /repo's packages with go/packages, lowers them to go/ssa and decides every claimed property from that representation on each run; see DESIGN.md. No hooks are needed in /repo."}
for p in props:
    if p in CHECKS:
        t,n=CHECKS[p]
        m["checks"].append({"property":p,"quick_cmd":f"./check.sh {p}","thorough_cmd":f"./check.sh {p} -tier thorough","technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":p,"reason":NA[p]})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"n/a")
