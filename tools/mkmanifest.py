#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json,re,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
have=set(re.findall(r'(?:checks\[|tree\()"(P\d+)"', "".join(open(here+"/driver/"+f).read() for f in os.listdir(here+"/driver") if f.endswith(".go"))))
notes=json.load(open(here+"/tools/levels.json"))
checks=[]
for p in props:
    i=p["id"]
    if i not in have: continue
    t,l,n=notes[i]
    checks.append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough","technique":t,"level":l,"level_note":n})
m={"version":1,"setup_cmd":"bash setup.sh","hooks":{"guard":"none","enable":"no hooks: the checks use the exported API only","source_commits":[]},
   "checks":checks,"not_applicable":[{"property":p["id"],"reason":"no check registered yet"} for p in props if p["id"] not in have],
   "notes":"TLA+ specification in spec/, conformance driver in driver/, see DESIGN.md."}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1); open(here+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks")
