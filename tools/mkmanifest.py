#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present and the list of properties that are not decided."""
import json, os, re, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
NA=json.load(open(os.path.join(V,"tools","not_applicable.json")))
checks=[]; na=[]
for p in props:
    i=p["id"]; f=os.path.join(V,"checks",i.lower()+".py")
    if os.path.exists(f):
        src=open(f).read(); doc=" ".join(re.match(r'\s*"""(.*?)"""',src,re.S).group(1).split())
        m=re.search(r'^TECHNIQUE="(.*)"$',src,re.M)
        checks.append({"property":i,"quick_cmd":"bash /verif/check.sh %s"%i,"thorough_cmd":"bash /verif/check.sh %s thorough"%i,
          "technique":m.group(1) if m else "static analysis: path-sensitive dataflow rules on the compiler's MIR of all reachable functions (custom rustc driver)",
          "level":"other","level_note":doc,"evidence_file":"evidence/%s.json"%i})
    else: na.append({"property":i,"reason":NA.get(i,"no check yet; the rules are being written")})
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":checks,"not_applicable":na,
   "notes":"Every check re-exports the MIR of /repo's working tree when any source file changed and decides by static rules; see DESIGN.md. Known findings: known-findings.txt."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False); print(len(checks),"checks",len(na),"not applicable")
