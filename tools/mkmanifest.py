#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json,os,sys
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0,H)
import checks
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
NA={}
checks_=[]
for p in props:
    i=p["id"]
    if i in NA: continue
    P=checks.PROPS[i]
    checks_.append({"property":i,"quick_cmd":"python3 check.py %s --tier quick"%i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,
      "technique":"symbolic execution of the compiled code (LLVM IR) with z3, "+P.get("oracle","against a reference model"),
      "level":"model_checking",
      "level_note":"Every path of the real code over the symbolic inputs is explored and decided by the solver within the bounds; nothing is claimed outside them. Bounds: "+P["bounds"]+" Outside: "+P.get("outside","")+". Trusted: rustc to LLVM IR, the engine (sampled paths are re-run natively and must agree), z3, the reference model."})
m={"version":1,"setup_cmd":"python3 check.py --setup","checks":checks_,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items() if not any(c["property"]==k for c in checks_)],
 "notes":"No hooks in /repo: everything is reached through its public API. The engine is in engine/, the harnesses and reference models in harness/, bounds in checks.py, defects in known_findings.json."}
json.dump(m,open(H+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
print(len(checks_))
