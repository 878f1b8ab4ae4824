#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed properties
import json,os,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl") if l.strip()]
exec(open(here+"/tools/claims.py").read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":"symbolic execution of the real go/ssa code, property decided by SMT (z3, cross-checked with cvc5), counterexamples replayed natively",
          "level":"model_checking","level_note":CLAIMED[i]+" Holds for every value within the stated bounds; trusts the SSA interpreter (compared with native runs of solver models on every run) and the environment model (shims)."})
    else:
        na.append({"property":i,"reason":NOT_APPLICABLE.get(i,"no check yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
  "notes":"No hooks in /repo: harnesses and environment models are added with go build overlays."},open(here+"/MANIFEST.json","w"),indent=1)
