#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: CLAIMED lists the properties with a check, NA the others with the reason."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,'properties.jsonl'))]
exec(open(os.path.join(here,'tools','claims.py')).read())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        c={"property":i,"quick_cmd":"./run_check "+i,"thorough_cmd":"./run_check -tier thorough "+i,
           "technique":"contract-based deductive verification (contracts on the real functions, VCs from go/ssa of the current source, SMT)",
           "level":"proof","level_note":CLAIMED[i]}
        if i in THEOREMS: c["theorems"]=THEOREMS[i]
        checks.append(c)
    else:
        na.append({"property":i,"reason":NA.get(i,"not claimed yet: contracts under construction")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
   "notes":"Each check loads /repo's current source with go/packages, generates verification conditions from its SSA form and the contracts in /verif/contracts, and discharges them with z3/cvc5. On a failed obligation the replay tests in /verif/replay/<id> look for a failing input on the real code. No hooks are needed in /repo."}
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1)
print(len(checks),'claimed',len(na),'not')
