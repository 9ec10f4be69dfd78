#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from contracts/props.json and properties.jsonl.
import json
props=json.load(open('/verif/contracts/props.json'))
lst=[json.loads(l) for l in open('/verif/properties.jsonl')]
na=json.load(open('/verif/contracts/not_applicable.json'))
checks=[]
for p in lst:
    i=p['id']
    if i not in props: continue
    c=props[i]
    if c.get('roots'):
        tech="contract-based deductive verification of the real code (own VC generator over /repo's source, SMT-discharged)"
        level="proof"
        note="Every obligation generated from the current source of the functions under contract is discharged for all inputs and iterations. "+c.get('note','')
        note+=" Trusts the VC generator, go/types, the SMT solvers and the assumptions listed in the evidence file; a seeded replay harness supplies failing inputs and is not counted as proof."
    else:
        tech="bounded stand-in (seeded differential harness against an independent oracle)"
        level="exploration"
        note=c.get('note','')
    checks.append({"property":i,"quick_cmd":"./check "+i,"thorough_cmd":"./check -tier thorough "+i,"technique":tech,"level":level,"level_note":note.strip()})
m={"version":1,"setup_cmd":"./setup","checks":checks,
   "not_applicable":[{"property":p['id'],"reason":na.get(p['id'],"no check yet")} for p in lst if p['id'] not in props],
   "notes":"Contracts are in contracts/*.gvs, the verifier in gover/, the replay harnesses in harness/. No hooks are needed in /repo."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks')
