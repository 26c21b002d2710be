#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from properties.jsonl and the claim list below.
import json
NOTE="Deductive: every obligation generated from the current source is discharged by an SMT solver or the simplifier for all inputs and iterations. Assumes the library models, and sequential execution where no monitor applies; the evidence file lists both."
CLAIMED={}
NA={}
exec(open('/verif/tools/claims.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMED:
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json",
          "technique":"contracts on the Go functions, discharged by a deductive verifier (Go SSA to SMT)","level":"proof","level_note":CLAIMED[i] or NOTE})
    else:
        na.append({"property":i,"reason":NA.get(i,"not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo are needed: contracts are kept in /verif/contracts and are compiled together with /repo's packages on every run."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1);open('/verif/MANIFEST.json','a').write("\n")
