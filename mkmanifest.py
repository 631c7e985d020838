#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json,os
here=os.path.dirname(os.path.abspath(__file__))
claimed=json.load(open(here+'/claimed.json'))
na=json.load(open(here+'/not_applicable.json'))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
 "notes":"Contract-based deductive verification of the Go source in /repo by /verif/gvc; see DESIGN.md. The contracts are in /verif/spec. There are no hooks in /repo."}
for p in props:
    i=p["id"]
    if i in claimed:
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":"contract-based deductive verification of the Go source (own VC generator over go/ssa, discharged by Z3 and cvc5)",
          "level":"proof","level_note":claimed[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":na[i]})
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
