#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the checker's registry
import json, subprocess, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=subprocess.run([here+"/bin/checker","list"],capture_output=True,text=True).stdout.split()
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
tech=json.load(open(here+"/tools/techniques.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in ids:
        t=tech.get(i,{})
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,
          "technique":t.get("technique","static analysis: guarded value-flow summaries over go/ssa checked against rule tables"),
          "level":"other","level_note":t.get("note","Static rules decide the clauses listed in the evidence file on the current source; clauses not listed there are not covered.")})
    else:
        na.append({"property":i,"reason":tech.get(i,{}).get("reason","not built yet")})
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"All checks are static: they load /repo with go/packages, build go/ssa and decide rules on it; nothing of /repo is executed."},
 open(here+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
