#!/usr/bin/env python3
# writes MANIFEST.json from the table below and properties.jsonl
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
ids=[json.loads(l)["id"] for l in open("properties.jsonl")]
exec(open("tools/claims.py").read())
checks=[{"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":CLAIMS[i][0],"level":"other","level_note":CLAIMS[i][1]} for i in ids if i in CLAIMS]
na=[{"property":i,"reason":NA.get(i,"no check built yet")} for i in ids if i not in CLAIMS]
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
"notes":"Static analysis of /repo's current source (go/ssa); no code of /repo is run. known_findings.txt lists the repaired defects."}
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
