#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the list of claimed checks"""
import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
claimed=json.load(open('tools/claimed.json'))
props=[json.loads(l) for l in open('properties.jsonl')]
checks=[];na=[]
for p in props:
    i=p['id']
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"VERIF_TIER=quick ./run.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./run.sh {i}",
          "evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection: seeded search over schedules and faults",
          "level":"exploration","level_note":claimed[i]})
    elif i>='C40':
        na.append({"property":i,"reason":"pure function of its inputs: no concurrency, time, I/O, randomness of the system or further party takes part, so a simulator has nothing to schedule or fail (deterministic simulation cannot decide it)"})
    else:
        na.append({"property":i,"reason":"simulation scenario not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"no hooks in /repo: all seams are link-time wraps, instrumentation and stub headers in /verif","source_commits":[]},"checks":checks,"not_applicable":na,
 "notes":"see DESIGN.md; known_findings.txt lists repaired defects"}
json.dump(m,open('MANIFEST.json','w'),indent=1)
open('MANIFEST.json','a').write('\n')
