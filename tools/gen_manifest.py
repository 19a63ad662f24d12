#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table of claimed checks."""
import json
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl')]
NOTE={
 "default":("explicit-state enumeration of model histories, each replayed on the implementation",
   "model_checking",
   "Exhaustive within the stated alphabets and depths; every enumerated run is executed on code built from /repo's working tree and compared with an independent reference model. Trusts yaml.v3 (parsing the outputs) and the Go toolchain."),
}
CLAIMED=json.load(open(V+'tools/claimed.json'))
m={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[],
   "notes":"Each check builds the tool and the harness from /repo's current working tree into a scratch directory (go build -overlay; no hooks in /repo)."}
for p in props:
    i=p['id']
    if i in CLAIMED:
        t,l,n=NOTE['default']
        c=CLAIMED[i] or {}
        m['checks'].append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
          "technique":c.get('technique',t),"level":c.get('level',l),"level_note":c.get('note',n)})
    else:
        m['not_applicable'].append({"property":i,"reason":"check not built yet"})
json.dump(m,open(V+'MANIFEST.json','w'),indent=1); open(V+'MANIFEST.json','a').write('\n')
