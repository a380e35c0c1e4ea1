#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks registered below and properties.jsonl."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
notes=json.load(open(here+'/tools/checks.json'))
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in notes:
        checks.append({"property":i,"quick_cmd":"bash check.sh %s quick"%i,"thorough_cmd":"bash check.sh %s thorough"%i,
          "technique":notes[i][0],"level":"model_checking","level_note":notes[i][1]})
    else:
        na.append({"property":i,"reason":"the check is not built yet"})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks: every check drives the public API (or the cmd/generate program) of /repo's working tree."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
try:
    import jsonschema; jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print(len(checks),'checks',len(na),'not claimed')
