#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Claimed checks are those in CLAIMS; all others are not_applicable."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
CLAIMS=json.load(open('/verif/tools/claims.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in CLAIMS['claims']:
        c=CLAIMS['claims'][i]
        checks.append({"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough",
          "evidence_file":f"evidence/{i}.json","technique":c['technique'],"level":"exploration","level_note":c['note']})
    else:
        na.append({"property":i,"reason":CLAIMS['na'].get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,"notes":CLAIMS['notes']}
if CLAIMS.get('hooks'): m['hooks']=CLAIMS['hooks']
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
