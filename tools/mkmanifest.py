import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
from levels import LEVELS
checks=[]
for i in ids:
    lv,tech,note=LEVELS[i]
    checks.append({"property":i,"quick_cmd":"python3 run.py %s quick"%i,"thorough_cmd":"python3 run.py %s thorough"%i,"technique":tech,"level":lv,"level_note":note})
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":[]},open(V+'/MANIFEST.json','w'),indent=1)
