import json
from registry import PROPS, LEVEL, NA
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m={"version":1,"setup_cmd":"python3 setup.py",
 "checks":[{"property":p,"quick_cmd":"python3 check.py %s"%p,"thorough_cmd":"python3 check.py %s --thorough"%p,"evidence_file":"evidence/%s.json"%p,
   "technique":PROPS[p]["technique"],"level":"model_checking","level_note":PROPS[p].get("level_note",LEVEL)} for p in props if p in PROPS],
 "not_applicable":[{"property":p,"reason":NA.get(p,"check not built yet")} for p in props if p not in PROPS]}
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
