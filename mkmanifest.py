#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json
LV={}
T={}
def c(i,tech,note,level="model_checking"):
    T[i]=dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",technique=tech,level=level,level_note=note)
exec(open('/verif/checks.py').read())
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
na=[dict(property=p,reason=NA.get(p,"check not built yet")) for p in props if p not in T]
m=dict(version=1,setup_cmd="bash setup.sh",hooks=HOOKS,checks=[T[p] for p in props if p in T],not_applicable=na)
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
