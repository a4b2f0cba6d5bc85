"""writes MANIFEST.json from properties.jsonl and the table below (dev tool)"""
import json, sys
from collections import OrderedDict
NOTE = {}
LEVEL = {}
exec(open('/verif/tools/levels.py').read())
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIM:
        lev, tech, note = CLAIM[i]
        checks.append(OrderedDict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                      technique=tech, level=lev, level_note=note))
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = OrderedDict(version=1, setup_cmd='./setup', checks=checks, not_applicable=na)
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print([c['property'] for c in checks])
