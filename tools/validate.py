import json,jsonschema
for d,s in (('/verif/MANIFEST.json','/root/.vp/MANIFEST.schema.json'),):
    jsonschema.validate(json.load(open(d)),json.load(open(s)))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
import glob
s=json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/C*.json'): jsonschema.validate(json.load(open(f)),s)
print('ok')
