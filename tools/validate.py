import json, sys
sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema, glob
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    jsonschema.validate(p, s)
    if p['statement'].count('. ') > 2: print('too many sentences', p['id'])
jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in glob.glob('/verif/evidence/C*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('valid')
