#!/bin/bash
# validates the committed JSON and the evidence files against the schemas
python3-vt - <<'P'
import json,jsonschema,glob
S='/root/.vp/'
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open(S+'MANIFEST.schema.json')))
e=json.load(open(S+'EVIDENCE.schema.json'))
for f in sorted(glob.glob('/verif/evidence/*.json')): jsonschema.validate(json.load(open(f)),e)
p=json.load(open(S+'PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),p)
print('valid')
P
