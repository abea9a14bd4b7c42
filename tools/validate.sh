#!/bin/bash
cd "$(dirname "$0")/.."; python3-vt - <<'PY'
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); assert d['statement'].count('. ')<=2,d['id']
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print('ok')
PY
