"""Validates the generated files (python3-vt tools/valid.py)."""
import json, os, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    d = json.loads(l); jsonschema.validate(d, s)
    for f in d['anchors']['files'] + [m['where'] for m in d['anchors']['mechanism']]:
        if not os.path.exists('/repo/' + f): print(d['id'], f)
    if d['statement'].count('. ') > 2: print(d['id'], 'more than three sentences')
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
