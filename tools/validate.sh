#!/bin/sh
cd "$(dirname "$0")/.." && python3 tools/gen.py && python3-vt - <<'P'
import json,jsonschema,glob
ld=lambda f: json.load(open(f))
jsonschema.validate(ld('MANIFEST.json'),ld('/root/.vp/MANIFEST.schema.json'))
S=ld('/root/.vp/PROPERTIES.schema.json')
for l in open('properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,S); assert len(p['title'])<=80,p['title']
for f in glob.glob('evidence/*.json'): jsonschema.validate(ld(f),ld('/root/.vp/EVIDENCE.schema.json'))
print('valid')
P
