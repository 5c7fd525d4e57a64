#!/bin/bash
# validates properties.jsonl and MANIFEST.json against their schemas and checks that anchors exist
cd "$(dirname "$0")/.."; exec python3-vt - <<'P'
import json,jsonschema,os
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    p=json.loads(l); jsonschema.validate(p,s)
    for f in p['anchors']['files']+[m['where'] for m in p['anchors']['mechanism']]: assert os.path.exists('/repo/'+f),f
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')));print('ok')
P
