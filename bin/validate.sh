#!/bin/bash
cd "$(dirname "$0")/.." && python3-vt -c "
import json,jsonschema,glob
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),json.load(open('/root/.vp/PROPERTIES.schema.json')))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('valid')"
