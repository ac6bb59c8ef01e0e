#!/bin/sh
# schema check of the two generated files
cd "$(dirname "$0")/.." && node tools/gen.mjs && python3-vt - <<'P'
import json,jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),sc)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print("valid")
P
