#!/bin/bash
# regenerate properties.jsonl and MANIFEST.json and validate them
cd "$(dirname "$0")/.." && python3 tools/gen.py && python3-vt - <<'P'
import json, jsonschema
ps = [json.loads(l) for l in open('properties.jsonl')]
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in ps:
    jsonschema.validate(p, sch)
jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(ps), "properties")
P
