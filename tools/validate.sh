#!/bin/bash
python3-vt - <<'PY'
import json,jsonschema
s=json.load(open('/root/.vp/MANIFEST.schema.json'));jsonschema.validate(json.load(open('/verif/MANIFEST.json')),s)
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
print("ok")
PY
