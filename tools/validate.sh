#!/bin/bash
# validates properties, manifest and evidence against the schemas (development aid)
python3-vt -c "
import json,jsonschema,glob
m=json.load(open('/verif/MANIFEST.json')); jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),json.load(open('/root/.vp/PROPERTIES.schema.json')))
for f in glob.glob('/verif/evidence/P??.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('schemas ok')"
