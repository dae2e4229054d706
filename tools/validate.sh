#!/bin/sh
# validates the committed documents (and evidence, if present) against the schemas
python3-vt - <<'P'
import json, jsonschema, glob
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open('/verif/properties.jsonl'):
    o = json.loads(l); jsonschema.validate(o, s); ids.append(o["id"])
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
assert sorted(ids) == sorted(c["property"] for c in m["checks"]) + sorted(n["property"] for n in m.get("not_applicable", []))
e = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in glob.glob('/verif/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), e)
print("valid:", " ".join(ids))
P
