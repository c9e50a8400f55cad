#!/opt/veriftools/pyvenv/bin/python
# Validates properties.jsonl and MANIFEST.json against their schemas (by hand).
import json, jsonschema
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = set()
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); jsonschema.validate(p, s); ids.add(p["id"])
m = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
got = {c["property"] for c in m["checks"]} | {c["property"] for c in m["not_applicable"]}
print("ok" if got == ids else ("mismatch", got ^ ids), len(ids))
