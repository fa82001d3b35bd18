#!/bin/sh
# Regenerates properties.jsonl and MANIFEST.json from props.py and checks.py.
cd "$(dirname "$0")" && python3 props.py && python3 genmanifest.py && python3-vt - <<'P'
import json, jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l), s)
jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
for c in json.load(open("MANIFEST.json"))["checks"]:
    try: e = json.load(open(c["evidence_file"]))
    except OSError: continue
    jsonschema.validate(e, json.load(open("/root/.vp/EVIDENCE.schema.json")))
P
