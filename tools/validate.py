#!/usr/bin/env python3-vt
import json, os, jsonschema
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/root/.vp/"
m = json.load(open(H + "/MANIFEST.json")); jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
s = json.load(open(S + "PROPERTIES.schema.json"))
ids = []
for l in open(H + "/properties.jsonl"):
    d = json.loads(l); jsonschema.validate(d, s); ids.append(d["id"])
    for f in d["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print("missing", d["id"], f)
e = json.load(open(S + "EVIDENCE.schema.json"))
for c in m["checks"]:
    assert c["property"] in ids
    f = H + "/" + c["evidence_file"]
    if os.path.exists(f): jsonschema.validate(json.load(open(f)), e)
    else: print("no evidence", c["property"])
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
