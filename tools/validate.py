#!/usr/bin/env python3-vt
import json, jsonschema, os, sys, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
ids = []
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); jsonschema.validate(d, s); assert len(d["title"]) <= 80, d["id"]; ids.append(d["id"])
    for f in d["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print(d["id"], f)
if os.path.exists(V + "/MANIFEST.json"):
    m = json.load(open(V + "/MANIFEST.json")); jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    got = [c["property"] for c in m["checks"]] + [c["property"] for c in m.get("not_applicable", [])]
    print("unlisted:", set(ids) - set(got), set(got) - set(ids))
e = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for f in glob.glob(V + "/evidence/*.json"): jsonschema.validate(json.load(open(f)), e)
print("ok", len(ids))
