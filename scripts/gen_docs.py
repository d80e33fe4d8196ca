"""writes properties.jsonl and MANIFEST.json from props_data.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props_data as D

lines, checks, na = [], [], []
for p in D.PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
    if p["state"]:
        a["state"] = p["state"]
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), f
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                             "why_tests_cant": p["why"], "anchors": a}))
    if p["technique"] is None:
        na.append({"property": p["id"], "reason": p["note"]})
        continue
    assert os.path.exists(V + "/lib/props/%s.py" % p["id"].lower()), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3-vt lib/run.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3-vt lib/run.py %s" % p["id"],
                   "technique": "static analysis: " + p["technique"], "level": p["level"], "level_note": p["note"]})
open(V + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt lib/facts.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
import jsonschema  # python3-vt
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in lines:
    jsonschema.validate(json.loads(l), sch)
print(len(checks), "checks,", len(na), "not applicable")
