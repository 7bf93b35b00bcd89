"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state, observe, technique, note, level="model_checking", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, note=note, level=level, na=na))


TECH = "explicit-state enumeration of bounded program trees, each run through the real executable and compared with a reference model"
NOTE = ("Exhaustive within the stated grammar and size bounds; programs outside the alphabet or larger than the bound are not covered. "
        "Trusts clang 20 parsing and the Python reference model.")
exec(open(os.path.join(V, "tools", "propdefs.py")).read())

schema_extra = {}
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                        "state": [{"name": x} for x in p["state"]], "observe_at": p["observe"], "hook_needed": "none"}}) + "\n")
M = {"version": 1, "setup_cmd": "python3 mc/build.py",
     "checks": [{"property": p["id"], "quick_cmd": f"python3 mc/check.py {p['id']} quick",
                 "thorough_cmd": f"python3 mc/check.py {p['id']} thorough", "technique": p["technique"], "level": p["level"],
                 "level_note": p["note"], "evidence_file": f"evidence/{p['id']}.json"} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "oclint is built from /repo's working tree by mc/build.py into /verif/.build, cached by content."}
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(M["checks"]), "claimed")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(V + "/properties.jsonl"):
        jsonschema.validate(json.loads(l), s)
    jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("schemas ok")
except ImportError:
    pass
