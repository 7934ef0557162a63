"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POLY = ["src/bgem/polygons/polygons.py", "src/bgem/polygons/decomp.py", "src/bgem/polygons/point.py",
        "src/bgem/polygons/segment.py", "src/bgem/polygons/polygon.py"]
P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, note=note, observe=list(observe)))


exec(open(os.path.join(V, "tools", "props.py")).read())

TECH = "symbolic execution of the current source with an SMT solver (z3), counterexamples replayed on the real code"
BASE = ("Holds for every value of the symbolic inputs within the bounds of the jobs listed in the evidence file (templates, "
        "boxes, operation counts); nothing is claimed outside. Numbers are exact reals in the encoding, floating-point "
        "rounding is covered only by replay of counterexamples and of sampled path models. Trusted: z3, the numpy stand-ins "
        "of symx/shim.py (cross-checked by replayed witnesses) and the oracle in harness/. ")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")

checks = [p for p in P if p["note"] is not None]
m = {
    "version": 1,
    "setup_cmd": "./check --self-test",
    "checks": [{"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking",
                "level_note": BASE + p["note"]} for p in checks],
    "not_applicable": NOT_APPLICABLE,
    "notes": "No hooks in /repo. The checks execute /repo's working tree source directly (pure Python); known_findings.json lists "
             "recorded and repaired defects.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
for line in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(line), json.load(open("/root/.vp/PROPERTIES.schema.json")))
ids = [p["id"] for p in P] + []
assert len(set(ids)) == len(ids)
for p in checks:
    assert os.path.exists(os.path.join(V, "harness", p["id"].lower() + ".py")), p["id"]
    assert len(p["title"]) <= 80, p["title"]
for n in m["not_applicable"]:
    assert n["property"] in ids
print(len(P), "properties,", len(checks), "checks")
