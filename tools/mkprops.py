#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development tool)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import props

ALL = []
def P(id, title, statement, over, text, why, files, mechanism, state=(), technique=None, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mechanism))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    ALL.append((d, technique, note))

exec(open(os.path.join(HERE, "tools", "properties.py")).read())

schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
try:
    import jsonschema
    for d, _, _ in ALL:
        jsonschema.validate(d, schema)
except ImportError:
    pass
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d, _, _ in ALL:
        f.write(json.dumps(d) + "\n")

TECH = "TLA+ specification checked with TLC; real histories checked against it (trace validation)"
checks, na = [], []
for d, tech, note in ALL:
    i = d["id"]
    if i in props.PROPS:
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech or TECH, level=props.PROPS[i]["level"],
                           level_note=note or LEVEL_NOTE))
    else:
        na.append(dict(property=i, reason=NA[i]))
m = dict(version=1, setup_cmd="python3 bin/check.py --build", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not applicable")
