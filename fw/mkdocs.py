#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from fw/props_src.py and fw/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "fw")); sys.dont_write_bytecode = True
from props_src import PROPS, NOT_APPLICABLE
from specs import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS):
        d = dict(PROPS[p]); d.pop("note"); assert len(d["title"]) <= 80, (p, len(d["title"]))
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="python3 run.py setup", checks=[], not_applicable=[])
for p in sorted(PROPS):
    if p in NOT_APPLICABLE:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE[p]))
    else:
        c = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py check %s --tier quick" % p, thorough_cmd="python3 run.py check %s --tier thorough" % p, technique=c["technique"], level=c["level"], level_note=PROPS[p]["note"]))
missing = set(CHECKS) - set(PROPS)
assert not missing, missing
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(l), sch)
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
# DESIGN.md
t = open(os.path.join(V, "fw/DESIGN.tmpl")).read()
o = ""
for p in sorted(PROPS):
    d = PROPS[p]
    o += "### %s %s\n\n" % (p, d["title"])
    if p in NOT_APPLICABLE:
        o += "Not applicable: %s\n\n" % NOT_APPLICABLE[p]; continue
    o += "%s.\n%s\nReaches what tests cannot: %s\n\n" % (CHECKS[p]["technique"][0].upper() + CHECKS[p]["technique"][1:], d["note"], d["why_tests_cant"])
    for part in CHECKS[p]["parts"]:
        f = lambda c: "; ".join(" ".join("%s=%s" % kv for kv in x.items()) for x in c) if isinstance(c, list) else " ".join("%s=%s" % kv for kv in c.items())
        o += "* `%s` – %s. Quick: %s. Thorough: %s.\n" % (part["harness"], part["bound"], f(part["quick"]), f(part["thorough"]))
    o += "\n"
s = ""
sd = os.path.join(V, "seeded")
res = {}
rf = os.path.join(V, "fw/seed_results.json")
if os.path.exists(rf): res = json.load(open(rf))
s = "| change | property | needs | caught by |\n|---|---|---|---|\n"
for x in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, x, "meta.json")))
    s += "| %s | %s | %s | %s |\n" % (x, m["property"], m["needs"], ", ".join(res.get(x, [])) or "-")
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@PROPS@\n", o).replace("@SEEDS@\n", s))
