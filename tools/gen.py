"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the harness files."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P

TECH = "symbolic execution of the current Python sources, path conditions and assertions decided by z3, counterexamples replayed under Jython"
NOTE = ("Every path of the harness through the real code within the stated bounds is explored: z3 either shows each assertion and each unexplored branch side "
        "unsatisfiable or yields inputs, which are run. Trusts z3, Jython's parser and the instrumentation (checked by the repository's tests run through it and by "
        "re-running explored paths on Jython). Nothing is claimed outside the bounds listed in the evidence.")

props = []
checks = []
na = []
for p in P:
    d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
         "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}
    if p["observe"]:
        d["anchors"]["observe_at"] = p["observe"]
    props.append(d)
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(os.path.join(ROOT, "harness", "h_%s.py" % p["id"])), p["id"]
    checks.append({"property": p["id"], "quick_cmd": "python3-vt engine/check.py %s" % p["id"],
                   "thorough_cmd": "python3-vt engine/check.py %s --tier thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "other",
                   "level_note": (p["note"] + " " if p["note"] else "") + NOTE})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d in props:
        f.write(json.dumps(d, sort_keys=False) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt engine/selftest_sym.py && python3-vt engine/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "Solver-based checking: see DESIGN.md. No hooks in /repo are needed."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in props:
    jsonschema.validate(d, s)
print(len(props), "properties", len(checks), "checks", len(na), "not applicable")
