"""mkseed.py FILE: FILE defines SEEDS, a list of (id, property, [(file, old, new)], demo, needs, breaks); writes seeded/<id>/."""
import difflib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """import os
import sys
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
sys.dont_write_bytecode = True


def check(cond, msg):
    if not cond:
        print("FAILED: " + str(msg))
        sys.exit(1)


"""
ns = {}
exec(open(sys.argv[1]).read(), ns)
for i, prop, edits, demo, needs, breaks in ns["SEEDS"]:
    d = os.path.join(ROOT, "seeded", i)
    os.makedirs(d, exist_ok=True)
    diff = ""
    files = {}
    for f, old, new in edits:
        s = files.setdefault(f, [open("/repo/src/" + f).read()] * 2)
        assert s[1].count(old) == 1, (i, f, old, s[1].count(old))
        files[f] = [s[0], s[1].replace(old, new)]
    for f, (a, b) in sorted(files.items()):
        p = "src/" + f
        diff += "diff --git a/%s b/%s\n" % (p, p)
        diff += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + p, "b/" + p))
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# exit 0: the property holds here\nexec jython -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(i)
