"""replay_one.py FILE: runs a recorded counterexample against the real code under Jython; exit 1 if it still fails"""
import json
import os
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

j = json.load(open(sys.argv[1]))
with tempfile.TemporaryDirectory() as d:
    res, err = check.jython_jobs([{"module": j["module"], "harness": j["harness"], "inputs": j["inputs"]}],
                                 sys.argv[2] if len(sys.argv) > 2 else "/repo", os.path.join(check.VERIF, "harness"), d, 90)
print(json.dumps(res, indent=1), err)
sys.exit(0 if res and res[0]["outcome"] in ("ok", "assume") else 1)
