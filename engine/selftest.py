"""Translator validation: the repository's own unit tests, run through the transpiled code."""
import io
import json
import os
import sys
import tempfile
import time
import traceback
import unittest

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import py2
import sources


def run(repo="/repo", verbose=False):
    t0 = time.time()
    items = sources.modules(repo, tests=True)
    with tempfile.TemporaryDirectory() as d:
        asts = py2.dump_asts(items, d)
    w = py2.World(asts)
    ut = unittest
    ut.TestCase.assertItemsEqual = ut.TestCase.assertCountEqual
    py2.PASS.add("unittest")
    py2.PASS.add("pkg_resources")
    class _W(py2.StringIO):
        def close(self):
            with open(self.path, "wb") as f:
                f.write(self.getvalue().encode("latin-1"))

    def _open(path, mode="r", *a):
        if "w" in mode:
            r = _W()
            r.path = path
            return r
        with open(path, "rb") as f:
            return py2.StringIO(f.read().decode("latin-1"))
    w.builtins["open"] = _open
    passed, failed = [], {}
    ids = json.load(open("/opt/vp/BASELINE.json")) if os.path.exists("/opt/vp/BASELINE.json") else None
    for name in sorted(w.code):
        if ".tests.test_" not in name:
            continue
        try:
            m = w.load(name)
        except Exception:
            failed[name] = traceback.format_exc()
            continue
        for cn, c in sorted(vars(m).items()):
            if isinstance(c, type) and issubclass(c, unittest.TestCase) and c.__module__ == name:
                for tn in unittest.TestLoader().getTestCaseNames(c):
                    r = unittest.TestResult()
                    c(tn).run(r)
                    tid = "%s.%s.%s" % (name, cn, tn)
                    if r.wasSuccessful():
                        passed.append(tid)
                    else:
                        failed[tid] = (r.failures + r.errors)[0][1]
    return passed, failed, time.time() - t0


if __name__ == "__main__":
    p, f, t = run()
    for k, v in sorted(f.items()):
        print("FAIL", k)
        if "-v" in sys.argv:
            print(v)
    print("passed %d failed %d in %.1fs" % (len(p), len(f), t))
