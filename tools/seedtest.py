"""seedtest.py [ID...] [--nocheck]: tries each planted change in a scratch copy of /repo (tests, demonstration, check)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    return p.returncode, p.stdout


def failed_tests(copy, tmp):
    t = open("/opt/vp/jy_tests.py").read().replace('"/repo/src"', repr(os.path.join(copy, "src")))
    open(os.path.join(tmp, "t.py"), "w").write(t)
    log = os.path.join(tmp, "log")
    sh("jython -B %s/t.py %s" % (tmp, log), cwd=tmp)
    ok = set(l.split()[1] for l in open(log) if l.startswith("PASS "))
    bad = set(l.split()[1] for l in open(log) if l.startswith("FAIL "))
    return sorted(STABLE - (ok - bad))


def original_lines(d):
    """every removed line was in the first commit"""
    out = []
    cur = None
    for l in open(os.path.join(d, "patch.diff")):
        if l.startswith("--- "):
            cur = l.split()[1][2:]
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
            continue
        if l.startswith("-") and not l.startswith("---"):
            rc, b = sh("git blame -s -L %d,%d -- %s" % (n, n, cur), "/repo")
            base = sh("git rev-list --max-parents=0 HEAD", "/repo")[1][:7]
            if base not in b:
                out.append("%s:%d" % (cur, n))
            n += 1
        elif l.startswith(" "):
            n += 1
    return out


def one(i, check):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        dd = os.path.join(tmp, "demo")
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = []
        rc, out = sh("bash %s/demo.sh" % dd, copy, 300)
        if rc:
            r.append("DEMO FAILS UNCHANGED " + out[-300:])
        rc, out = sh("git apply %s/patch.diff" % d, copy)
        if rc:
            r.append("PATCH DOES NOT APPLY " + out[-300:])
            return r
        o = original_lines(d)
        if o:
            r.append("NOT ORIGINAL LINES %s" % o)
        rc, out = sh("bash %s/demo.sh" % dd, copy, 300)
        if rc == 0:
            r.append("DEMO PASSES CHANGED")
        f = failed_tests(copy, tmp)
        if f:
            r.append("TESTS FAIL %s" % f[:4])
        if check:
            t = time.time()
            rc, out = sh("python3-vt %s/engine/check.py %s --repo %s --no-evidence" % (ROOT, meta["property"], copy))
            v = [l for l in out.splitlines() if "VIOLATION" in l]
            r.append("%s rc=%d %.0fs %s" % ("caught" if rc == 1 and v else "MISSED", rc, time.time() - t, (v or [out[-300:]])[0][:200]))
        return r
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(SEEDED))
    for i in ids:
        print(i, "|", "; ".join(one(i, "--nocheck" not in sys.argv)), flush=True)
