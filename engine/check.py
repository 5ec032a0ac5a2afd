"""
check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--repo /repo]

Decides one property: transpiles /repo's current sources and the property's harness, explores every harness
symbolically, replays counterexamples on the real code under Jython, and writes evidence/<PROPERTY>.json.

exit 0: held on everything explored (KNOWN-FINDING lines for listed findings); exit 1: VIOLATION line;
exit 2: inconclusive (budget, solver unknown, unsupported operation); exit 3: engine or translator mismatch.
"""
import argparse
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import py2
import sources
import explore


def jython_jobs(jobs, repo, hdir, work, timeout=300):
    jp = os.path.join(work, "jobs.json")
    op = os.path.join(work, "out.json")
    if os.path.exists(op):
        os.unlink(op)
    with open(jp, "w") as f:
        json.dump(jobs, f)
    try:
        p = subprocess.run(["jython", "-B", os.path.join(HERE, "replay.py"), os.path.join(repo, "src"), hdir, jp, op],
                           env=py2.jython_env(), timeout=timeout, stdin=subprocess.DEVNULL, capture_output=True, text=True)
        err = p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        err = "timeout"
    res = []
    if os.path.exists(op):
        with open(op) as f:
            res = json.load(f)
    return res, err


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--nproc", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rnd = random.Random(seed)
    prop = a.prop
    hdir = os.path.join(VERIF, "harness")
    hmod = "h_" + prop
    # leftovers of compiled Python 2 classes would shadow the sources
    work = tempfile.mkdtemp(prefix="vc_")
    try:
        return run(a, t0, seed, rnd, prop, hdir, hmod, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(a, t0, seed, rnd, prop, hdir, hmod, work):
    items = sources.modules(a.repo)
    hitems = [(f[:-3], os.path.join(hdir, f)) for f in sorted(os.listdir(hdir)) if f.endswith(".py") and (not f.startswith("h_") or f == hmod + ".py")]
    asts = py2.dump_asts(items + hitems, work)
    world = py2.World(asts)
    if world.errors:
        print("ERROR: cannot parse: %r" % (world.errors,))
        return 3
    t_load = time.time()
    hm = world.load(hmod)
    for n, _p in items:
        nm = n[:-len(".__init__")] if n.endswith(".__init__") else n
        if nm.startswith("pycalendar") and nm in getattr(hm, "PRELOAD", ()):
            world.load(nm)
    # everything imported lazily by the code under test is loaded now, so that no path sees a first import
    for nm in list(world.code):
        if nm.startswith("pycalendar") and not nm.endswith(("instances", "validator")):
            world.load(nm)
    tier = a.tier
    hs = []
    for h in hm.HARNESSES:
        opts = h[3] if len(h) > 3 else {}
        if a.only and a.only not in h[0]:
            continue
        if opts.get("tier") == "known":
            continue
        if tier == "quick" and opts.get("tier", "quick") == "thorough":
            continue
        if tier == "thorough" and opts.get("tier", "quick") == "quickonly":
            continue
        hs.append((h[0], h[1], dict(h[2].items()), dict(opts.items())))
    budget = a.budget or (float(os.environ.get("VERIF_BUDGET", "0")) or (660 if tier == "quick" else 6 * 3600))
    deadline = t0 + budget
    cfg = {"z3_timeout_ms": 60000, "path_time": getattr(hm, "PATH_TIME", 30)}
    ex = explore.Explorer(world, hs, cfg, a.nproc)
    confirmed = []
    unreproduced = []

    def on_violation(hi, out, msg, inputs):
        if a.no_replay:
            confirmed.append((hi, out, msg, inputs, {}))
            print("candidate", hs[hi][0], out, msg, inputs)
            return False
        jobs = [{"module": hmod, "harness": hs[hi][0], "inputs": inputs}]
        res, err = jython_jobs(jobs, a.repo, hdir, work, timeout=90)
        if not res:
            if out == "limit" and err == "timeout":
                confirmed.append((hi, out, "does not terminate: " + msg, inputs, {}))
                return True
            unreproduced.append((hi, out, msg, inputs, "no result: " + err))
            return False
        r = res[0]
        if r["outcome"] in ("fail", "exc"):
            confirmed.append((hi, out, msg, inputs, r))
            return True
        if out == "limit":
            ex.problems.append((hi, "limit", msg, inputs))
            return False
        unreproduced.append((hi, out, msg, inputs, r))
        return False

    ex.run(deadline, on_violation)
    t_explore = time.time()

    # -- known findings, and agreement of the translation with the real code on explored paths
    validated = mism = 0
    known = load_known(prop)
    kn_lines = []
    if not confirmed and not a.no_replay:
        jobs = []
        expect = []
        for hi, h in enumerate(hs):
            sm = ex.stats[hi]["samples"]
            k = min(len(sm), 6 if tier == "quick" else 40)
            for inp, obs in (rnd.sample(sm, k) if k else []):
                jobs.append({"module": hmod, "harness": h[0], "inputs": inp})
                expect.append((hi, inp, obs))
        njobs = len(jobs)
        for k in known:
            jobs.append({"module": hmod, "harness": k["harness"], "inputs": k["inputs"]})
        if jobs:
            res, err = jython_jobs(jobs, a.repo, hdir, work, timeout=400)
            if len(res) < len(jobs):
                print("ERROR: replay stopped early (%d of %d): %s" % (len(res), len(jobs), err))
                return 3
            for (hi, inp, obs), r in zip(expect, res[:njobs]):
                validated += 1
                if r["outcome"] == "fail" or r["outcome"] == "exc":
                    # the real code fails where the model passed: believe the real code
                    confirmed.append((hi, r["outcome"], r["msg"], inp, r))
                elif r["outcome"] != "ok" or norm(r["observed"]) != norm(obs):
                    mism += 1
                    print("MISMATCH harness=%s inputs=%r\n  model=%r\n  real =%r %r" % (hs[hi][0], inp, norm(obs), r["outcome"], norm(r["observed"])))
            for k, r in zip(known, res[njobs:]):
                if r["outcome"] in ("fail", "exc"):
                    kn_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    # -- evidence
    tot = explore.newstats()
    per = []
    for hi, h in enumerate(hs):
        explore.merge(tot, ex.stats[hi])
        s = ex.stats[hi]
        per.append({"harness": h[0], "bounds": h[3].get("bounds", ""), "paths": s["paths"], "abstract_unsat": s["abstract"], "completed": s["completed"], "assumed_away": s["pruned"],
                    "queries": s["queries"], "unsat": s["unsat"], "sat": s["sat"], "cached": s["cached"], "solver_s": round(s["solver_s"], 2),
                    "assertions": s["checks"], "symbolic_assertions": s["symchecks"], "paths_reaching_assertion": s["checked_paths"],
                    "max_path_literals": s["maxdepth"], "exhausted": hi not in ex.incomplete})
        if a.v:
            print("  %-24s paths %d (done %d, assumed away %d) queries %d unsat %d sat %d solver %.1fs checks %d sym %d depth %d%s" % (
                h[0], s["paths"], s["completed"], s["pruned"], s["queries"], s["unsat"], s["sat"], s["solver_s"], s["checks"], s["symchecks"], s["maxdepth"],
                "" if hi not in ex.incomplete else " INCOMPLETE"))
    funcs = sorted(f for f in ex.entered if not f.startswith("h_") and ":" in f and not f.startswith(("ref",)))
    samples = []
    for hi, h in enumerate(hs):
        for inp, obs in ex.stats[hi]["samples"][:2]:
            samples.append({"harness": h[0], "inputs": pretty(inp), "observed": repr(obs)[:300]})
    vac = [p["harness"] for p in per if p["paths_reaching_assertion"] == 0]
    code = 0
    msgs = []
    if confirmed:
        code = 1
    elif unreproduced:
        code = 3
        msgs.append("counterexample does not reproduce on the real code: %r" % ([(hs[u[0]][0],) + tuple(u[1:]) for u in unreproduced][:3],))
    elif mism:
        code = 3
        msgs.append("translation disagrees with the real code")
    elif ex.problems:
        code = 2
        msgs.append("inconclusive: %r" % ([(hs[p[0]][0],) + tuple(p[1:]) for p in ex.problems][:5],))
    elif ex.incomplete:
        code = 2
        msgs.append("budget exhausted before exploration finished: %s" % ([hs[h][0] for h in ex.incomplete],))
    elif vac:
        code = 2
        msgs.append("vacuous: no path reaches an assertion in %s" % (vac,))
    cov = {
        "explanation": "Bounded symbolic execution of the current sources (parsed by Jython's Python 2.7 parser on this run). Inputs are z3 integers within the stated "
                       "bounds; every path whose condition z3 finds satisfiable was run, and each assertion's negation was submitted to z3 under its path condition. "
                       "Nothing is claimed outside the bounds.",
        "functions_encoded": funcs,
        "function_count": len(funcs),
        "harnesses": per,
        "paths": tot["paths"], "paths_completed": tot["completed"],
        "solver_queries": tot["queries"], "solver_unsat": tot["unsat"], "solver_sat": tot["sat"], "solver_unknown": tot["unknown"],
        "queries_answered_from_cache": tot["cached"], "solver_seconds": round(tot["solver_s"], 2),
        "branches_decided_by_interval_or_domain_reasoning": tot["simplified"],
        "assertions_evaluated": tot["checks"], "assertions_with_symbolic_condition": tot["symchecks"],
        "explored_paths_rerun_on_real_code": validated, "model_real_disagreements": mism,
        "known_findings_still_failing": len(kn_lines),
        "samples": samples[:40],
        "exhaustive": bool(code == 0),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": list(getattr(hm, "ASSUMPTIONS", [])) + [
              "the Python 2 to Python 3 instrumentation in engine/py2.py keeps the meaning of the code (checked by the repository's own tests run through it, and by re-running explored paths under Jython)",
              "z3 %s is sound" % (explore.z3.get_version_string(),)],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    if not a.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
    for l in kn_lines:
        print(l)
    print("%s: %d harnesses, %d paths, %d queries (%d unsat, %d sat), solver %.1fs, replayed %d, load %.1fs, total %.1fs" % (
        prop, len(hs), tot["paths"], tot["queries"], tot["unsat"], tot["sat"], tot["solver_s"], validated, t_load - t0, time.time() - t0))
    for m in msgs:
        print((("INCONCLUSIVE: " if code == 2 else "ERROR: ") + m)[:3000])
    if confirmed:
        hi, out, msg, inputs, r = confirmed[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s_%s.json" % (prop, hs[hi][0]))
        with open(rp, "w") as f:
            json.dump({"module": hmod, "harness": hs[hi][0], "inputs": inputs, "readable": pretty(inputs), "model_outcome": [out, msg], "real_outcome": r,
                       "how": "python3-vt engine/replay_one.py %s" % (rp,)}, f, indent=1, sort_keys=True)
        print("violated: %s: %s %s; inputs %r; real code: %s" % (hs[hi][0], out, msg, pretty(inputs), str(r.get("msg"))[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    return code


def norm(o):
    if isinstance(o, (list, tuple)):
        return [norm(i) for i in o]
    if isinstance(o, float):
        return round(o, 9)
    return o


def pretty(inp):
    out = {}
    strs = {}
    for k, v in inp.items():
        if k.endswith("]") and "[" in k:
            nm, i = k[:-1].rsplit("[", 1)
            strs.setdefault(nm, {})[int(i)] = v
        elif not k.endswith("#"):
            out[k] = v
    for nm, d in strs.items():
        L = inp.get(nm + "#", max(d) + 1)
        out[nm] = "".join(chr(d[i]) for i in sorted(d) if i < L)
    return out


if __name__ == "__main__":
    sys.exit(main())
