"""
Path exploration: concolic execution with z3 deciding every branch side that is not yet covered.
"""
import gc
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback
import types

import z3

import py2
import sym
from sym import ctx, SymInt, SymBool, SymStr, Node, to_z3, b_not, b_in, _mkbool

ALPHABETS = {}


def conc(x):
    """concrete value of a possibly symbolic value, without constraining the path"""
    if isinstance(x, SymInt):
        return x.v
    if isinstance(x, SymBool):
        return x.v
    if isinstance(x, SymStr):
        return x.value()
    if isinstance(x, bool) or x is None or isinstance(x, int):
        return x
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (list, tuple)):
        return [conc(i) for i in x]
    if isinstance(x, dict):
        return sorted([[conc(k), conc(v)] for k, v in x.items()], key=repr)
    if isinstance(x, float):
        return x
    return "<%s>" % (type(x).__name__,)


class SymS(object):
    """The harness interface, symbolic side"""

    symbolic = True

    def __init__(self, world):
        self.world = world
        self.seed_init = 0

    def int(self, name, lo, hi, init=None):
        if lo == hi:
            return lo
        n = sym.var(name, lo, hi)
        v = ctx.inputs.get(name)
        if v is None or v < lo or v > hi:
            v = init if init is not None else (lo + hi) // 2
        if name in ctx.vars:
            raise sym.EngineError("duplicate variable " + name)
        ctx.vars[name] = n
        ctx.inputs[name] = v
        return SymInt(v, n)

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, items):
        """One of items; every item is explored (one solver-chosen branch each)"""
        i = self.int(name, 0, len(items) - 1, 0)
        return items[sym.concretize(i)]

    def str(self, name, minlen, maxlen, alphabet):
        L = sym.concretize(self.int(name + "#", minlen, maxlen, minlen)) if minlen != maxlen else minlen
        al = frozenset(map(ord, alphabet))
        lo, hi = min(al), max(al)
        cs = []
        for k in range(L):
            nm = "%s[%d]" % (name, k)
            n = sym.var(nm, lo, hi) if lo != hi else lo
            if lo == hi:
                cs.append(lo)
                continue
            v = ctx.inputs.get(nm)
            if v is None or v not in al:
                v = ord(alphabet[0])
            ctx.vars[nm] = n
            ctx.inputs[nm] = v
            d = b_in(n, al)
            if d is not True:
                ctx.branch(d, True, "a")
            cs.append(SymInt(v, n))
        return sym.mkstr(tuple(cs))

    def assume(self, cond):
        if isinstance(cond, SymInt):
            cond = cond != 0
        if isinstance(cond, SymBool):
            ctx.branch(cond.n, cond.v, "a")
            if not cond.v:
                raise sym.PathAbort()
        elif not cond:
            raise sym.PathAbort()

    def check(self, cond, msg):
        ctx.checks += 1
        if isinstance(cond, SymInt):
            cond = cond != 0
        if isinstance(cond, SymBool):
            ctx.symchecks += 1
            ctx.branch(cond.n, cond.v, "k")
            cond = cond.v
        if not cond:
            raise sym.CheckFailed(conc(msg) if not isinstance(msg, str) else msg)

    def fail(self, msg):
        ctx.checks += 1
        raise sym.CheckFailed(msg)

    def reached(self):
        """a point of the harness whose reaching is itself the check (no exception, no hang)"""
        ctx.checks += 1

    def observe(self, x):
        ctx.observed.append(conc(x))

    def note(self, *a):
        pass

    def conc(self, x):
        return sym.concretize(x)

    def eager(self, x):
        return x


# ---------------------------------------------------------------------------------------------

class Snapshot(object):
    """Restores module, class and container state so that every path starts from the same state"""

    def __init__(self, world):
        self.saved = []
        seen = set()
        stack = list(world.mods.values())
        mods = set(id(m) for m in stack)
        while stack:
            o = stack.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, types.ModuleType):
                if id(o) not in mods:
                    continue
                self.saved.append(("m", o, dict(o.__dict__)))
                stack.extend(o.__dict__.values())
            elif isinstance(o, type):
                if "_p2" not in o.__dict__ and not hasattr(o, "_p2"):
                    continue
                self.saved.append(("c", o, dict(o.__dict__)))
                stack.extend(o.__dict__.values())
            elif isinstance(o, py2.PDict):
                self.saved.append(("d", o, (list(dict.items(o)), o.nsym)))
                stack.extend(dict.values(o))
            elif isinstance(o, py2.PSet):
                stack.append(o.d)
            elif isinstance(o, list):
                self.saved.append(("l", o, list(o)))
                stack.extend(o)
            elif isinstance(o, tuple):
                stack.extend(o)
            elif isinstance(o, types.FunctionType):
                # mutable default arguments
                if o.__defaults__:
                    stack.extend(o.__defaults__)
            elif hasattr(type(o), "_p2") and hasattr(o, "__dict__"):
                self.saved.append(("o", o, dict(o.__dict__)))
                stack.extend(o.__dict__.values())

    def restore(self):
        for k, o, s in self.saved:
            if k == "d":
                items, ns = s
                if len(o) != len(items) or o.nsym != ns or list(dict.items(o)) != items if False else True:
                    if dict.__len__(o) != len(items) or any(x is not y for x, y in zip(dict.values(o), [i[1] for i in items])):
                        dict.clear(o)
                        for kk, vv in items:
                            dict.__setitem__(o, kk, vv)
                    o.nsym = ns
            elif k == "l":
                if len(o) != len(s) or any(x is not y for x, y in zip(o, s)):
                    o[:] = s
            elif k == "m" or k == "o":
                d = o.__dict__
                if len(d) != len(s) or any(d.get(n, self) is not v for n, v in s.items()):
                    d.clear()
                    d.update(s)
            elif k == "c":
                d = o.__dict__
                for n in list(d):
                    if n not in s:
                        delattr(o, n)
                for n, v in s.items():
                    if d.get(n, self) is not v:
                        setattr(o, n, v)


class Worker(object):

    def __init__(self, world, harnesses, snapshot, cfg):
        self.world = world
        self.harnesses = harnesses
        self.snap = snapshot
        self.cfg = cfg
        self.cache = {}
        self.stats = {}
        self.solver = None

    def newsolver(self):
        s = z3.Solver()
        s.set("timeout", self.cfg.get("z3_timeout_ms", 60000))
        return s

    def run(self, hi, inputs):
        """One concolic run.  Returns (outcome, msg)"""
        name, func, kw = self.harnesses[hi][:3]
        self.snap.restore()
        py2._uuid_ctr[0] = 0
        ctx.reset(dict(inputs))
        ctx.deadline = time.time() + self.cfg.get("path_time", 20)
        S = SymS(self.world)
        try:
            func(S, **kw)
            out = ("ok", "")
        except sym.PathAbort:
            out = ("assume", "")
        except sym.CheckFailed as e:
            out = ("fail", str(e))
        except sym.PathLimit as e:
            out = ("limit", str(e))
        except sym.Unsupported as e:
            out = ("unsupported", "%s at %s" % (e, where(e)))
        except RecursionError as e:
            out = ("exc", "RecursionError")
        except Exception as e:
            out = ("exc", "%s: %s at %s" % (type(e).__name__, exc_text(e), where(e)))
        ctx.deadline = None
        return out

    def query(self, lits, target, st):
        """lits: asserted nodes; target: node to be satisfied.  Returns None (unsat), 'unknown' or {var: value}"""
        # slice
        need = set(target.vs)
        sel = []
        rest = lits
        while True:
            nxt = []
            grew = False
            for l in rest:
                if l.vs & need:
                    sel.append(l)
                    if not l.vs <= need:
                        need |= l.vs
                        grew = True
                else:
                    nxt.append(l)
            rest = nxt
            if not grew:
                break
        key = (target.id, frozenset(l.id for l in sel))
        r = self.cache.get(key)
        if r is not None:
            st["cached"] += 1
            return None if r == "unsat" else r
        t0 = time.time()
        if self.solver is None or self.solver_n > 2000:
            self.solver = self.newsolver()
            self.solver_n = 0
        self.solver_n += 1
        s = self.solver
        atoms = set(sym.abs_atoms(target))
        for l in sel:
            atoms |= sym.abs_atoms(l)
        if atoms and sel:
            s.push()
            s.set("timeout", 3000)
            for v in need:
                zv = to_z3(v)
                s.add(zv >= v.lo, zv <= v.hi)
            for at in atoms:
                za = z3.Int("abs!%d" % at.id)
                s.add(za >= at.lo, za <= at.hi)
            for l in sel:
                s.add(sym.abs_z3(l))
            s.add(sym.abs_z3(target))
            c = s.check()
            s.pop()
            s.set("timeout", self.cfg.get("z3_timeout_ms", 60000))
            if c == z3.unsat:
                dt = time.time() - t0
                st["solver_s"] += dt
                st["queries"] += 1
                st["unsat"] += 1
                st["abstract"] += 1
                self.cache[key] = "unsat"
                return None
        s.push()
        for v in need:
            zv = to_z3(v)
            s.add(zv >= v.lo, zv <= v.hi)
        for l in sel:
            s.add(to_z3(l))
        s.add(to_z3(target))
        c = s.check()
        if c == z3.unknown:
            # second engine: a fresh one-shot solver with full preprocessing
            s2 = z3.SolverFor("QF_NIA") if False else z3.Then("simplify", "solve-eqs", "smt").solver()
            s2.set("timeout", self.cfg.get("z3_timeout_ms", 60000))
            s2.add(s.assertions())
            c = s2.check()
            m = s2.model() if c == z3.sat else None
            st["retries"] += 1
        else:
            m = s.model() if c == z3.sat else None
        dt = time.time() - t0
        st["solver_s"] += dt
        st["queries"] += 1
        if dt > 5 and os.environ.get("SLOWQ"):
            print("SLOW %.1f %s %d lits target %s" % (dt, c, len(sel), sym.show(target)[:600]), flush=True)
        if c == z3.unsat:
            st["unsat"] += 1
            r = "unsat"
        elif c == z3.sat:
            st["sat"] += 1
            r = {}
            for v in need:
                r[v.a[0]] = m.eval(to_z3(v), model_completion=True).as_long()
        else:
            st["unknown"] += 1
            r = "unknown"
        s.pop()
        if r != "unknown":
            self.cache[key] = r
        return None if r == "unsat" else r

    def explore(self, hi, stack, until, st, results):
        """Process (inputs, bound) entries from stack (DFS) until time is up; returns leftover entries"""
        while stack:
            if time.time() > until:
                break
            if sym.table_size() > 400000 or len(self.cache) > 300000:
                # drop the expression table; entries on the stack are plain inputs
                sym.reset_nodes()
                self.cache.clear()
                self.solver = None
                gc.collect()
            inputs, bound, want = stack.pop()
            out, msg = self.run(hi, inputs)
            st["paths"] += 1
            st["simplified"] += ctx.simplified
            trace = ctx.trace
            if out == "ok":
                st["completed"] += 1
                st["checks"] += ctx.checks
                st["symchecks"] += ctx.symchecks
                if ctx.checks:
                    st["checked_paths"] += 1
                if len(st["samples"]) < 400:
                    st["samples"].append((dict(ctx.inputs), list(ctx.observed)))
            elif out == "assume":
                st["pruned"] += 1
            else:
                results.append((out, msg, dict(ctx.inputs), list(ctx.observed)))
                st["bad"] += 1
                if out in ("fail", "exc", "limit"):
                    st["violations"] += 1
                    return []
            st["maxdepth"] = max(st["maxdepth"], len(trace))
            if bound > len(trace):
                results.append(("diverged", "trace shorter than bound", dict(ctx.inputs), []))
                continue
            if want is not None and want != pre(trace, bound - 1, trace[bound - 1][0], trace[bound - 1][1]):
                got = pre(trace, bound - 1, trace[bound - 1][0], trace[bound - 1][1])
                if isinstance(want, tuple):
                    k = [a == b for a, b in zip(want, got)].index(False)
                    want, got = want[k], got[k]
                results.append(("diverged", "requested %s recorded %s" % (want[:300], got[:300]), dict(ctx.inputs), []))
                continue
            lits = []
            new = []
            for i, (n, taken, kind, x) in enumerate(trace):
                lit = n if taken else b_not(n)
                if i >= bound:
                    flip = True
                    if kind == "a" and taken:
                        flip = False
                    if kind == "c":
                        # a concretised value: one entry per other value (the re-run records its own value here)
                        excl = [b_not(lit)]
                        while True:
                            q = self.query(lits + excl[:-1], excl[-1], st)
                            if q == "unknown":
                                results.append(("unknown", "solver gave no answer", dict(ctx.inputs), []))
                                break
                            if q is None:
                                break
                            ni = dict(ctx.inputs)
                            ni.update(q)
                            other = sym.b_eq0(sym.n_sub(x, sym.evaluate(x, ni)))
                            new.append((ni, i + 1, pre(trace, i, other, True)))
                            excl.append(b_not(other))
                        flip = False
                    if flip:
                        q = self.query(lits, b_not(lit), st)
                        if q == "unknown":
                            results.append(("unknown", "solver gave no answer", dict(ctx.inputs), []))
                        elif q is not None:
                            ni = dict(ctx.inputs)
                            ni.update(q)
                            new.append((ni, i + 1, pre(trace, i, n, not taken)))
                lits.append(lit)
            stack.extend(new)
        return stack


DEBUG = bool(os.environ.get("VERIF_PREFIX"))


def pre(trace, i, n, val):
    """what a re-run has to record up to position i"""
    if not DEBUG:
        # cheap form: only the flipped decision
        return sym.show(n)[:400] + str(val)
    return tuple(sym.show(t[0]) + str(t[1]) for t in trace[:i]) + (sym.show(n) + str(val),)


def where(e):
    tb = e.__traceback__
    out = None
    for f in traceback.extract_tb(tb):
        if "/engine/" not in f.filename:
            out = "%s:%d" % (f.filename, f.lineno)
    return out


def exc_text(e):
    try:
        return str(conc(py2.to_str(e)))[:200]
    except BaseException:
        return "?"


def newstats():
    return {"paths": 0, "completed": 0, "pruned": 0, "bad": 0, "violations": 0, "queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "cached": 0,
            "retries": 0, "abstract": 0, "solver_s": 0.0, "checks": 0, "symchecks": 0, "checked_paths": 0, "simplified": 0, "maxdepth": 0, "samples": []}


def merge(a, b):
    for k, v in b.items():
        if k == "samples":
            a[k].extend(v[:max(0, 400 - len(a[k]))])
        elif k == "maxdepth":
            a[k] = max(a[k], v)
        else:
            a[k] += v


def _worker_main(conn, world, harnesses, snap, cfg):
    gc.disable()
    w = Worker(world, harnesses, snap, cfg)
    ntasks = 0
    while True:
        try:
            task = conn.recv()
        except EOFError:
            return
        if task is None:
            return
        hi, entries, slice_s = task
        st = newstats()
        results = []
        world.entered.clear()
        try:
            left = w.explore(hi, entries, time.time() + slice_s, st, results)
        except BaseException as e:
            results.append(("engine", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]), dict(ctx.inputs), []))
            left = []
        ntasks += 1
        if ntasks % 20 == 0:
            gc.collect()
        st["entered"] = None
        ent = set(world.entered)
        del st["entered"]
        conn.send((hi, st, results, left, ent))


class Explorer(object):

    def __init__(self, world, harnesses, cfg, nproc=None):
        self.world = world
        self.harnesses = harnesses
        self.cfg = cfg
        self.nproc = nproc or min(8, os.cpu_count() or 2)
        self.snap = Snapshot(world)
        self.stats = [newstats() for _ in harnesses]
        self.wall = [0.0] * len(harnesses)
        self.entered = set()
        self.problems = []          # (harness, outcome, msg, inputs)
        self.incomplete = set()

    def run(self, deadline, on_violation, verbose=False):
        """Explore every harness.  on_violation(hi, outcome, msg, inputs) -> True to stop everything"""
        sys.setrecursionlimit(5000)
        mp = multiprocessing.get_context("fork")
        conns = []
        procs = []
        gc.collect()
        gc.freeze()
        for _ in range(self.nproc):
            a, b = mp.Pipe()
            p = mp.Process(target=_worker_main, args=(b, self.world, self.harnesses, self.snap, self.cfg), daemon=True)
            p.start()
            b.close()
            conns.append(a)
            procs.append(p)
        pending = {}
        for hi in range(len(self.harnesses)):
            pending[hi] = [({}, 0, None)]
        dead = set()
        idle = list(conns)
        busy = {}
        stop = False
        order = list(range(len(self.harnesses)))
        rr = 0
        try:
            while not stop:
                # dispatch
                while idle:
                    cand = [h for h in order if pending.get(h)]
                    if not cand:
                        break
                    # fewest running tasks first, so that every harness makes progress
                    running = {}
                    for h in busy.values():
                        running[h] = running.get(h, 0) + 1
                    cand.sort(key=lambda h: (running.get(h, 0), self.wall[h]))
                    h = cand[0]
                    pl = pending[h]
                    n = max(1, min(64, len(pl) // (2 * self.nproc)))
                    chunk = pl[-n:]
                    del pl[-n:]
                    c = idle.pop()
                    few = len(pl) < self.nproc
                    c.send((h, chunk, 0.15 if few else 1.0))
                    busy[c] = h
                if not busy:
                    break
                if time.time() > deadline:
                    for h in order:
                        if pending.get(h) or h in busy.values():
                            self.incomplete.add(h)
                    break
                for c in multiprocessing.connection.wait(list(busy), timeout=1.0):
                    try:
                        hi, st, results, left, ent = c.recv()
                    except EOFError:
                        h = busy.pop(c)
                        self.problems.append((h, "engine", "worker died", {}))
                        self.incomplete.add(h)
                        dead.add(h)
                        pending[h] = []
                        continue
                    del busy[c]
                    idle.append(c)
                    self.entered |= ent
                    merge(self.stats[hi], st)
                    self.wall[hi] += 0.15
                    if hi in dead:
                        continue
                    pending[hi].extend(left)
                    for out, msg, inputs, obs in results:
                        if out in ("fail", "exc", "limit"):
                            dead.add(hi)
                            pending[hi] = []
                            if on_violation(hi, out, msg, inputs):
                                stop = True
                                break
                        else:
                            self.problems.append((hi, out, msg, inputs))
                            if out in ("engine", "diverged"):
                                dead.add(hi)
                                pending[hi] = []
                    if stop:
                        break
        finally:
            for p in procs:
                p.terminate()
            for p in procs:
                p.join(5)
                if p.is_alive():
                    p.kill()
