# Runs under Jython 2.7: executes harness functions on the real code with concrete inputs.
# usage: jython replay.py SRC HARNESS_DIR JOBS.json OUT.json
import json
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[2])
sys.path.insert(0, sys.argv[1])


class Abort(BaseException):
    pass


class Failed(BaseException):
    pass


def conc(x):
    if x is None or isinstance(x, bool) or isinstance(x, float):
        return x
    if isinstance(x, (int, long)):
        return int(x)
    if isinstance(x, unicode):
        return x
    if isinstance(x, str):
        return u"".join([unichr(ord(c)) for c in x])
    if isinstance(x, (list, tuple)):
        return [conc(i) for i in x]
    if isinstance(x, dict):
        return sorted([[conc(k), conc(v)] for k, v in x.items()], key=repr)
    return "<%s>" % (x.__class__.__name__,)


class ConcS(object):
    """The harness interface, concrete side"""

    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.observed = []
        self.checks = 0
        self.used = {}

    def int(self, name, lo, hi, init=None):
        if lo == hi:
            return lo
        v = self.inputs.get(name)
        if v is None or v < lo or v > hi:
            v = init if init is not None else (lo + hi) // 2
        self.used[name] = v
        return v

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def choice(self, name, items):
        return items[self.int(name, 0, len(items) - 1, 0)]

    def str(self, name, minlen, maxlen, alphabet):
        n = self.int(name + "#", minlen, maxlen, minlen) if minlen != maxlen else minlen
        al = [ord(c) for c in alphabet]
        out = []
        for k in range(n):
            v = self.inputs.get("%s[%d]" % (name, k))
            if v is None or v not in al:
                v = al[0]
            out.append(chr(v))
        r = "".join(out)
        self.used[name] = conc(r)
        return r

    def assume(self, cond):
        if not cond:
            raise Abort()

    def check(self, cond, msg):
        self.checks += 1
        if not cond:
            raise Failed(msg)

    def fail(self, msg):
        raise Failed(msg)

    def reached(self):
        self.checks += 1

    def observe(self, x):
        self.observed.append(conc(x))

    def note(self, *a):
        pass

    def conc(self, x):
        return x

    def eager(self, x):
        return x


def main():
    jobs = json.load(open(sys.argv[3]))
    out = []
    mods = {}
    fresh = None
    for job in jobs:
        m = mods.get(job["module"])
        if m is None:
            m = mods[job["module"]] = __import__(job["module"])
            if fresh is None:
                fresh = state()
        reset(fresh)
        entry = [h for h in m.HARNESSES if h[0] == job["harness"]][0]
        S = ConcS(dict([(str(k), v) for k, v in job["inputs"].items()]))
        try:
            kw = dict([(str(k), v) for k, v in entry[2].items()])
            entry[1](S, **kw)
            res = ("ok", "")
        except Abort:
            res = ("assume", "")
        except Failed, e:
            res = ("fail", conc(str(e)))
        except Exception, e:
            try:
                t = conc(str(e))
            except Exception:
                t = "?"
            res = ("exc", "%s: %s | %s" % (e.__class__.__name__, t, traceback.format_exc()[-800:]))
        except RuntimeError, e:
            res = ("exc", "RuntimeError")
        out.append({"outcome": res[0], "msg": res[1], "observed": S.observed, "used": S.used, "checks": S.checks})
        f = open(sys.argv[4], "wb")
        f.write(json.dumps(out))
        f.close()


def state():
    """module level dictionaries, lists and sets of the code under test (caches), as they are after import"""
    r = []
    for n, m in sys.modules.items():
        if m is None or not (n.startswith("pycalendar") or n.startswith("zonal") or n in ("utils", "rule", "zone")):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, dict):
                r.append((v, dict(v)))
            elif isinstance(v, list):
                r.append((v, list(v)))
            elif isinstance(v, set):
                r.append((v, set(v)))
            elif isinstance(v, type) and getattr(v, "__module__", None) == n:
                for ck, cv in list(vars(v).items()):
                    if ck.startswith("__"):
                        continue
                    if isinstance(cv, dict):
                        r.append((cv, dict(cv)))
                    elif isinstance(cv, list):
                        r.append((cv, list(cv)))
                    elif isinstance(cv, set):
                        r.append((cv, set(cv)))
                    elif cv is None or isinstance(cv, (int, str, bool)):
                        r.append((v, ck, cv))
    return r


def reset(fresh):
    for it in fresh:
        if len(it) == 3:
            try:
                if getattr(it[0], it[1], None) is not it[2]:
                    setattr(it[0], it[1], it[2])
            except (AttributeError, TypeError):
                pass
            continue
        o, s = it
        if o != s or len(o) != len(s):
            if isinstance(o, dict):
                o.clear()
                o.update(s)
            elif isinstance(o, list):
                o[:] = s
            else:
                o.clear()
                o.update(s)

main()
