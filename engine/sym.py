"""
Symbolic values for the concolic executor.

Every symbolic value carries a concrete value (the value it has on the run being executed) and a
hash-consed expression node over the harness's symbolic variables.  Control flow follows the concrete
value; each decision that depends on a symbolic variable is recorded as a path literal.  The explorer
negates literals with z3 until no unexplored side is satisfiable.
"""

import hashlib

import z3


class Unsupported(BaseException):
    """An operation that the engine cannot model symbolically (never swallowed by code under test)."""


class PathAbort(BaseException):
    """The current path stops here (assumption not met)."""


class CheckFailed(BaseException):
    """A property assertion is false on the current path."""


class EngineError(BaseException):
    """Internal inconsistency."""


# ---------------------------------------------------------------------------------------------
# Nodes.  Integer nodes: 'lin' (const + sum coef*atom); atoms are 'var', 'div', 'mod', 'ite', 'mul'.
# Boolean nodes: 'le' (lin <= 0), 'eq' (lin == 0), 'in' (var in set), 'and', 'or', 'not', 'bvar'
# ---------------------------------------------------------------------------------------------

class Node(object):
    __slots__ = ("op", "a", "lo", "hi", "z", "vs", "id", "neg")

    def __repr__(self):
        return show(self)


_table = {}
_ctr = [0]
INF = float("inf")


def reset_nodes():
    _table.clear()
    _atoms.clear()
    _shown.clear()


def table_size():
    return len(_table)


def _mk(op, a, lo=None, hi=None, vs=None):
    key = (op,) + tuple([x.id if isinstance(x, Node) else x for x in a])
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.a = a
        n.lo = lo
        n.hi = hi
        n.z = None
        n.neg = None
        if vs is None:
            vs = frozenset()
            for x in a:
                if isinstance(x, Node):
                    vs = vs | x.vs
        n.vs = vs
        _ctr[0] += 1
        n.id = _ctr[0]
        if op == "var":
            n.vs = frozenset((n,))
        _table[key] = n
    return n


def var(name, lo, hi):
    return _mk("var", (name, lo, hi), lo, hi)


_shown = {}


def show(n):
    """canonical text of a node: the same in every process, whatever order nodes were made in"""
    if not isinstance(n, Node):
        return repr(n)
    r = _shown.get(n.id)
    if r is None:
        op = n.op
        if op == "var":
            r = n.a[0]
        elif op == "lin" or op == "eq":
            x = n.a[0] if op == "eq" else n
            c, ts = lin_of(x)
            ts = sorted((show(t), k) for t, k in ts)
            if op == "eq" and ts[0][1] < 0:
                c = -c
                ts = [(t, -k) for t, k in ts]
            r = "(" + "+".join([str(c)] + ["%d*%s" % (k, t) for t, k in ts]) + ")"
            if op == "eq":
                r += "==0"
        elif op == "in":
            r = "(%s in %r)" % (show(n.a[0]), "".join(map(chr, sorted(n.a[1])[:40])))
        elif op == "and" or op == "or":
            r = "%s(%s)" % (op, ", ".join(sorted(show(x) for x in n.a)))
        else:
            r = "%s(%s)" % (op, ", ".join(show(x) for x in n.a))
        if len(r) > 500:
            r = r[:200] + "#" + hashlib.md5(r.encode("utf-8", "replace")).hexdigest()
        _shown[n.id] = r
    return r


# A linear form is (const, {atom: coef}); an int node is either a python int, an atom node or a 'lin' node

def lin_of(n):
    if isinstance(n, int):
        return n, ()
    if n.op == "lin":
        return n.a[0], tuple(zip(n.a[1::2], n.a[2::2]))
    return 0, ((n, 1),)


def mk_lin(const, terms):
    """terms: dict atom->coef"""
    items = [(t, c) for t, c in terms.items() if c]
    if not items:
        return const
    if len(items) > 1:
        # c * (r mod k) + c*k * (r div k)  ->  c * r
        for t, c in items:
            if t.op == "mod":
                k = t.a[1]
                dc, dt = lin_of(n_div(t.a[0], k))
                if len(dt) == 1 and dt[0][1] == 1 and dt[0][0].op == "div" and terms.get(dt[0][0]) == c * k:
                    rc, rt = lin_of(t.a[0])
                    t2 = dict(terms)
                    del t2[t]
                    del t2[dt[0][0]]
                    for u, uc in rt:
                        t2[u] = t2.get(u, 0) + c * uc
                    return mk_lin(const + c * rc - c * k * dc, t2)
    if const == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    lo = hi = const
    a = [const]
    vs = frozenset()
    for t, c in items:
        if c > 0:
            lo += c * t.lo
            hi += c * t.hi
        else:
            lo += c * t.hi
            hi += c * t.lo
        a.append(t)
        a.append(c)
        vs = vs | t.vs
    if lo == hi:
        return lo
    return _mk("lin", tuple(a), lo, hi, vs)


def n_add(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x + y
    c1, t1 = lin_of(x)
    c2, t2 = lin_of(y)
    d = dict(t1)
    for t, c in t2:
        d[t] = d.get(t, 0) + c
    return mk_lin(c1 + c2, d)


def n_scale(x, k):
    if isinstance(x, int):
        return x * k
    if k == 0:
        return 0
    c1, t1 = lin_of(x)
    return mk_lin(c1 * k, dict((t, c * k) for t, c in t1))


def n_sub(x, y):
    return n_add(x, n_scale(y, -1))


def n_mul(x, y):
    if isinstance(x, int):
        return n_scale(y, x)
    if isinstance(y, int):
        return n_scale(x, y)
    ps = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
    if x.id > y.id:
        x, y = y, x
    return _mk("mul", (x, y), min(ps), max(ps))


def _split(x, k):
    """x = k*q + r, with r's coefficients reduced below k"""
    c, ts = lin_of(x)
    q = {}
    r = {}
    for t, co in ts:
        qq, rr = divmod(co, k)
        if qq:
            q[t] = qq
        if rr:
            r[t] = rr
    cq, cr = divmod(c, k)
    return mk_lin(cq, q), mk_lin(cr, r)


def _unmod(x, k):
    """x with its (y mod K) terms replaced by y, for K a multiple of k (same value modulo k)"""
    c, ts = lin_of(x)
    for t, co in ts:
        if t.op == "mod" and (co * t.a[1]) % k == 0:
            return _unmod(n_add(n_sub(x, n_scale(t, co)), n_scale(t.a[0], co)), k)
    return x


def n_mod(x, k):
    """floor modulo by positive constant"""
    if isinstance(x, int):
        return x % k
    if k == 1:
        return 0
    x = _unmod(x, k)
    if isinstance(x, int):
        return x % k
    _q, r = _split(x, k)
    if isinstance(r, int):
        return r % k
    # shift so that the simple interval rule applies to the original too
    if x.lo // k == x.hi // k:
        return n_add(x, -(x.lo // k) * k)
    if r.lo // k == r.hi // k:
        return n_add(r, -(r.lo // k) * k)
    return _mk("mod", (r, k), 0, k - 1)


def n_div(x, k):
    if isinstance(x, int):
        return x // k
    if k == 1:
        return x
    if x.lo // k == x.hi // k:
        return x.lo // k
    q, r = _split(x, k)
    c, ts = lin_of(r)
    for t, co in ts:
        if t.op == "mod" and (co * t.a[1]) % k == 0:
            r2 = n_add(n_sub(x, n_scale(t, co)), n_scale(n_sub(t.a[0], n_scale(n_div(t.a[0], t.a[1]), t.a[1])), co))
            if len(lin_of(_split(r2, k)[1])[1]) < len(ts):
                return n_div(r2, k)
    if len(ts) == 1 and ts[0][1] == 1 and ts[0][0].op == "div":
        t = ts[0][0]
        return n_add(q, n_div(n_add(t.a[0], c * t.a[1]), t.a[1] * k))
    if isinstance(r, int):
        return n_add(q, r // k)
    if r.lo // k == r.hi // k:
        return n_add(q, r.lo // k)
    return n_add(q, _mk("div", (r, k), r.lo // k, r.hi // k))


def n_ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    if x is y or (isinstance(x, int) and isinstance(y, int) and x == y):
        return x
    lx, hx = (x, x) if isinstance(x, int) else (x.lo, x.hi)
    ly, hy = (y, y) if isinstance(y, int) else (y.lo, y.hi)
    return _mk("ite", (c, x, y), min(lx, ly), max(hx, hy))


# --- booleans: python bool or Node

def b_le0(x):
    """x <= 0"""
    if isinstance(x, int):
        return x <= 0
    if x.hi <= 0:
        return True
    if x.lo > 0:
        return False
    # normalise by gcd
    c, ts = lin_of(x)
    if len(ts) == 1:
        t, co = ts[0]
        # co*t + c <= 0
        if t.op == "var" and t.hi - t.lo <= 256 and t.a[0].endswith("]"):
            # character variable: use set form
            s = frozenset([v for v in range(t.lo, t.hi + 1) if co * v + c <= 0])
            return b_in(t, s)
        if co > 1:
            # t <= floor(-c/co)
            return b_le0(mk_lin(-((-c) // co), {t: 1}))
        if co < -1:
            # -|co| t + c <= 0 -> t >= ceil(c/|co|)
            k = -((-c) // (-co))
            return b_le0(mk_lin(k, {t: -1}))
    return _mk("le", (x,))


def b_eq0(x):
    if isinstance(x, int):
        return x == 0
    if x.lo > 0 or x.hi < 0:
        return False
    c, ts = lin_of(x)
    if len(ts) == 1:
        t, co = ts[0]
        if c % co:
            return False
        k = -c // co
        if t.op == "var" and t.hi - t.lo <= 256 and t.a[0].endswith("]"):
            return b_in(t, frozenset((k,)))
        if k < t.lo or k > t.hi:
            return False
        return _mk("eq", (mk_lin(-k, {t: 1}),))
    # sign normalisation
    if ts[0][1] < 0:
        x = n_scale(x, -1)
    return _mk("eq", (x,))


def b_in(v, s):
    full = range(v.lo, v.hi + 1)
    if not any(k in s for k in full):
        return False
    if all(k in s for k in full):
        return True
    s = frozenset(k for k in s if v.lo <= k <= v.hi)
    return _mk("in", (v, s), vs=v.vs)


def b_not(x):
    if isinstance(x, bool):
        return not x
    if x.neg is not None:
        return x.neg
    if x.op == "not":
        r = x.a[0]
    elif x.op == "le":
        # not (e <= 0)  ->  e >= 1 -> 1 - e <= 0
        r = b_le0(n_sub(1, x.a[0]))
    elif x.op == "in":
        v, s = x.a
        r = b_in(v, frozenset(k for k in range(v.lo, v.hi + 1) if k not in s))
    else:
        r = _mk("not", (x,))
    if isinstance(r, Node):
        x.neg = r
        r.neg = x
    return r


def b_and(*xs):
    out = []
    seen = set()
    byvar = {}
    stack = list(xs)
    while stack:
        x = stack.pop(0)
        if x is True:
            continue
        if x is False:
            return False
        if x.op == "and":
            stack = list(x.a) + stack
            continue
        if x.id in seen:
            continue
        nx = x.neg
        if nx is not None and nx.id in seen:
            return False
        seen.add(x.id)
        if x.op == "in":
            v, s = x.a
            byvar[v] = byvar[v] & s if v in byvar else s
            continue
        out.append(x)
    for v, s in byvar.items():
        m = b_in(v, s)
        if m is False:
            return False
        if m is not True:
            out.append(m)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return _mk("and", tuple(out))


def b_or(*xs):
    out = []
    seen = set()
    byvar = {}
    stack = list(xs)
    while stack:
        x = stack.pop(0)
        if x is False:
            continue
        if x is True:
            return True
        if x.op == "or":
            stack = list(x.a) + stack
            continue
        if x.id in seen:
            continue
        nx = x.neg
        if nx is not None and nx.id in seen:
            return True
        seen.add(x.id)
        if x.op == "in":
            v, s = x.a
            byvar[v] = byvar[v] | s if v in byvar else s
            continue
        out.append(x)
    for v, s in byvar.items():
        m = b_in(v, s)
        if m is True:
            return True
        if m is not False:
            out.append(m)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return _mk("or", tuple(out))


def b_ite(c, x, y):
    if c is True:
        return x
    if c is False:
        return y
    return b_or(b_and(c, x), b_and(b_not(c), y))


# --- z3 translation

_zvars = {}


def to_z3(n):
    if isinstance(n, bool):
        return z3.BoolVal(n)
    if isinstance(n, int):
        return z3.IntVal(n)
    if n.z is not None:
        return n.z
    op = n.op
    if op == "var":
        z = z3.Int(n.a[0])
    elif op == "lin":
        ts = []
        for t, c in zip(n.a[1::2], n.a[2::2]):
            zt = to_z3(t)
            ts.append(zt if c == 1 else zt * c)
        if n.a[0]:
            ts.append(z3.IntVal(n.a[0]))
        z = ts[0] if len(ts) == 1 else z3.Sum(ts)
    elif op == "mul":
        z = to_z3(n.a[0]) * to_z3(n.a[1])
    elif op == "div":
        z = to_z3(n.a[0]) / z3.IntVal(n.a[1])
    elif op == "mod":
        z = to_z3(n.a[0]) % z3.IntVal(n.a[1])
    elif op == "ite":
        z = z3.If(to_z3(n.a[0]), to_z3(n.a[1]), to_z3(n.a[2]))
    elif op == "le":
        z = to_z3(n.a[0]) <= 0
    elif op == "eq":
        z = to_z3(n.a[0]) == 0
    elif op == "in":
        v, s = n.a
        zv = to_z3(v)
        ors = []
        ks = sorted(s)
        i = 0
        while i < len(ks):
            j = i
            while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1:
                j += 1
            if i == j:
                ors.append(zv == ks[i])
            else:
                ors.append(z3.And(zv >= ks[i], zv <= ks[j]))
            i = j + 1
        z = ors[0] if len(ors) == 1 else z3.Or(ors)
    elif op == "and":
        z = z3.And([to_z3(x) for x in n.a])
    elif op == "or":
        z = z3.Or([to_z3(x) for x in n.a])
    elif op == "not":
        z = z3.Not(to_z3(n.a[0]))
    else:
        raise EngineError("to_z3 " + op)
    n.z = z
    return z


def evaluate(n, env):
    """value of an int or bool node under {var name: value}"""
    if not isinstance(n, Node):
        return n
    op = n.op
    a = n.a
    if op == "var":
        return env[a[0]]
    if op == "lin":
        r = a[0]
        for i in range(1, len(a), 2):
            r += a[i + 1] * evaluate(a[i], env)
        return r
    if op == "mul":
        return evaluate(a[0], env) * evaluate(a[1], env)
    if op == "div":
        return evaluate(a[0], env) // a[1]
    if op == "mod":
        return evaluate(a[0], env) % a[1]
    if op == "ite":
        return evaluate(a[1] if evaluate(a[0], env) else a[2], env)
    if op == "le":
        return evaluate(a[0], env) <= 0
    if op == "eq":
        return evaluate(a[0], env) == 0
    if op == "in":
        return evaluate(a[0], env) in a[1]
    if op == "and":
        return all(evaluate(x, env) for x in a)
    if op == "or":
        return any(evaluate(x, env) for x in a)
    if op == "not":
        return not evaluate(a[0], env)
    raise EngineError("evaluate " + op)


_atoms = {}


def abs_atoms(n):
    """the div/mod atoms of n that are not inside another one"""
    if not isinstance(n, Node):
        return frozenset()
    r = _atoms.get(n.id)
    if r is None:
        if n.op in ("div", "mod"):
            r = frozenset((n,))
        elif n.op == "var":
            r = frozenset()
        else:
            r = frozenset()
            for x in n.a:
                if isinstance(x, Node):
                    r = r | abs_atoms(x)
        _atoms[n.id] = r
    return r


def abs_z3(n):
    """n with its div/mod atoms replaced by free integers: anything unsatisfiable here is unsatisfiable"""
    at = abs_atoms(n)
    z = to_z3(n)
    if not at:
        return z
    return z3.substitute(z, [(to_z3(a), z3.Int("abs!%d" % a.id)) for a in at])


# ---------------------------------------------------------------------------------------------
# Path context
# ---------------------------------------------------------------------------------------------

class Ctx(object):
    """State of the run being executed."""

    def __init__(self):
        self.reset({})

    def reset(self, inputs):
        self.inputs = inputs
        self.vars = {}
        self.trace = []         # (node, taken, kind)
        self.known = {}         # node id -> bool
        self.bounds = {}        # atom -> (lo, hi)
        self.doms = {}          # char var -> frozenset
        self.checks = 0
        self.symchecks = 0
        self.observed = []
        self.deadline = None
        self.steps = 0
        self.simplified = 0
        self.active = True
        self.covered = set()
        self.order = []

    # interval of an int node under the path's bounds
    def interval(self, n):
        if isinstance(n, int):
            return n, n
        b = self.bounds
        if n.op == "lin":
            lo = hi = n.a[0]
            a = n.a
            for i in range(1, len(a), 2):
                t = a[i]
                c = a[i + 1]
                tb = b.get(t)
                if tb is None:
                    tl, th = t.lo, t.hi
                else:
                    tl, th = tb
                if c > 0:
                    lo += c * tl
                    hi += c * th
                else:
                    lo += c * th
                    hi += c * tl
            return lo, hi
        tb = b.get(n)
        if tb is None:
            return n.lo, n.hi
        return tb

    def decide(self, n):
        """True/False if implied by cheap reasoning over what is already asserted, else None"""
        k = self.known.get(n.id)
        if k is not None:
            return k
        op = n.op
        if op == "le":
            lo, hi = self.interval(n.a[0])
            if hi <= 0:
                return True
            if lo > 0:
                return False
        elif op == "eq":
            lo, hi = self.interval(n.a[0])
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
        elif op == "in":
            v, s = n.a
            d = self.doms.get(v)
            if d is not None:
                if d <= s:
                    return True
                if not (d & s):
                    return False
        elif op == "and":
            allt = True
            for x in n.a:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    allt = False
            if allt:
                return True
        elif op == "or":
            allf = True
            for x in n.a:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    allf = False
            if allf:
                return False
        elif op == "not":
            r = self.decide(n.a[0])
            return None if r is None else not r
        return None

    def learn(self, n, val):
        self.known[n.id] = val
        neg = n.neg
        if neg is None:
            neg = b_not(n)
        self.known[neg.id] = not val
        op = n.op
        if op == "and" and val:
            for x in n.a:
                self.learn(x, True)
        elif op == "or" and not val:
            for x in n.a:
                self.learn(x, False)
        elif op == "or" and val:
            rest = [x for x in n.a if self.decide(x) is not False]
            if len(rest) == 1:
                self.learn(rest[0], True)
        elif op == "and" and not val:
            rest = [x for x in n.a if self.decide(x) is not True]
            if len(rest) == 1:
                self.learn(rest[0], False)
        elif op == "not":
            self.learn(n.a[0], not val)
        elif op == "in":
            v, s = n.a
            d = self.doms.get(v)
            if d is None:
                d = frozenset(range(v.lo, v.hi + 1))
            d = (d & s) if val else (d - s)
            self.doms[v] = d
            if d:
                self.bounds[v] = (min(d), max(d))
        elif op == "le":
            if val:
                self._bound_le(n.a[0])
            else:
                self._bound_le(n_sub(1, n.a[0]))
        elif op == "eq":
            if val:
                self._bound_le(n.a[0])
                self._bound_le(n_scale(n.a[0], -1))
            else:
                c, ts = lin_of(n.a[0])
                if len(ts) == 1 and ts[0][1] in (1, -1):
                    t, co = ts[0]
                    k = -c // co
                    lo, hi = self.bounds.get(t, (t.lo, t.hi))
                    if k == lo:
                        self.bounds[t] = (lo + 1, hi)
                    elif k == hi:
                        self.bounds[t] = (lo, hi - 1)

    def _bound_le(self, x):
        """x <= 0 holds: one round of bound propagation on each atom"""
        if isinstance(x, int):
            return
        c, ts = lin_of(x)
        lo, _hi = self.interval(x)
        for t, co in ts:
            tl, th = self.bounds.get(t, (t.lo, t.hi))
            if co > 0:
                # co*t <= -(lo - co*tl)
                m = (co * tl - lo) // co
                if m < th:
                    self.bounds[t] = (tl, m)
            else:
                # lo of others = lo - co*th ; co*t <= -(others) -> t >= others/(-co)
                oth = lo - co * th
                m = -((-oth) // (-co))
                if m > tl:
                    self.bounds[t] = (m, th)

    def branch(self, n, cv, kind="b", x=None):
        if n is True or n is False:
            if n != cv:
                raise EngineError("constant branch mismatch")
            return cv
        d = self.decide(n)
        if d is not None:
            if d != cv:
                raise EngineError("decided %r but concrete %r: %s" % (d, cv, show(n)))
            self.simplified += 1
            return cv
        self.trace.append((n, cv, kind, x))
        self.learn(n, cv)
        if len(self.trace) > MAXTRACE[0]:
            raise PathLimit("trace too long")
        return cv


class PathLimit(BaseException):
    pass


MAXTRACE = [20000]
ctx = Ctx()


# ---------------------------------------------------------------------------------------------
# Values
# ---------------------------------------------------------------------------------------------

def _mkint(v, n):
    if isinstance(n, int):
        if n != v:
            raise EngineError("int value mismatch %r %r" % (v, n))
        return n
    return SymInt(v, n)


def _mkbool(v, n):
    if n is True or n is False:
        if n != v:
            raise EngineError("bool value mismatch")
        return n
    return SymBool(v, n)


class SymBool(object):
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v = v
        self.n = n

    def __bool__(self):
        return ctx.branch(self.n, self.v)

    def _coerce(self, o):
        if isinstance(o, bool):
            return o, o
        if isinstance(o, SymBool):
            return o.v, o.n
        return None

    def __and__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return _mkbool(self.v and c[0], b_and(self.n, c[1]))
    __rand__ = __and__

    def __or__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return _mkbool(self.v or c[0], b_or(self.n, c[1]))
    __ror__ = __or__

    def __xor__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return _mkbool(self.v != c[0], b_ite(self.n, b_not(c[1]), c[1]))
    __rxor__ = __xor__

    def __eq__(self, o):
        c = self._coerce(o)
        if c is None:
            return self.toint() == o
        return _mkbool(self.v == c[0], b_ite(self.n, c[1], b_not(c[1])))

    def __ne__(self, o):
        return sym_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def toint(self):
        return _mkint(int(self.v), n_ite(self.n, 1, 0))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return "SymBool(%r)" % (self.v,)

    def __add__(self, o):
        return self.toint() + o
    __radd__ = __add__

    def __lt__(self, o):
        return self.toint() < o

    def __gt__(self, o):
        return self.toint() > o

    def __le__(self, o):
        return self.toint() <= o

    def __ge__(self, o):
        return self.toint() >= o

    def __sub__(self, o):
        return self.toint() - o

    def __rsub__(self, o):
        return o - self.toint()

    def __mul__(self, o):
        return self.toint() * o
    __rmul__ = __mul__

    def __neg__(self):
        return -self.toint()

    def __pos__(self):
        return self.toint()

    def __abs__(self):
        return self.toint()

    def __floordiv__(self, o):
        return self.toint() // o

    def __mod__(self, o):
        return self.toint() % o


def sym_not(x):
    if isinstance(x, SymBool):
        return _mkbool(not x.v, b_not(x.n))
    return not x


def _num(o):
    """(value, node) of an int-like, or None"""
    if isinstance(o, SymInt):
        return o.v, o.n
    if isinstance(o, bool):
        return int(o), int(o)
    if isinstance(o, int):
        return o, o
    if isinstance(o, SymBool):
        t = o.toint()
        return _num(t)
    return None


class SymInt(object):
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v = v
        self.n = n

    def __repr__(self):
        return "SymInt(%r)" % (self.v,)

    # -- arithmetic
    def __add__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        return _mkint(self.v + c[0], n_add(self.n, c[1]))
    __radd__ = __add__

    def __sub__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        return _mkint(self.v - c[0], n_sub(self.n, c[1]))

    def __rsub__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        return _mkint(c[0] - self.v, n_sub(c[1], self.n))

    def __mul__(self, o):
        c = _num(o)
        if c is None:
            if isinstance(o, (str, list, tuple)) or isinstance(o, SymStr):
                return o * self.__index__()
            return NotImplemented
        if isinstance(c[1], Node):
            # symbolic times symbolic: concretise the operand with fewer values
            a, b = self, o
            if (a.n.hi - a.n.lo) < (b.n.hi - b.n.lo):
                a, b = b, a
            if b.n.hi - b.n.lo <= 64:
                return a * concretize(b)
        return _mkint(self.v * c[0], n_mul(self.n, c[1]))
    __rmul__ = __mul__

    def __neg__(self):
        return _mkint(-self.v, n_scale(self.n, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return _mkint(abs(self.v), n_ite(_b(b_le0(n_scale(self.n, -1))), self.n, n_scale(self.n, -1)))

    def __floordiv__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        k = c[0] if not isinstance(c[1], Node) else concretize(o)
        if k == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if k > 0:
            return _mkint(self.v // k, n_div(self.n, k))
        return _mkint(self.v // k, n_div(n_scale(self.n, -1), -k))

    def __rfloordiv__(self, o):
        return o // concretize(self)

    __truediv__ = __floordiv__
    __rtruediv__ = __rfloordiv__

    def __mod__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        k = c[0] if not isinstance(c[1], Node) else concretize(o)
        if k == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if k > 0:
            return _mkint(self.v % k, n_mod(self.n, k))
        return _mkint(self.v % k, n_scale(n_mod(n_scale(self.n, -1), -k), -1))

    def __rmod__(self, o):
        if isinstance(o, int):
            return o % concretize(self)
        return NotImplemented

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return concretize(self) ** concretize(o)

    def __rpow__(self, o):
        return o ** concretize(self)

    def __lshift__(self, o):
        return self * (1 << concretize(o))

    def __rlshift__(self, o):
        return o << concretize(self)

    def __rshift__(self, o):
        return self // (1 << concretize(o))

    def __rrshift__(self, o):
        return o >> concretize(self)

    def __and__(self, o):
        if isinstance(o, bool) or isinstance(o, SymBool):
            return NotImplemented
        if isinstance(o, SymInt):
            o = concretize(o)
        if o == 0:
            return 0
        if o > 0:
            low = (o & -o).bit_length() - 1
            m = o >> low
            if m & (m + 1) == 0:
                hi = o.bit_length()
                return self % (1 << hi) - self % (1 << low)
        return concretize(self) & o
    __rand__ = __and__

    def __or__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        a, b = self.n, c[1]
        for x, y in ((a, b), (b, a)):
            lo, hi = (y, y) if isinstance(y, int) else (y.lo, y.hi)
            if lo < 0:
                continue
            k = 1 << hi.bit_length()
            cc, ts = lin_of(x)
            if cc % k == 0 and all(co % k == 0 for _t, co in ts):
                return _mkint(self.v | c[0], n_add(a, b))
        return concretize(self) | concretize(o)
    __ror__ = __or__

    def __xor__(self, o):
        return concretize(self) ^ concretize(o)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # -- comparison
    def __eq__(self, o):
        c = _num(o)
        if c is None:
            return False if not isinstance(o, float) else concretize(self) == o
        return _mkbool(self.v == c[0], b_eq0(n_sub(self.n, c[1])))

    def __ne__(self, o):
        return sym_not(self == o)

    def __lt__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        return _mkbool(self.v < c[0], b_le0(n_add(n_sub(self.n, c[1]), 1)))

    def __le__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        return _mkbool(self.v <= c[0], b_le0(n_sub(self.n, c[1])))

    def __gt__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        return _mkbool(self.v > c[0], b_le0(n_add(n_sub(c[1], self.n), 1)))

    def __ge__(self, o):
        c = _num(o)
        if c is None:
            return NotImplemented
        return _mkbool(self.v >= c[0], b_le0(n_sub(c[1], self.n)))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(concretize(self))

    def __index__(self):
        return concretize(self)

    def __int__(self):
        return concretize(self)

    def __float__(self):
        return float(concretize(self))


def _b(x):
    return x


def concretize(x):
    """Fix a symbolic int to its value on this path; the other values become other paths."""
    if isinstance(x, SymInt):
        n = b_eq0(n_sub(x.n, x.v))
        ctx.branch(n, True, "c", x.n)
        return x.v
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymStr):
        return x.concrete()
    return x


# -- strings ------------------------------------------------------------------------------------

WS = frozenset(b" \t\n\r\x0b\x0c")
DIGITS = frozenset(b"0123456789")
UPPER = frozenset(range(65, 91))
LOWER = frozenset(range(97, 123))
ALPHA = UPPER | LOWER


class UStr(str):
    """A Python 2 unicode object (a plain str here stands for a Python 2 byte string)."""
    __slots__ = ()


def _c_eq(a, b):
    """equality of two chars as (value, node)"""
    if isinstance(a, int):
        if isinstance(b, int):
            return (a == b, a == b)
        a, b = b, a
    if isinstance(b, int):
        return (a.v == b, b_eq0(n_sub(a.n, b)))
    return (a.v == b.v, b_eq0(n_sub(a.n, b.n)))


def _c_in(a, s):
    if isinstance(a, int):
        return (a in s, a in s)
    return (a.v in s, _n_in(a.n, frozenset(s)))


def _n_in(n, s):
    if isinstance(n, int):
        return n in s
    if n.op == "var":
        return b_in(n, frozenset(s))
    if n.op == "ite":
        return b_ite(n.a[0], _n_in(n.a[1], s), _n_in(n.a[2], s))
    c, ts = lin_of(n)
    if len(ts) == 1 and ts[0][1] == 1 and ts[0][0].op == "var":
        return b_in(ts[0][0], frozenset(k - c for k in s))
    ks = sorted(s)
    ors = []
    i = 0
    while i < len(ks):
        j = i
        while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1:
            j += 1
        if i == j:
            ors.append(b_eq0(n_sub(n, ks[i])))
        else:
            ors.append(b_and(b_le0(n_sub(ks[i], n)), b_le0(n_sub(n, ks[j]))))
        i = j + 1
    return b_or(*ors)


def _cb(vn):
    return _mkbool(vn[0], vn[1])


def _codes(o):
    if isinstance(o, SymStr):
        return o.cs
    if isinstance(o, str):
        return tuple(map(ord, o))
    return None


def _isuni(*os):
    for o in os:
        if isinstance(o, UStr) or (isinstance(o, SymStr) and o.uni):
            return True
    return False


def mkstr(cs, uni=False):
    """Build a str if all chars are concrete, else a SymStr"""
    for c in cs:
        if not isinstance(c, int):
            return SymStr(tuple(cs), uni)
    s = "".join(map(chr, cs))
    return UStr(s) if uni else s


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymStr))


def promote(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, str):
        return SymStr(tuple(map(ord, x)), isinstance(x, UStr))
    raise Unsupported("promote %r" % (type(x),))


def py_translate(s, t, delete=""):
    """Python 2 translate of a byte string by a table of 256, after leaving out some"""
    if isinstance(t, dict):
        return s.translate(t)
    d = concretize(delete)
    return "".join(x if t is None else t[ord(x)] for x in s if x not in d)


class SymStr(object):
    __slots__ = ("cs", "uni")

    def __init__(self, cs, uni=False):
        self.cs = cs
        self.uni = uni

    def value(self):
        return "".join(chr(c if isinstance(c, int) else c.v) for c in self.cs)

    def concrete(self):
        for c in self.cs:
            if not isinstance(c, int):
                concretize(c)
        s = self.value()
        return UStr(s) if self.uni else s

    def __repr__(self):
        return "SymStr(%r)" % (self.value(),)

    def __str__(self):
        raise Unsupported("native str() of SymStr")

    def __format__(self, spec):
        raise Unsupported("native format of SymStr")

    def __getattr__(self, name):
        raise Unsupported("SymStr.%s" % (name,))

    def __hash__(self):
        return hash(self.concrete())

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        u = self.uni
        for c in self.cs:
            yield mkstr((c,), u)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i], self.uni)
        if isinstance(i, SymInt):
            i = concretize(i)
        return mkstr((self.cs[i],), self.uni)

    def __add__(self, o):
        c = _codes(o)
        if c is None:
            raise TypeError("cannot concatenate 'str' and %r objects" % (type(o).__name__,))
        return mkstr(self.cs + c, _isuni(self, o))

    def __radd__(self, o):
        c = _codes(o)
        if c is None:
            raise TypeError("cannot concatenate")
        return mkstr(c + self.cs, _isuni(self, o))

    def __mul__(self, k):
        return mkstr(self.cs * concretize(k), self.uni)
    __rmul__ = __mul__

    def __mod__(self, args):
        from py2 import fmt_percent
        return fmt_percent(self.concrete(), args)

    def _eq(self, cs):
        if len(cs) != len(self.cs):
            return (False, False)
        v = True
        ns = []
        for a, b in zip(self.cs, cs):
            ev, en = _c_eq(a, b)
            if en is False:
                return (False, False)
            v = v and ev
            if en is not True:
                ns.append(en)
        return (v, b_and(*ns))

    def __eq__(self, o):
        c = _codes(o)
        if c is None:
            return False
        return _cb(self._eq(c))

    def __ne__(self, o):
        return sym_not(self == o)

    def _lt(self, c, strict):
        # lexicographic, built from the end
        a = self.cs
        n = min(len(a), len(c))
        if strict:
            v, nd = (len(a) < len(c),) * 2
        else:
            v, nd = (len(a) <= len(c),) * 2
        for i in range(n - 1, -1, -1):
            x, y = a[i], c[i]
            xi = x if isinstance(x, int) else x.v
            yi = y if isinstance(y, int) else y.v
            xn = x if isinstance(x, int) else x.n
            yn = y if isinstance(y, int) else y.n
            lt = b_le0(n_add(n_sub(xn, yn), 1))
            eq = b_eq0(n_sub(xn, yn))
            v = (xi < yi) or (xi == yi and v)
            nd = b_or(lt, b_and(eq, nd))
        return _mkbool(v, nd)

    def __lt__(self, o):
        c = _codes(o)
        if c is None:
            return NotImplemented
        return self._lt(c, True)

    def __le__(self, o):
        c = _codes(o)
        if c is None:
            return NotImplemented
        return self._lt(c, False)

    def __gt__(self, o):
        return sym_not(self <= o)

    def __ge__(self, o):
        return sym_not(self < o)

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        c = _codes(o)
        if c is None:
            raise TypeError("'in <string>' requires string as left operand")
        m = len(c)
        if m == 0:
            return True
        v = False
        ns = []
        for i in range(len(self.cs) - m + 1):
            ev, en = mk_window(self.cs, i, c)
            if en is True:
                return True
            v = v or ev
            if en is not False:
                ns.append(en)
        return _mkbool(v, b_or(*ns))

    def find(self, sub, start=0, end=None):
        c = _codes(sub)
        if c is None:
            raise TypeError("find: not a string")
        start, end, _ = slice(start, end).indices(len(self.cs))
        m = len(c)
        for i in range(start, end - m + 1):
            if _cb(mk_window(self.cs, i, c)):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub, start=0, end=None):
        c = _codes(sub)
        start, end, _ = slice(start, end).indices(len(self.cs))
        m = len(c)
        for i in range(end - m, start - 1, -1):
            if _cb(mk_window(self.cs, i, c)):
                return i
        return -1

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        c = _codes(sub)
        m = len(c)
        i = 0
        n = 0
        while i <= len(self.cs) - m:
            if _cb(mk_window(self.cs, i, c)):
                n += 1
                i += max(m, 1)
            else:
                i += 1
        return n

    def startswith(self, p, start=0):
        cs = self.cs[start:]
        if isinstance(p, tuple):
            r = False
            for q in p:
                x = SymStr(cs, self.uni).startswith(q)
                r = x | r if isinstance(x, SymBool) else (r if not x else True)
                if r is True:
                    return True
            return r
        c = _codes(p)
        if c is None:
            raise TypeError("startswith")
        if len(c) > len(cs):
            return False
        return _cb(mk_window(cs, 0, c))

    def endswith(self, p):
        if isinstance(p, tuple):
            r = False
            for q in p:
                x = self.endswith(q)
                r = x | r if isinstance(x, SymBool) else (r if not x else True)
                if r is True:
                    return True
            return r
        c = _codes(p)
        if c is None:
            raise TypeError("endswith")
        if len(c) > len(self.cs):
            return False
        return _cb(mk_window(self.cs, len(self.cs) - len(c), c))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out = []
            cur = None
            cs = self.cs
            i = 0
            n = len(cs)
            while i < n:
                if _cb(_c_in(cs[i], WS)):
                    i += 1
                    continue
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and _cb(_c_in(cs[j - 1], WS)):
                        j -= 1
                    # python keeps trailing whitespace of the remainder
                    out.append(mkstr(cs[i:], self.uni))
                    return out
                j = i
                while j < n and not _cb(_c_in(cs[j], WS)):
                    j += 1
                out.append(mkstr(cs[i:j], self.uni))
                i = j
            return out
        c = _codes(sep)
        if c is None:
            raise TypeError("split")
        m = len(c)
        if m == 0:
            raise ValueError("empty separator")
        out = []
        i = 0
        last = 0
        while i <= len(self.cs) - m:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if _cb(mk_window(self.cs, i, c)):
                out.append(mkstr(self.cs[last:i], self.uni))
                i += m
                last = i
            else:
                i += 1
        out.append(mkstr(self.cs[last:], self.uni))
        return out

    def rsplit(self, sep, maxsplit=-1):
        c = _codes(sep)
        m = len(c)
        out = []
        i = len(self.cs) - m
        last = len(self.cs)
        while i >= 0:
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if _cb(mk_window(self.cs, i, c)):
                out.insert(0, mkstr(self.cs[i + m:last], self.uni))
                last = i
                i -= m
            else:
                i -= 1
        out.insert(0, mkstr(self.cs[:last], self.uni))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        out = []
        cs = self.cs
        i = 0
        n = len(cs)
        last = 0
        while i < n:
            if _cb(_c_in(cs[i], frozenset((10, 13)))):
                e = i + 1
                if _cb(_c_eq(cs[i], 13)) and i + 1 < n and _cb(_c_eq(cs[i + 1], 10)):
                    e = i + 2
                out.append(mkstr(cs[last:e if keepends else i], self.uni))
                last = e
                i = e
            else:
                i += 1
        if last < n:
            out.append(mkstr(cs[last:], self.uni))
        return out

    def _strip(self, chars, left, right):
        if chars is None:
            s = WS
        else:
            c = _codes(chars)
            s = frozenset(x if isinstance(x, int) else concretize(x) for x in c)
        i, j = 0, len(self.cs)
        if left:
            while i < j and _cb(_c_in(self.cs[i], s)):
                i += 1
        if right:
            while j > i and _cb(_c_in(self.cs[j - 1], s)):
                j -= 1
        return mkstr(self.cs[i:j], self.uni)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def _map(self, frm, delta):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.append(c + delta if c in frm else c)
            else:
                v, n = _c_in(c, frm)
                nn = n_ite(n, n_add(c.n, delta), c.n)
                out.append(_mkint(c.v + delta if v else c.v, nn))
        return mkstr(out, self.uni)

    def upper(self):
        return self._map(LOWER, -32)

    def lower(self):
        return self._map(UPPER, 32)

    def title(self):
        out = []
        prev = False
        for c in self.cs:
            x = mkstr((c,), self.uni)
            al = bool(x.isalpha()) if isinstance(x, SymStr) else (x.isascii() and x.isalpha())
            out.append((x.lower() if prev else x.upper()) if al else x)
            prev = al
        return mkstr(sum([_codes(x) for x in out], ()), self.uni)

    def capitalize(self):
        if not self.cs:
            return self
        a, b = self[:1], self[1:]
        return promote(a).upper() + promote(b).lower() if len(self.cs) > 1 else promote(a).upper()

    def swapcase(self):
        out = ()
        for c in self.cs:
            x = promote(mkstr((c,), self.uni))
            out += _codes(x.lower() if x._all(UPPER) else x.upper())
        return mkstr(out, self.uni)

    def _cased(self, want, other):
        seen = False
        for c in self.cs:
            x = promote(mkstr((c,), self.uni))
            if x._all(other):
                return False
            if not seen and x._all(want):
                seen = True
        return seen

    def islower(self):
        return self._cased(LOWER, UPPER)

    def isupper(self):
        return self._cased(UPPER, LOWER)

    def center(self, w, f=" "):
        pad = w - len(self.cs)
        if pad <= 0:
            return self
        left = pad // 2 + (pad & w & 1)
        return mkstr((ord(f),) * left + self.cs + (ord(f),) * (pad - left), self.uni)

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def _all(self, s):
        if not self.cs:
            return False
        v = True
        ns = []
        for c in self.cs:
            ev, en = _c_in(c, s)
            v = v and ev
            ns.append(en)
        return _mkbool(v, b_and(*ns))

    def isdigit(self):
        return self._all(DIGITS)

    def isspace(self):
        return self._all(WS)

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALPHA | DIGITS)

    def replace(self, a, b, maxn=-1):
        ca = _codes(a)
        cb = _codes(b)
        m = len(ca)
        if m == 0:
            r = self.concrete().replace("", concretize(b), maxn)
            return UStr(r) if self.uni else r
        out = []
        i = 0
        n = len(self.cs)
        while i < n:
            if i <= n - m and maxn != 0 and _cb(mk_window(self.cs, i, ca)):
                out.extend(cb)
                i += m
                maxn -= 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out, self.uni)

    def join(self, items):
        items = list(items)
        out = []
        uni = self.uni
        for k, it in enumerate(items):
            c = _codes(it)
            if c is None:
                raise TypeError("sequence item %d: expected string" % (k,))
            uni = uni or _isuni(it)
            if k:
                out.extend(self.cs)
            out.extend(c)
        return mkstr(out, uni)

    def expandtabs(self, size=8):
        out = []
        col = 0
        for c in self.cs:
            if _cb(mk_window([c], 0, [9])):
                k = (size - col % size) if size > 0 else 0
                out.extend([32] * k)
                col += k
            else:
                out.append(c)
                if _cb(mk_window([c], 0, [10])) or _cb(mk_window([c], 0, [13])):
                    col = 0
                else:
                    col += 1
        return mkstr(out, self.uni)

    def zfill(self, w):
        cs = self.cs
        if len(cs) >= w:
            return self
        return mkstr((48,) * (w - len(cs)) + cs, self.uni)

    def ljust(self, w, f=" "):
        return mkstr(self.cs + (ord(f),) * (w - len(self.cs)), self.uni)

    def rjust(self, w, f=" "):
        return mkstr((ord(f),) * (w - len(self.cs)) + self.cs, self.uni)

    def translate(self, t, delete=""):
        return py_translate(self.concrete(), t, delete)

    def encode(self, enc="ascii", errors="strict"):
        # Python 2 semantics; only ASCII content is modelled symbolically
        enc = enc.lower().replace("_", "-")
        if self.uni and enc in ("utf-8", "utf8"):
            return mkstr(self._recode(lambda cs: tuple("".join(map(chr, cs)).encode("utf-8"))), False)
        self._ascii_only()
        if enc in ("utf-8", "utf8", "ascii", "us-ascii", "latin-1", "iso-8859-1"):
            return mkstr(self.cs, False)
        return (UStr(self.concrete()) if self.uni else self.concrete()).encode(enc)

    def decode(self, enc="ascii", errors="strict"):
        if not self.uni and enc.lower().replace("_", "-") in ("utf-8", "utf8"):
            return mkstr(self._recode(lambda cs: tuple(map(ord, bytes(cs).decode("utf-8")))), True)
        self._ascii_only()
        return mkstr(self.cs, True)

    def _recode(self, how):
        # runs of concrete non-ASCII characters; a symbolic character has to be ASCII
        out, run = [], []
        for c in self.cs + (0,):
            if isinstance(c, int) and c > 127:
                run.append(c)
                continue
            if run:
                out.extend(how(tuple(run)))
                run = []
            if not isinstance(c, int) and c.n.hi > 127:
                lt = c < 128
                if not lt:
                    raise Unsupported("non-ascii recode of symbolic char")
            out.append(c)
        return tuple(out[:-1])

    def _ascii_only(self):
        for c in self.cs:
            if isinstance(c, int):
                if c > 127:
                    raise Unsupported("non-ascii recode")
            elif c.n.hi > 127:
                lt = c < 128
                if not lt:
                    raise Unsupported("non-ascii recode of symbolic char")

    def format(self, *a, **k):
        from py2 import fmt_format
        return fmt_format(self.concrete(), a, k)


def mk_window(cs, i, c):
    v = True
    ns = []
    for k, y in enumerate(c):
        ev, en = _c_eq(cs[i + k], y)
        if en is False:
            return (False, False)
        v = v and ev
        if en is not True:
            ns.append(en)
    return (v, b_and(*ns))


def sym_int_parse(s, base=10):
    """int(str) for a SymStr, Python 2 rules (base 10)"""
    if base != 10:
        return int(s.concrete(), base)
    t = s.strip()
    if isinstance(t, str):
        return int(t)
    cs = t.cs
    neg = False
    c0 = cs[0]
    if len(cs) > 1:
        if _cb(_c_eq(c0, 45)):
            neg = True
            cs = cs[1:]
        elif _cb(_c_eq(c0, 43)):
            cs = cs[1:]
    # digits
    v = True
    ns = []
    for c in cs:
        ev, en = _c_in(c, DIGITS)
        v = v and ev
        ns.append(en)
    if not cs or not _mkbool(v, b_and(*ns)):
        raise ValueError("invalid literal for int() with base 10: %r" % (s.value(),))
    total = 0
    for c in cs:
        total = total * 10 + (c - 48)
    # tighten interval: digits are 0..9 on this path
    if isinstance(total, SymInt):
        total = clamp(total, 0, 10 ** len(cs) - 1)
    return -total if neg else total


def clamp(x, lo, hi):
    """x is known on this path to lie within [lo, hi]: give later expressions a bounded alias"""
    return x


def sym_int_to_str(x, width=0, zero=False, plus=False, left=False):
    """decimal digits of a SymInt; forks on sign and number of digits"""
    neg = bool(x < 0)
    if neg:
        x = -x
    if not isinstance(x, SymInt):
        body = tuple(map(ord, str(x)))
    else:
        n = 1
        while not (x < 10 ** n):
            n += 1
            if n > 40:
                raise Unsupported("huge int")
        # merge short numbers when zero padding makes them uniform
        body = []
        for k in range(n - 1, -1, -1):
            d = (x // (10 ** k)) % 10 if k else x % 10
            if k == n - 1:
                d = x // (10 ** k)
            ch = d + 48
            body.append(ch)
        body = tuple(body)
    sign = (45,) if neg else ((43,) if plus else ())
    pad = width - len(body) - len(sign)
    if pad > 0:
        if zero and not left:
            body = (48,) * pad + body
        elif left:
            return mkstr(sign + body + (32,) * pad)
        else:
            return mkstr((32,) * pad + sign + body)
    return mkstr(sign + body)


def sym_int_to_str_padded(x, width):
    """%0<width>d for a non-negative SymInt known to fit: no fork on the number of digits"""
    body = []
    for k in range(width - 1, -1, -1):
        d = (x // (10 ** k)) % 10
        body.append(d + 48)
    return mkstr(body)
