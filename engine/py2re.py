"""The re module for strings with symbolic characters: a backtracking matcher over Python's own parse of the pattern.

Every test of a symbolic character is a branch of the explored path.  Patterns of concrete subjects go to the native module
(with ASCII classes, as in Python 2 without the UNICODE flag)."""
import re as _re
import types

import sym
from sym import SymStr, UStr, Unsupported, mkstr

_p = _re._parser
_c = _re._constants

_DIGIT = frozenset(range(48, 58))
_SPACE = frozenset(map(ord, " \t\n\r\f\v"))
_WORD = frozenset(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"))
_CATS = {_c.CATEGORY_DIGIT: (_DIGIT, False), _c.CATEGORY_NOT_DIGIT: (_DIGIT, True), _c.CATEGORY_SPACE: (_SPACE, False),
         _c.CATEGORY_NOT_SPACE: (_SPACE, True), _c.CATEGORY_WORD: (_WORD, False), _c.CATEGORY_NOT_WORD: (_WORD, True)}


def _isin(code, s):
    if isinstance(code, int):
        return code in s
    return bool(sym._cb(sym._c_in(code, frozenset(s))))


def _caseless(s):
    r = set(s)
    for x in s:
        if 65 <= x <= 90:
            r.add(x + 32)
        elif 97 <= x <= 122:
            r.add(x - 32)
    return r


class _Matcher(object):
    def __init__(self, pat, codes, end):
        self.pat = pat
        self.flags = pat.flags
        self.cs = codes
        self.end = end

    def one(self, code, s):
        if self.flags & _re.I:
            s = _caseless(s)
        return _isin(code, s)

    def charset(self, code, av):
        neg = False
        lits = set()
        cats = []
        for op, a in av:
            if op is _c.NEGATE:
                neg = True
            elif op is _c.LITERAL:
                lits.add(a)
            elif op is _c.RANGE:
                lits.update(range(a[0], a[1] + 1))
            elif op is _c.CATEGORY:
                s, n = _CATS[a]
                if n:
                    cats.append(s)
                else:
                    lits.update(s)
            else:
                raise Unsupported("regular expression class %s" % (op,))
        r = bool(lits) and self.one(code, lits)
        if not r:
            for s in cats:
                if not _isin(code, s):
                    r = True
                    break
        return r != neg

    def at(self, av, i):
        if av in (_c.AT_BEGINNING, _c.AT_BEGINNING_STRING):
            return i == 0 or (av is _c.AT_BEGINNING and bool(self.flags & _re.M) and _isin(self.cs[i - 1], (10,)))
        if av is _c.AT_END_STRING:
            return i == self.end
        if av is _c.AT_END:
            if i == self.end:
                return True
            if self.flags & _re.M or i == self.end - 1:
                return _isin(self.cs[i], (10,))
            return False
        if av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
            a = i > 0 and _isin(self.cs[i - 1], _WORD)
            b = i < self.end and _isin(self.cs[i], _WORD)
            return (a != b) == (av is _c.AT_BOUNDARY)
        raise Unsupported("regular expression %s" % (av,))

    def seq(self, items, k, i, g):
        """yields (position, groups) for every way to match items[k:] at i, in order of preference"""
        if k == len(items):
            yield i, g
            return
        op, av = items[k]
        if op is _c.LITERAL or op is _c.NOT_LITERAL or op is _c.ANY or op is _c.IN:
            if i >= self.end:
                return
            code = self.cs[i]
            if op is _c.LITERAL:
                ok = self.one(code, (av,))
            elif op is _c.NOT_LITERAL:
                ok = not self.one(code, (av,))
            elif op is _c.ANY:
                ok = bool(self.flags & _re.S) or not _isin(code, (10,))
            else:
                ok = self.charset(code, av)
            if ok:
                for r in self.seq(items, k + 1, i + 1, g):
                    yield r
        elif op is _c.AT:
            if self.at(av, i):
                for r in self.seq(items, k + 1, i, g):
                    yield r
        elif op is _c.SUBPATTERN:
            n, _add, _del, sub = av
            for j, h in self.seq(list(sub), 0, i, g):
                if n is not None:
                    h = dict(h)
                    h[n] = (i, j)
                    h[None] = n
                for r in self.seq(items, k + 1, j, h):
                    yield r
        elif op is _c.BRANCH:
            for alt in av[1]:
                for j, h in self.seq(list(alt), 0, i, g):
                    for r in self.seq(items, k + 1, j, h):
                        yield r
        elif op is _c.MAX_REPEAT or op is _c.MIN_REPEAT:
            lo, hi, sub = av
            for j, h in self.rep(list(sub), lo, hi, i, g, 0, op is _c.MAX_REPEAT):
                for r in self.seq(items, k + 1, j, h):
                    yield r
        elif op is _c.GROUPREF:
            if av not in g:
                return
            a, b = g[av]
            if i + (b - a) > self.end:
                return
            for d in range(b - a):
                x, y = mkstr((self.cs[a + d],)), mkstr((self.cs[i + d],))
                if not (sym.promote(x) == y if isinstance(x, str) and isinstance(y, SymStr) else x == y):
                    return
            for r in self.seq(items, k + 1, i + b - a, g):
                yield r
        elif op is _c.ASSERT or op is _c.ASSERT_NOT:
            d, sub = av
            hit = None
            if d > 0:
                for hit in self.seq(list(sub), 0, i, g):
                    break
            else:
                for s in range(i, -1, -1):
                    for j, h in self.seq(list(sub), 0, s, g):
                        if j == i:
                            hit = (j, h)
                            break
                    if hit:
                        break
            if (hit is not None) == (op is _c.ASSERT):
                for r in self.seq(items, k + 1, i, hit[1] if hit is not None else g):
                    yield r
        else:
            raise Unsupported("regular expression %s" % (op,))

    def rep(self, sub, lo, hi, i, g, n, greedy):
        if not greedy and n >= lo:
            yield i, g
        if hi is _c.MAXREPEAT or n < hi:
            for j, h in self.seq(sub, 0, i, g):
                if j == i and n >= lo:
                    continue
                for r in self.rep(sub, lo, hi, j, h, n + 1, greedy):
                    yield r
        if greedy and n >= lo:
            yield i, g


class Match(object):
    def __init__(self, pat, s, g):
        self.re = pat
        self.string = s
        self._g = g
        self.lastindex = g.get(None)

    def _n(self, n):
        if isinstance(n, str):
            n = self.re.groupindex[n]
        if n > self.re.groups:
            raise IndexError("no such group")
        return n

    def _get(self, n, d=None):
        n = self._n(n)
        if n not in self._g:
            return d
        a, b = self._g[n]
        return self.string[a:b]

    def group(self, *ns):
        if not ns:
            return self._get(0)
        if len(ns) == 1:
            return self._get(ns[0])
        return tuple(self._get(n) for n in ns)

    def groups(self, default=None):
        return tuple(self._get(n, default) for n in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        import py2
        return py2.PDict([(k, self._get(k, default)) for k in self.re.groupindex])

    def start(self, n=0):
        return self._g.get(self._n(n), (-1, -1))[0]

    def end(self, n=0):
        return self._g.get(self._n(n), (-1, -1))[1]

    def span(self, n=0):
        return (self.start(n), self.end(n))


class Pattern(object):
    def __init__(self, pattern, flags):
        if isinstance(pattern, SymStr):
            pattern = pattern.concrete()
        self.pattern = pattern
        flags &= ~_re.L
        if not flags & _re.U:
            flags |= _re.A
        self.native = _re.compile(str(pattern), flags)
        self.flags = self.native.flags
        self.groups = self.native.groups
        self.groupindex = dict(self.native.groupindex)
        self.tree = None

    def __deepcopy__(self, memo):
        return self

    def _at(self, s, i, end, whole=False):
        if self.tree is None:
            self.tree = list(_p.parse(str(self.pattern), self.flags & ~_re.DEBUG))
        m = _Matcher(self, sym._codes(s), end)
        for j, g in m.seq(self.tree, 0, i, {}):
            if whole and j != end:
                continue
            g = dict(g)
            g[0] = (i, j)
            return Match(self, s, g)
        return None

    def _run(self, s, pos, endpos, move):
        if sym._codes(s) is None:
            raise TypeError("expected string or buffer")
        n = len(s)
        end = n if endpos is None else max(0, min(endpos, n))
        pos = max(0, pos)
        if not isinstance(s, SymStr):
            m = (self.native.search if move else self.native.match)(str(s), pos, end)
            if m is None:
                return None
            g = {k: m.span(k) for k in range(self.groups + 1) if m.span(k)[0] >= 0}
            if m.lastindex is not None:
                g[None] = m.lastindex
            return Match(self, s, g)
        for i in range(pos, (end if move else pos) + 1):
            if i > end:
                break
            m = self._at(s, i, end)
            if m is not None:
                return m
        return None

    def match(self, s, pos=0, endpos=None):
        return self._run(s, pos, endpos, False)

    def search(self, s, pos=0, endpos=None):
        return self._run(s, pos, endpos, True)

    def finditer(self, s, pos=0, endpos=None):
        last = -1
        while pos <= len(s):
            m = self._run(s, pos, endpos, True)
            if m is None:
                return
            a, b = m.span()
            if a == b and a == last:
                pos = a + 1
                m = self._run(s, pos, endpos, True) if pos <= len(s) else None
                if m is None:
                    return
                a, b = m.span()
            yield m
            last = b
            pos = b if b > a else b + 1

    def findall(self, s, pos=0, endpos=None):
        r = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                r.append(m.group())
            elif self.groups == 1:
                r.append(m._get(1, ""))
            else:
                r.append(m.groups(""))
        return r

    def split(self, s, maxsplit=0):
        r = []
        at = 0
        n = 0
        for m in self.finditer(s):
            a, b = m.span()
            if a == b:
                continue
            if maxsplit and n >= maxsplit:
                break
            r.append(s[at:a])
            r.extend(m.groups())
            at = b
            n += 1
        r.append(s[at:])
        return r

    def subn(self, repl, s, count=0):
        out = s[0:0]
        at = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.span()
            out = out + s[at:a] + (self._expand(m, repl) if sym._codes(repl) is not None else repl(m))
            at = b
            n += 1
        return (out + s[at:], n)

    def _expand(self, m, t):
        if isinstance(t, SymStr):
            t = t.concrete()
        t = str(t)
        if "\\" not in t:
            return t
        out = ""
        i = 0
        esc = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", "f": "\f", "v": "\v", "a": "\a"}
        while i < len(t):
            c = t[i]
            if c != "\\":
                out = out + c
                i += 1
                continue
            c = t[i + 1]
            if c == "g":
                e = t.index(">", i)
                nm = t[i + 3:e]
                out = out + m._get(int(nm) if nm.isdigit() else nm, "")
                i = e + 1
            elif c.isdigit():
                j = i + 1
                while j < len(t) and t[j].isdigit() and j < i + 3:
                    j += 1
                out = out + m._get(int(t[i + 1:j]), "")
                i = j
            else:
                out = out + esc.get(c, "\\" + c)
                i += 2
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]


_cache = {}


def compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    flags = int(flags)
    k = (p if isinstance(p, str) else p.concrete(), flags)
    if k not in _cache:
        _cache[k] = Pattern(p, flags)
    return _cache[k]


def _fn(name):
    def f(pattern, *a, **k):
        flags = k.pop("flags", 0)
        n = {"sub": 3, "subn": 3, "split": 2}.get(name, 1)
        if len(a) > n:
            flags = a[n]
            a = a[:n]
        return getattr(compile(pattern, flags), name)(*a, **k)
    return f


def escape(s):
    if isinstance(s, SymStr):
        s = s.concrete()
    return "".join(c if ord(c) < 128 and c.isalnum() else "\\" + c for c in s)


mod = types.ModuleType("re")
for _n in ("match", "search", "findall", "finditer", "split", "sub", "subn"):
    setattr(mod, _n, _fn(_n))
for _n in ("I", "IGNORECASE", "M", "MULTILINE", "S", "DOTALL", "X", "VERBOSE", "U", "UNICODE", "L", "LOCALE"):
    setattr(mod, _n, int(getattr(_re, _n)))
mod.compile = compile
mod.escape = escape
mod.error = _re.error
