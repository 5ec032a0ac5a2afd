import bisect
import collections
import functools
import itertools
import operator
import re
import string
from collections import defaultdict, namedtuple, OrderedDict
from contextlib import contextmanager
try:
    from cStringIO import StringIO
except ImportError:
    from StringIO import StringIO

Pair = namedtuple("Pair", ("a", "b"))
TABLE = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
CUM = tuple(sum(TABLE[:i]) for i in range(13))
MAP = dict((k, v) for v, k in enumerate("abc"))


def deco(f):
    @functools.wraps(f)
    def inner(*a, **k):
        return f(*a, **k)
    return inner


class Base(object):
    __slots__ = ("x", "y")
    count = 0

    def __init__(self, x, y=None):
        self.x = x
        self.y = y if y is not None else 0

    @property
    def total(self):
        return self.x + self.y

    @staticmethod
    def mk(x):
        return Base(x, 1)

    @classmethod
    def mk2(cls, x):
        return cls(x, 2)

    def __iter__(self):
        yield self.x
        yield self.y

    def __eq__(self, o):
        return isinstance(o, Base) and (self.x, self.y) == (o.x, o.y)

    def __ne__(self, o):
        return not self == o

    def __cmp__(self, o):
        return cmp((self.x, self.y), (o.x, o.y))

    def __hash__(self):
        return hash((self.x, self.y))

    def __nonzero__(self):
        return self.x != 0

    def __repr__(self):
        return "<%d,%d>" % (self.x, self.y)


class Sub(Base):
    def __init__(self, x):
        super(Sub, self).__init__(x, 3)


class Old:
    def __init__(self, v):
        self.v = v

    def __call__(self, z):
        return self.v + z

    def __getattr__(self, n):
        if n == "magic":
            return 42
        raise AttributeError(n)

    def __len__(self):
        return 2

    def __getitem__(self, i):
        if i >= 2:
            raise IndexError()
        return self.v + i

    def __contains__(self, q):
        return q == self.v


@contextmanager
def ctx(l):
    l.append("in")
    try:
        yield l
    finally:
        l.append("out")


def gen(n):
    i = 0
    while i < n:
        yield i
        i += 1
    else:
        yield -1


def f0(x, y):
    return bisect.bisect_right(CUM, x % 365), CUM[bisect.bisect_left(CUM, x % 365) - 1]


def f1(x, y):
    d = defaultdict(list)
    for i in (x % 3, y % 3, 2):
        d[i].append(i)
    return sorted(d.items())


def f2(x, y):
    p = Pair(x, b=y)
    q = p._replace(a=1)
    return p.a + q.b, p == (x, y), q[0], [v for v in p]


def f3(x, y):
    return [any(i == x % 4 for i in range(3)), all([i <= y for i in xrange(2)]), sum(i * x for i in (1, 2)), max(x, y), min([x, y]), max((x % 5, y % 3), key=lambda v: -v)]


def f4(x, y):
    try:
        if x % 3 == 0:
            raise ValueError("zero %d" % x)
        elif x % 3 == 1:
            raise KeyError(x)
    except ValueError, e:
        r = str(e)
    except (KeyError, TypeError) as e:
        r = e.args[0]
    else:
        r = "fine"
    finally:
        y += 1
    return r, y


def f5(x, y):
    l = []
    with ctx(l) as z:
        z.append(x % 2)
    return l


def f6(x, y):
    a = [y % 7, x % 7, 3]
    a.sort(cmp=lambda p, q: cmp(q, p))
    b = sorted([(x % 2, "b"), (y % 2, "a")], key=operator.itemgetter(0), reverse=True)
    return a, b, list(reversed(a))


def f7(x, y):
    return list(itertools.chain([x], [y])), [k for k, g in itertools.groupby([x % 2, y % 2, 1])], list(itertools.takewhile(lambda v: v < x, range(3))), list(itertools.islice(itertools.count(x), 2))


def f8(x, y):
    return reduce(operator.add, [x, y, 1]), map(lambda v: v + 1, [x, y]), filter(None, [x % 2, y % 2]), zip([x, y], "ab"), map(None, [x], [y])


def f9(x, y):
    return "{0:02d}-{1}".format(x, y), "%(a)s|%(b)03d" % {"a": x, "b": y}, "%s%s" % (x, "z"), "%r" % ((x, "q"),), `x`


def f10(x, y):
    b = Base(x, y)
    s = Sub(y)
    return b.total, s.total, Base.mk(x).y, Sub.mk(x) == Base(x, 1), b == s, b != s, b < s, bool(b), repr(b), list(b), len(set([b, s]))


def f11(x, y):
    o = Old(x)
    return o(y), o.magic, len(o), list(o), y in o, o[-1 + 1], getattr(o, "nope", 5), hasattr(o, "v")


def f12(x, y):
    q, r = divmod(x, 7)
    return q, r, x // -3, x % -3, -x / 2, abs(x - y), x ** 2, x & 3, x | 4, x ^ 1, x >> 1, x << 2, ~x, pow(2, x % 4), int(str(x)), cmp(x, y), x <> y


def f13(x, y):
    out = StringIO()
    out.write("a%d" % x)
    for i in gen(x % 3):
        out.write(str(i))
    out.write("".join(["b"] * (y % 3)))
    return out.getvalue()


def f14(x, y):
    def add(n, acc=[]):
        return n + x
    f = functools.partial(add, y)
    g = lambda *a, **k: (a, sorted(k.items()))
    return f(), g(1, x, z=y), deco(add)(1)


def f15(x, y):
    l = range(5)
    l[1:3] = [x]
    del l[0]
    l += [y]
    l.insert(1, 9)
    l.extend((1, 2))
    p = l.pop()
    l.remove(9)
    return l, p, l[::-1], l[-2:], l.index(x), l.count(1)


def f16(x, y):
    for i in range(x % 4):
        if i == y % 3:
            break
    else:
        i = 99
    while x > 10:
        x -= 5
        if x % 2:
            continue
        y += 1
    return i, x, y


def f17(x, y):
    s = "abcdef"
    return s[x % 6], s[x % 3:], s.find("c", x % 4), s.upper(), s.startswith("a"), s.split("c"), s.replace("b", str(x)), s.partition("d"), "%s" % s.rjust(8), ("%d" % x).zfill(4), s.strip("a"), string.digits[x % 10]


def f18(x, y):
    m = re.match(r"(\d+)-(\d+)$", "%d-%d" % (x, y))
    return int(m.group(1)), m.groups()


def f19(x, y):
    d = {"a": x}
    d.setdefault("b", y)
    d.update({"c": 1}, e=5)
    d2 = dict(d, z=2)
    e = {k: v for k, v in d.iteritems() if v != 1}
    o = OrderedDict([("p", x), ("q", y)])
    return sorted(d2.keys()), sorted(e.items()), d.get("zz", 7), d.pop("a"), d.has_key("a"), o.keys(), o.values(), {x % 3: "k"}.get(y % 3), len({x % 2, y % 2}), MAP["b"]


def f20(x, y):
    a, (b, c) = x, (y, 3)
    a, b = b, a
    r = a if a > b else b
    return a, b, c, r, 0 <= x < 10 <= y + 20, x and y, x or y, not x, (x, y) < (y, x), [x, y] == [y, x], None < x, x is None


def f21(x, y):
    global G
    G = x
    t = []
    for i, v in enumerate([x, y], 1):
        t.append((i, v))
    return t, G, isinstance(x, (int, long)), isinstance(x, int), type(x) is int, callable(f20), isinstance("a", basestring), unicode("a") == "a", tuple(t), list("ab"), iter([1]).next(), next(iter([2]), 3)


def f22(x, y):
    c = collections.deque([x], maxlen=2)
    c.append(y)
    c.appendleft(1)
    n = collections.Counter([x % 2, y % 2])
    return list(c), sorted(n.items())


def f23(x, y):
    s = set([x % 3])
    s.add(y % 3)
    return sorted(s | set([5])), sorted(s & set([0, 1])), sorted(s - set([1])), (x % 3) in s, s.issubset(set([0, 1, 2])), sorted(frozenset([x % 2])), sorted(s.symmetric_difference([0]))


def f24(x, y):
    r = []
    for p in itertools.product([x % 2, 1], "a"):
        r.append(p)
    assert x >= 0, "neg"
    return r, list(itertools.izip([x], [y])), list(itertools.imap(abs, [-1])), list(itertools.ifilter(lambda v: v, [x % 2])), list(itertools.repeat(1, 2)), [list(z) for z in itertools.combinations([1, 2, 3], 2)]


def f25(x, y):
    b = Base(1)
    setattr(b, "x", x)
    b.x += 1
    f = b.__class__
    r = f(y)
    try:
        b.z = 1
        slot = False
    except AttributeError:
        slot = True
    try:
        int("a")
    except Exception as e:
        k = e.__class__.__name__
    return b.x, r.x, k, round(2.5), int(3.7), float(1) / 2, ord("a"), chr(98), hex(255), 7 / 2, -7 / 2, 7 // 2.0


def f26(x, y):
    table = [lambda: x, lambda: y]
    l = [i for i in range(3) if i != x % 3]
    return table[x % 2](), l, i, sum([1 for k in l if k]), dict(zip("ab", (x, y)))["b"], any([]), all([])


def f27(s, t):
    return s.lower(), s == t, s < t, s in "abc", s + t, s * 2, len(s), s[0:1], s.isdigit(), s.isalpha(), ord(s), t.join(["1", "2"]), s.split("b"), {"a": 1, "b": 2}.get(s, 3), s.encode("utf-8"), s.strip(), s.replace("a", "zz"), s.count("a"), ("x" + s).endswith("a"), s.upper() in ("A", "B"), s.translate(string.maketrans("ab", "cd")), s.capitalize(), s.title()


ALL = [f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10, f11, f12, f13, f14, f15, f16, f17, f18, f19, f20, f21, f22, f23, f24, f25, f26]


class D(dict):
    def extra(self):
        return self["a"] + len(self)


class L(list):
    def first(self):
        return self[0]


@functools.total_ordering
class TO(object):
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return self.v == o.v

    def __lt__(self, o):
        return self.v < o.v


def f28(x, y):
    d = D(a=x)
    d["b"] = y
    l = L([x, y])
    l.sort()
    return d.extra(), d.get("b"), l.first(), TO(x) >= TO(y), TO(x) > TO(y), TO(x) != TO(y), type(x) is int, type("a") == str, type(d) is D, isinstance(d, dict), type([]) is list, type({}) is dict


def f29(x, y):
    import sys
    s = "%d,%d" % (x, y)
    f = s.split
    return map(str.strip, [" a ", "b "]), f(","), map(int, s.split(",")), min(sys.maxint, x), string.lower("AB"), [c for c in reversed(s)], "%-3d|%+d|%x|%5.2f" % (x, y, 255, 1.5), "%s" % [x, "a"], "%(k)s" % {"k": y}, str((x,)), "%c" % 65, "%%", "%5s|%-5s|%.1s" % ("a", "b", "cd")


def f30(x, y):
    s = "%02d:%02d" % (x, y)
    m = re.match(r"^(?P<h>\d{2}):(?P<m>\d\d)$", s)
    t = re.sub(r"0", "z", s)
    return int(m.group("h")), m.group("m"), t, re.split(":", s), re.findall("[0-4]", s), bool(re.search("1$", s)), re.compile("(a|1)(b|2)?").sub(r"<\1>", s), re.sub("\\d", lambda q: q.group(0) * 2, s)


def f31(x, y):
    r = []
    for i in [x, y]:
        tmp = [i for i in (1, 2)]
        r.append(i)
    sq = [a * b for a, b in ((x, 2), (y, 3))]
    return r, a, b, tmp, sq


def f32(x, y):
    try:
        try:
            if x > 3:
                raise IndexError("i")
            [1, 2][x]
        except IndexError:
            y += 1
            raise
        finally:
            y += 2
    except IndexError as e:
        y += 4
    if not x:
        return y
    elif x == 1 and y > 2 or x == 2 and not y < 5:
        pass
    else:
        y -= 1
    return x if x > 3 else (y if y else None), e if x == 99 else 0


def f33(x, y):
    days = (0, 31, 28, 31)
    idx = x % 4
    table = {0: "a", 1: "b", 2: "c", 3: "d"}
    keyed = {"a": lambda z: z + 1, "b": lambda z: z - 1}
    q = keyed.get(table[idx], lambda z: z)(y)
    n = next((i for i, d in enumerate(days) if d > y + 25), -1)
    s = slice(1, 3)
    return days[idx], table[idx], q, n, days[s], sum(days[:idx]), "abc"[idx % 3], (x > y) - (x < y), [1, 2, 3][-1 - idx % 3], bool(x) + 1, int(x > y), -(-x // 7), x // 7 * 7, (x + 3) / 4, ("no", "yes")[x > y], max([x, y, 3]), max(0, min(x, 5)), not (x and y)


ALL += [f28, f29, f30, f31, f32, f33]


def f34(s, t):
    return s.capitalize(), s.title(), s.swapcase(), s.islower(), s.isupper(), s.center(7), s.rpartition("a"), s.replace("", "-"), s.translate(None, "ab"), t.translate(string.maketrans("ab", "cd")), "abc".translate(None, t), s.rjust(5), s.ljust(4, "."), s.zfill(4), s.rstrip("a "), s.rfind("a"), s.splitlines(), s.rsplit(" ", 1), s.isspace(), s.isalnum(), s[::-1], s[-1:], sorted(s), list(s), s > "a", cmp(s, t), s and s[0] == t[0:1], "%s=%s" % (s, t), "<%5s>" % s, hash(s) == hash(s), s.__len__(), unicode(s) == s, str(s), repr(s), s != "a", s not in ("a", "b"), dict([(s, 1)]).get("a"), s in {"a": 1}, min(s + "z"), zip(s, "xy"), "-".join(s), ", ".join(["%s" % c for c in s]), [ord(c) for c in s], filter(lambda c: c != "a", s), map(None, s), any(c.isdigit() for c in s), int("0" + "".join(c for c in s if c.isdigit()))
