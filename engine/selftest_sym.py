"""Checks the expression simplifier against plain arithmetic, and the explorer against brute force."""
import random
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import sym


def simplifier(n=20000, seed=1):
    rnd = random.Random(seed)
    for it in range(n):
        env = {"a": rnd.randint(-50, 400), "b": rnd.randint(0, 70)}
        if it % 500 == 0:
            sym.reset_nodes()
        va, vb = sym.var("a", -50, 400), sym.var("b", 0, 70)
        pool = [(va, env["a"]), (vb, env["b"])]
        for _ in range(rnd.randint(2, 9)):
            x, xv = rnd.choice(pool)
            y, yv = rnd.choice(pool)
            op = rnd.randint(0, 6)
            k = rnd.choice((2, 3, 4, 7, 12, 24, 60, 100, 1440))
            if op == 0:
                r = (sym.n_add(x, y), xv + yv)
            elif op == 1:
                r = (sym.n_sub(x, y), xv - yv)
            elif op == 2:
                c = rnd.choice((-60, -24, -7, -1, 2, 7, 24, 60))
                r = (sym.n_scale(x, c), xv * c)
            elif op in (3, 4):
                r = (sym.n_div(x, k), xv // k)
            else:
                r = (sym.n_mod(x, k), xv % k)
            pool.append(r)
        for x, v in pool:
            e = sym.evaluate(x, env)
            if e != v:
                print("WRONG", sym.show(x), e, v, env)
                return False
            if isinstance(x, sym.Node) and not (x.lo <= v <= x.hi):
                print("INTERVAL", sym.show(x), x.lo, x.hi, v, env)
                return False
            for bn, bv in ((sym.b_le0(x), v <= 0), (sym.b_eq0(x), v == 0)):
                for n2, w in ((bn, bv), (sym.b_not(bn), not bv)):
                    if sym.evaluate(n2, env) != w:
                        print("BOOL", sym.show(n2))
                        return False
    return True


def recombine():
    x = sym.var("x", 0, 10 ** 7)
    s = sym.n_mod(x, 60)
    r = sym.n_div(sym.n_sub(x, s), 60)
    m = sym.n_mod(r, 60)
    r = sym.n_div(sym.n_sub(r, m), 60)
    h = sym.n_mod(r, 24)
    d = sym.n_div(sym.n_sub(r, h), 24)
    t = sym.n_add(s, sym.n_scale(sym.n_add(m, sym.n_scale(sym.n_add(h, sym.n_scale(d, 24)), 60)), 60))
    return t is x


def prog1(S):
    a = S.int("a", -3, 12)
    b = S.int("b", 0, 6)
    t = S.str("t", 0, 3, "ab;")
    r = 0
    if (a + 4) // 3 == b % 3:
        r += 1
    for i in range(S.conc(b) // 2):
        if a * 2 > i + 3:
            r += 10
    x = S.choice("x", ["", "a", "b;"])
    if t == x:
        r += 100
    if t.find(";") == 1:
        r += 1000
    S.assume(a != 5)
    S.observe(r)


def prog2(S):
    t = S.str("t", 0, 4, "ab,\\")
    out = []
    cur = 0
    esc = False
    for c in t:
        if esc:
            esc = False
            cur += 1
        elif c == "\\":
            esc = True
        elif c == ",":
            out.append(cur)
            cur = 0
        else:
            cur += 1
    out.append(cur)
    d = {}
    for c in t:
        d[c] = 1
    S.observe([out, len(t.split(",")), t.strip("a") == "b", len(d)])


def prog3(S):
    y = S.int("y", 0, 40)
    m = S.int("m", 1, 12)
    k = (y * 5 + m) % 7
    r = 0
    while k > m:
        k -= 2
        r += 1
    z = [0, 31, 28, 31][m % 4]
    if z == 28 and y % 4 == 0 and (y % 20 != 0 or y == 40):
        r += 50
    S.observe([r, z])


def exhaustive():
    """the explored paths are exactly the paths that running every input one by one takes"""
    import itertools
    import explore
    import py2

    def strs(al, n):
        for L in range(n + 1):
            for t in itertools.product(al, repeat=L):
                yield "".join(t)

    def envs1():
        for a in range(-3, 13):
            for b in range(0, 7):
                for x in range(3):
                    for t in strs("ab;", 3):
                        yield {"a": a, "b": b, "x": x}, t

    def envs2():
        for t in strs("ab,\\", 4):
            yield {}, t

    def envs3():
        for y in range(41):
            for m in range(1, 13):
                yield {"y": y, "m": m}, None
    world = py2.World({})
    for prog, envs in ((prog1, envs1), (prog2, envs2), (prog3, envs3)):
        hs = [("h", prog, {}, {})]
        ex = explore.Explorer(world, hs, {"z3_timeout_ms": 60000}, 4)
        w = explore.Worker(world, hs, ex.snap, {"z3_timeout_ms": 60000})
        # explored, in this process, recording every path
        seen = {}
        orig = w.run

        def run(hi, inputs):
            r = orig(hi, inputs)
            k = tuple(sym.show(t[0]) + str(t[1]) for t in sym.ctx.trace)
            if r[0] != "assume":
                seen[k] = seen.get(k, 0) + 1
            return r
        w.run = run
        st = explore.newstats()
        results = []
        import time
        left = w.explore(0, [({}, 0, None)], time.time() + 600, st, results)
        if left or results:
            print("explore", prog.__name__, len(left), results[:2])
            return False
        brute = set()
        for env, t in envs():
            env = dict(env)
            if t is not None:
                env["t#"] = len(t)
                for i, c in enumerate(t):
                    env["t[%d]" % i] = ord(c)
            if orig(0, env)[0] != "assume":
                brute.add(tuple(sym.show(t_[0]) + str(t_[1]) for t_ in sym.ctx.trace))
        if brute != set(seen):
            print("paths differ", prog.__name__, len(brute), len(seen), list(brute - set(seen))[:2], list(set(seen) - brute)[:2])
            return False
        if max(seen.values()) > 1:
            print("path repeated", prog.__name__, max(seen.values()))
            return False
        print("%s: %d paths, same as brute force" % (prog.__name__, len(seen)))
    return True


if __name__ == "__main__":
    ok = simplifier() and recombine()
    print("simplifier: %s" % ("ok" if ok else "FAILED"))
    ok = exhaustive() and ok
    sys.exit(0 if ok else 1)
