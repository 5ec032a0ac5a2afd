from pycalendar import zoo
def z(S, i):
    x, y = S.int("x", 0, 20), S.int("y", 0, 12)
    r = getattr(zoo,"f%d"%i)(x, y)
    S.check(r is not None, "r")
    S.observe(repr(r))
def st(S):
    r = zoo.f27(S.str("s",1,1,"abAB1 "), S.str("t",1,1,"abc"))
    S.check(r is not None, "r")
    S.observe(repr(r))
HARNESSES=[("f%d"%i,z,{"i":i},{"bounds":"x"}) for i in range(27)+range(28,34)]+[("f27",st,{},{"bounds":"x"})]
def rx(S):
    import re
    s = S.str("s",0,4,"ab1;: \n")
    r = []
    for p in ("a*b", "(a|b)+1?$", "[^a;]+", "^\\s*(\\w+)[;:]", "a.b", "(a)(b)?\\1", "\\bb", "a{2,3}", "(?:a|ab)(?:1|b1)", "a+?b", "(?=a)\\w", "(?i)A[B]", "\\Z", "(?<=a)b", "x*"):
        m = re.match(p, s); n = re.search(p, s)
        r.append((m and (m.group(), m.groups(), m.span()), n and (n.groups(), n.span())))
    r.append(re.split("[;:]", s)); r.append(re.findall("(a)|b", s)); r.append(re.sub("[ab]+", "<\\g<0>>", s)); r.append(re.sub("x*", "-", s))
    r.append(re.split("(;)", s, 1)); r.append(re.subn("a", "b", s, 1))
    S.check(True, "")
    S.observe(repr(r))
HARNESSES.append(("rx",rx,{},{"bounds":"x"}))

def st2(S):
    r = zoo.f34(S.str("s",0,3,"abAB1 "), S.str("t",1,1,"abc"))
    S.check(r is not None, "r")
    S.observe(repr(r))
HARNESSES.append(("f34",st2,{},{"bounds":"x"}))
