# Property parameters
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty
from pycalendar.parameter import Parameter
from pycalendar.exceptions import InvalidProperty

AL = "a ;,:^n'\"\\\n="


def norm(v):
    """line breaks are all written as one kind"""
    out = ""
    last = ""
    for c in v:
        if c == "\r":
            out += "\n"
        elif c == "\n":
            if last != "\r":
                out += "\n"
        else:
            out += c
        last = c
    return out


def writable(S, v):
    # known finding: a value that has to be quoted and ends in a backslash cannot be read back
    n = 0
    for c in v:
        n = n + 1 if c == "\\" else 0
    if n % 2 == 1 and needs_quotes(v):
        S.assume(False)


def needs_quotes(v):
    return ":" in v or ";" in v or "," in v or v[:1] == " "


def new(cls, value="x"):
    if cls == "ical":
        return Property("X-PROP", value)
    return VProperty(None, "X-PROP", value)


def cls_of(cls):
    return Property if cls == "ical" else VProperty


def line(S, p):
    t = p.getText()
    S.check(t[-2:] == "\r\n", "line end")
    t = t[:-2]
    S.check("\n" not in t and "\r" not in t, "one line only")
    return t


def quoted_parts(S, t):
    """the text is legal: quotes are balanced and enclose no quote"""
    n = 0
    for c in t:
        if c == '"':
            n += 1
    S.check(n % 2 == 0, "quotes are balanced")


def one(S, hi, cls, alphabet, exclude=True):
    v = S.str("v", 0, hi, alphabet)
    if exclude:
        writable(S, v)
    p = new(cls, S.choice("value", ["b:\"c", ";d", ""]) if cls == "ical" else "b")
    p.addParameter(Parameter("X-P", v))
    t = line(S, p)
    if '"' not in t.split(":")[-1]:
        pass
    q = cls_of(cls).parseText(t)
    S.check(list(q.getParameters().keys()) == ["X-P"], "one parameter")
    S.check(list(q.getParameterValues("X-P")) == [norm(v)], "value read back")
    S.check(q.getParameterValue("x-p") == norm(v), "name in any case")
    S.check(q.getValue().getValue() == p.getValue().getValue(), "property value unaffected")
    S.check(line(S, q) == t, "same text again")
    S.observe(t)


def many(S, n, hi, cls):
    k = S.conc(S.int("k", 1, n))
    vals = [S.str("v%d" % i, 0, hi, "ab;^ ") for i in range(k)]
    p = new(cls)
    p.addParameter(Parameter("X-P", list(vals)))
    t = line(S, p)
    q = cls_of(cls).parseText(t)
    got = q.getParameterValues("X-P")
    S.check(len(got) == k, "number of values")
    S.check(sorted(got) == sorted(vals), "same values")
    S.check(line(S, q) == t, "same text again")
    S.observe(t)


def several(S, hi, cls):
    # different names, and one name used twice
    a = S.str("a", 0, hi, "x;^")
    b = S.str("b", 0, hi, "x,^")
    c = S.str("c", 0, hi, "x: ")
    p = new(cls)
    p.addParameter(Parameter("X-B", b))
    p.addParameter(Parameter("x-a", a))
    p.addParameter(Parameter("X-A", c))
    t = line(S, p)
    q = cls_of(cls).parseText(t)
    S.check(sorted(q.getParameters().keys()) == ["X-A", "X-B"], "names")
    S.check([list(i.getValues()) for i in q.getParameters()["X-A"]] == [[a], [c]], "both uses of the name, in order")
    S.check(q.getParameterValue("X-B") == b, "other name")
    S.check(q.hasParameter("x-b") and not q.hasParameter("X-C"), "hasParameter")
    q.replaceParameter(Parameter("x-A", "new"))
    S.check(len(q.getParameters()["X-A"]) == 1 and q.getParameterValue("X-A") == "new", "replace")
    q.removeParameters("x-b")
    S.check(not q.hasParameter("X-B"), "remove")
    S.check(p.hasParameter("X-B"), "the source is not affected")
    S.observe(t)


def decode(S, hi, quoted):
    # reading: ^n ^' ^^ are decoded, every other use of ^ is kept as it is
    t = S.str("t", 0, hi, "a^n'N;" if quoted else "a^n'N")
    exp = ""
    i = 0
    while i < len(t):
        c = t[i]
        if c == "^" and i + 1 < len(t) and t[i + 1] in "n'^":
            exp += {"n": "\n", "'": '"', "^": "^"}[t[i + 1]]
            i += 2
        else:
            exp += c
            i += 1
    p = Property.parseText("X-PROP;X-P=" + ('"' + t + '"' if quoted else t) + ":v")
    S.check(p.getParameterValue("X-P") == exp, "decoded")
    q = Property.parseText(line(S, p))
    S.check(q.getParameterValue("X-P") == exp, "written out and read back")
    S.check(q == p and not (q != p), "equal")
    S.observe(exp)


def equality(S, hi):
    a = S.str("a", 0, hi, "xyX")
    b = S.str("b", 0, hi, "xyX")
    p = new("ical")
    p.addParameter(Parameter("X-P", a))
    q = new("ical")
    q.addParameter(Parameter("x-p", b))
    S.check((p == q) == (a == b) and (p != q) == (a != b), "parameters take part in equality")
    if a == b:
        S.check(hash(p) == hash(q), "hash")
    r = p.duplicate()
    S.check(r == p, "copy")
    r.getParameters()["X-P"][0].setValues(["other"])
    S.check(p.getParameterValue("X-P") == a, "copy is independent")
    S.observe(a == b)


def junk(S, hi, cls, alphabet):
    # whatever follows the name: an answer or the documented error, never a hang or another error
    t = "FN" + S.str("t", 0, hi, alphabet)
    try:
        p = cls_of(cls).parseText(t)
    except InvalidProperty:
        S.reached()
        S.observe("refused")
        return
    S.check(":" in t, "a property has a colon")
    try:
        out = p.getText()
    except Exception:
        S.fail("an accepted property can be written")
    S.observe(out)


def known(S, hi, cls, alphabet):
    one(S, hi, cls, alphabet, False)


HARNESSES = [
    ("one_ical", one, {"hi": 4, "cls": "ical", "alphabet": AL}, {"bounds": "every value of up to 4 characters of a space ; , : ^ n ' \" \\ newline ="}),
    ("one_cr", one, {"hi": 4, "cls": "ical", "alphabet": "a\r\n^"}, {"bounds": "values of up to 4 characters of a CR LF ^"}),
    ("one_vcard", one, {"hi": 3, "cls": "vcard", "alphabet": AL}, {"bounds": "up to 3 characters"}),
    ("many_ical", many, {"n": 3, "hi": 2, "cls": "ical"}, {"bounds": "1..3 values of up to 2 characters"}),
    ("many_vcard", many, {"n": 2, "hi": 2, "cls": "vcard"}, {"bounds": "1..2 values of up to 2 characters"}),
    ("several_ical", several, {"hi": 2, "cls": "ical"}, {"bounds": "three parameters, values of up to 2 characters"}),
    ("several_vcard", several, {"hi": 1, "cls": "vcard"}, {"bounds": "three parameters, values of up to 1 character"}),
    ("decode", decode, {"hi": 5, "quoted": False}, {"bounds": "texts of up to 5 characters"}),
    ("decode_quoted", decode, {"hi": 4, "quoted": True}, {"bounds": "texts of up to 4 characters"}),
    ("equality", equality, {"hi": 2}, {"bounds": "values of up to 2 characters"}),
    ("junk_ical", junk, {"hi": 5, "cls": "ical", "alphabet": ";:=,\"a^ "}, {"bounds": "a name followed by up to 5 characters"}),
    ("junk_vcard", junk, {"hi": 5, "cls": "vcard", "alphabet": ";:=,\"a^ "}, {"bounds": "a name followed by up to 5 characters"}),
    ("one_ical_long", one, {"hi": 6, "cls": "ical", "alphabet": AL}, {"bounds": "up to 6 characters", "tier": "thorough"}),
    ("many_ical_long", many, {"n": 3, "hi": 3, "cls": "ical"}, {"bounds": "1..3 values of up to 3 characters", "tier": "thorough"}),
    ("junk_ical_long", junk, {"hi": 7, "cls": "ical", "alphabet": ";:=,\"a\\ "}, {"bounds": "a name followed by up to 7 characters", "tier": "thorough"}),
    ("junk_vcard_long", junk, {"hi": 7, "cls": "vcard", "alphabet": ";:=,\"a\\ "}, {"bounds": "a name followed by up to 7 characters", "tier": "thorough"}),
    ("backslash", known, {"hi": 2, "cls": "ical", "alphabet": AL}, {"tier": "known"}),
]
