# Text escaping and structured text values
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty
from pycalendar.vcard.n import N
from pycalendar.vcard.adr import Adr
from pycalendar.utils import escapeTextValue, decodeTextValue

AL = "a;,\\\n:\""


def line(S, p):
    t = p.getText()
    S.check(t[-2:] == "\r\n", "line end")
    t = t[:-2]
    S.check("\n" not in t and "\r" not in t, "one line only")
    return t


def reparse(S, cls, p):
    t = line(S, p)
    q = cls.parseText(t)
    S.check(q.getText() == p.getText(), "same text again")
    return q, t


def text(S, hi, cls, name):
    v = S.str("v", 0, hi, AL)
    p = Property(name, v) if cls == "ical" else VProperty(None, name, v)
    q, t = reparse(S, Property if cls == "ical" else VProperty, p)
    S.check(q.getValue().getValue() == v, "text value read back")
    S.check(q == p, "equal")
    S.check(t[:len(name) + 1] == name + ":", "name and colon")
    # independent reading of the escapes
    S.check(plain(S, t[len(name) + 1:]) == v, "standard escapes")
    S.observe(t)


def plain(S, t):
    out = ""
    i = 0
    while i < len(t):
        c = t[i]
        if c == "\\":
            S.check(i + 1 < len(t), "no dangling backslash")
            e = t[i + 1]
            S.check(e in "nN\\;,", "only standard escapes")
            if e == "n" or e == "N":
                out += "\n"
            else:
                out += e
            i += 2
        else:
            S.check(c not in ";,", "separators are escaped")
            out += c
            i += 1
    return out


def functions(S, hi):
    v = S.str("v", 0, hi, "a;,\\\n\r:")
    e = escapeTextValue(v)
    S.check("\n" not in e and "\r" not in e, "no line breaks")
    S.check(decodeTextValue(e) == v, "decode(encode(x)) == x")
    S.observe(e)


def decode(S, hi):
    # any escaped text made only of standard escapes is decoded exactly, and keeps its meaning when written again
    t = S.str("t", 0, hi, "a;,\\nN:")
    exp = ""
    esc = False
    ok = True
    for c in t:
        if esc:
            if c in "nN":
                exp += "\n"
            elif c in "\\;,:":
                exp += c
            else:
                ok = False
            esc = False
        elif c == "\\":
            esc = True
        else:
            exp += c
    S.assume(ok and not esc)
    p = Property.parseText("SUMMARY:" + t)
    S.check(p.getValue().getValue() == exp, "decoded")
    q = Property.parseText(line(S, p))
    S.check(q.getValue().getValue() == exp, "written out and read back")
    S.observe(exp)


def invalid_escape(S, hi):
    # an escape outside the standard ones is refused, a dangling backslash does no harm
    c = S.str("c", 1, 1, "abx0-\"'t")
    pre = S.str("p", 0, hi, "a,\\")
    n = 0
    for ch in pre:
        n = n + 1 if ch == "\\" else 0
        S.assume(n < 2)
    S.assume(pre[-1:] != "\\")
    try:
        Property.parseText("SUMMARY:" + pre + "\\" + c)
    except Exception as e:
        S.check(e.__class__.__name__ == "InvalidProperty", "refused with the documented error")
        S.observe("refused")
        return
    S.check("\\" in pre, "an unknown escape is refused")


def lists(S, n, hi, cls, name):
    # a list of text values keeps its items whatever they contain
    k = S.conc(S.int("k", 1, n))
    vals = [S.str("v%d" % i, 0, hi, "a,;\\\n") for i in range(k)]
    if cls == "ical":
        p = Property.parseText(name + ":x")
        p.setValue(vals)
        c = Property
    else:
        p = VProperty.parseText(name + ":x")
        p.setValue(vals)
        c = VProperty
    q, t = reparse(S, c, p)
    got = [i.getValue() for i in q.getValue().getValues()]
    S.check(len(got) == k, "number of items")
    for i in range(k):
        S.check(got[i] == vals[i], "item %d" % i)
    S.observe(t)


def org(S, n, hi):
    k = S.conc(S.int("k", 1, n))
    vals = tuple([S.str("v%d" % i, 0, hi, "a;,\\") for i in range(k)])
    p = VProperty(None, "ORG", vals)
    q, t = reparse(S, VProperty, p)
    got = q.getValue().getValue()
    if isinstance(got, str):
        got = (got,)
    S.check(len(got) == k, "number of units")
    for i in range(k):
        S.check(got[i] == vals[i], "unit %d" % i)
    S.observe(t)


def nested(S, kind, hi):
    # name and address components, single or lists, at any position
    cls = N if kind == "N" else Adr
    size = 5 if kind == "N" else 7
    pos = S.choice("pos", list(range(size)))
    k = S.conc(S.int("k", 1, 2))
    vals = [S.str("v%d" % i, 0, hi, "a;,\\\n") for i in range(k)]
    comps = ["b", "", "c;", ("d", "e,"), "\\", "g", ""][:size]
    comps[pos] = vals[0] if k == 1 else tuple(vals)
    v = cls(*comps)
    p = VProperty(None, kind, v)
    q, t = reparse(S, VProperty, p)
    got = q.getValue().getValue().getValue()
    S.check(len(got) == size, "number of components")
    for i in range(size):
        S.check(got[i] == comps[i], "component %d" % i)
    S.check(q.getValue().getValue() == v and not (q.getValue().getValue() != v), "equal")
    d = v.duplicate()
    S.check(d == v, "copy")
    S.observe(t)


SETTERS = {"N": ["Last", "First", "Middle", "Prefix", "Suffix"], "ADR": ["Pobox", "Extended", "Street", "Locality", "Region", "PostalCode", "Country"]}


def setters(S, kind, hi):
    cls = N if kind == "N" else Adr
    names = SETTERS[kind]
    pos = S.choice("pos", list(range(len(names))))
    val = S.str("v", 0, hi, "a;")
    comps = ["p", "q", "r", "s", "t", "u", "w"][:len(names)]
    v = cls(*comps)
    dup = v.duplicate()
    getattr(v, "set" + names[pos])(val)
    for i, nm in enumerate(names):
        S.check(getattr(v, "get" + nm)() == (val if i == pos else comps[i]), "component %s" % nm)
    S.check(list(dup.getValue()) == comps, "copy is independent")
    S.check((v == dup) == (val == comps[pos]), "==")
    S.check((v != dup) == (val != comps[pos]), "!=")
    S.observe(v.getText())


def reqstatus(S, n, hi):
    code = S.choice("code", ["2.0", "3.1", "5.3.1"])
    vals = [code] + [S.str("v%d" % i, 0 if i == 0 else 1, hi, "a;,\\\n") for i in range(n - 1)]
    p = Property("REQUEST-STATUS", list(vals))
    q, t = reparse(S, Property, p)
    got = q.getValue().getValue()
    S.check(len(got) == n, "number of parts")
    for i in range(n):
        S.check(got[i] == vals[i], "part %d" % i)
    S.observe(t)


def uri(S, hi):
    v = S.str("v", 0, hi, "a:;,/?=\n")
    p = Property("URL", v)
    q, t = reparse(S, Property, p)
    S.check(q.getValue().getValue() == v, "uri read back")
    S.observe(t)


def opaque(S, hi, name):
    # values of unknown type are passed through untouched
    v = S.str("v", 0, hi, "a;,\\:=\"")
    p = Property.parseText(name + ":" + v)
    S.check(p.getValue().getValue() == v, "kept")
    S.check(p.getText() == name + ":" + v + "\r\n", "written as read")
    S.observe(v)


HARNESSES = [
    ("text_ical", text, {"hi": 5, "cls": "ical", "name": "SUMMARY"}, {"bounds": "every text of up to 5 characters of a ; , \\ newline : quote"}),
    ("text_vcard", text, {"hi": 4, "cls": "vcard", "name": "NOTE"}, {"bounds": "every text of up to 4 such characters"}),
    ("functions", functions, {"hi": 6}, {"bounds": "texts of up to 6 characters"}),
    ("decode", decode, {"hi": 5}, {"bounds": "escaped texts of up to 5 characters"}),
    ("invalid_escape", invalid_escape, {"hi": 3}, {"bounds": "an unknown escape after up to 3 characters"}),
    ("list_ical", lists, {"n": 3, "hi": 2, "cls": "ical", "name": "CATEGORIES"}, {"bounds": "1..3 items of up to 2 characters"}),
    ("list_vcard", lists, {"n": 2, "hi": 2, "cls": "vcard", "name": "NICKNAME"}, {"bounds": "1..2 items of up to 2 characters"}),
    ("org", org, {"n": 3, "hi": 2}, {"bounds": "1..3 units of up to 2 characters"}),
    ("n", nested, {"kind": "N", "hi": 2}, {"bounds": "each component in turn, one or two items of up to 2 characters"}),
    ("adr", nested, {"kind": "ADR", "hi": 2}, {"bounds": "each component in turn, one or two items of up to 2 characters"}),
    ("n_set", setters, {"kind": "N", "hi": 2}, {"bounds": "each component, values of up to 2 characters"}),
    ("adr_set", setters, {"kind": "ADR", "hi": 2}, {"bounds": "each component, values of up to 2 characters"}),
    ("reqstatus2", reqstatus, {"n": 2, "hi": 3}, {"bounds": "descriptions of up to 3 characters"}),
    ("reqstatus3", reqstatus, {"n": 3, "hi": 2}, {"bounds": "descriptions and data of up to 2 characters"}),
    ("uri", uri, {"hi": 5}, {"bounds": "uris of up to 5 characters, no backslash"}),
    ("opaque_x", opaque, {"hi": 5, "name": "X-FOO"}, {"bounds": "up to 5 characters"}),
    ("opaque_addr", opaque, {"hi": 4, "name": "ATTENDEE"}, {"bounds": "up to 4 characters"}),
    ("text_ical_long", text, {"hi": 8, "cls": "ical", "name": "DESCRIPTION"}, {"bounds": "every text of up to 8 such characters", "tier": "thorough"}),
    ("list_ical_long", lists, {"n": 3, "hi": 4, "cls": "ical", "name": "CATEGORIES"}, {"bounds": "1..3 items of up to 4 characters", "tier": "thorough"}),
    ("n_long", nested, {"kind": "N", "hi": 4}, {"bounds": "as n, 4 characters", "tier": "thorough"}),
]
