# vCard property lines: groups, value types, binary data, old forms
from pycalendar.datetime import DateTime
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property
from pycalendar.exceptions import InvalidProperty

TYPES = {
    "text": ["NAME", "PROFILE", "FN", "LABEL", "TEL", "EMAIL", "MAILER", "TITLE", "ROLE", "NOTE", "PRODID", "SORT-STRING", "UID", "VERSION", "CLASS"],
    "texts": ["NICKNAME", "CATEGORIES"],
    "uri": ["SOURCE", "URL"],
    "binary": ["LOGO", "SOUND", "KEY"],
    "date": ["BDAY"],
    "date-time": ["REV"],
    "utc-offset": ["TZ"],
}


def sample(S, kind):
    """a value of that type as a vCard has it, and as it is written"""
    if kind in ("text", "uri", "binary"):
        v = S.str("v", 0, 2, "aB:=")
        return v, v
    if kind == "date":
        y, m, d = S.int("vy", 1900, 2100), S.int("vm", 1, 12), S.int("vd", 1, 28)
        w = "%04d%02d%02d" % (y, m, d)
        return S.choice("iso", ["%04d-%02d-%02d" % (y, m, d), w]), w
    if kind == "date-time":
        m, d, h, n = S.int("vm", 1, 12), S.int("vd", 1, 28), S.int("vh", 0, 23), S.int("vn", 0, 59)
        z = S.choice("vz", ["", "Z"])
        w = "1995%02d%02dT%02d%02d01" % (m, d, h, n) + z
        return S.choice("iso", ["1995-%02d-%02dT%02d:%02d:01" % (m, d, h, n) + z, w]), w
    if kind == "utc-offset":
        w = S.choice("vs", ["+", "-"]) + "%02d:%02d" % (S.int("vh", 1, 23), S.int("vm", 0, 59))
        return w, w
    if kind == "integer":
        w = str(S.int("v", -99, 99))
        return w, w


def again(S, p):
    t = p.getText()
    S.check(t[-2:] == "\r\n" and "\n" not in t[:-2], "one line")
    q = Property.parseText(t[:-2])
    S.check(q.getText() == t, "same text again")
    for key in p.getParameters():
        for a in p.getParameters()[key]:
            a.setValues(sorted(a.getValues()))
    S.check(q == p and not (q != p) and hash(q) == hash(p), "equal")
    S.check(q.getGroup() == p.getGroup(), "group")
    return t[:-2], q


def jtype(p):
    j = []
    p.writeJSON(j)
    return j[0][2]


def default_type(S, kind):
    name = S.choice("name", TYPES[kind])
    written = S.choice("case", [name, name.lower()])
    group = S.choice("group", ["", "item1."])
    one = {"texts": "text"}.get(kind, kind)
    v, w = sample(S, one)
    p = Property.parseText(group + written + ":" + v)
    S.check(p.getName() == written, "name")
    S.check(p.getGroup() == (group[:-1] if group else None), "group")
    t, q = again(S, p)
    S.check(t == group + written + ":" + w, "standard form, no VALUE needed")
    S.check(jtype(p) == one and jtype(q) == one, "value type")
    S.observe(t)


def explicit_type(S, name, default, kinds):
    kind = S.choice("kind", kinds)
    val = S.choice("case", [kind.upper(), kind])
    v, w = sample(S, kind)
    p = Property.parseText(name + ";VALUE=" + val + ":" + v)
    t, q = again(S, p)
    S.check(t == name + (";VALUE=" + kind.upper() if kind != default else "") + ":" + w, "VALUE written when needed")
    S.check(jtype(p) == kind and jtype(q) == kind, "value type")
    S.observe(t)


def groups(S, hi):
    # a group is what comes before the first dot; cards keep it
    g = S.str("g", 1, hi, "aB1-")
    n = S.str("n", 1, 2, "aB-")
    body = S.str("b", 0, 2, "a.:;")
    p = Property.parseText(g + ".X" + n + ":" + body)
    S.check(p.getGroup() == g and p.getName() == "X" + n, "group and name")
    S.check(p.getValue().getValue() == body, "value")
    t, q = again(S, p)
    S.check(t == g + ".X" + n + ":" + body, "written as read")
    d = p.duplicate()
    S.check(d == p and d.getGroup() == g, "copy keeps the group")
    d.setGroup("other")
    S.check(p.getGroup() == g, "copy is independent")
    S.check(d != p and not (d == p), "another group is another property")
    e = Property.parseText("X" + n + ":" + body)
    S.check(e.getGroup() is None and e != p, "no group is another property")
    S.observe(t)


def photo(S, lo, hi):
    # inline pictures: broken into lines of at most 75, read back whole
    n = S.conc(S.int("n", lo, hi))
    c = S.str("c", 1, 1, "A+/=")
    group = S.choice("group", ["", "g."])
    name = S.choice("name", ["PHOTO", "photo"])
    data = "Q" * (n - 1) + c if n > 0 else ""
    p = Property.parseText(group + name + ";ENCODING=b;TYPE=JPEG:" + data)
    t = p.getText()
    lines = t.split("\r\n")
    S.check(lines[0] == group + name + ";ENCODING=b;TYPE=JPEG:", "first line")
    S.check(lines[-1] == "", "ends with a line break")
    for l in lines[1:-1]:
        S.check(len(l) <= 75 and l[:1] == " ", "line length")
    S.check("".join([l[1:] for l in lines[1:-1]]) == data, "data")
    card = Card.parseText("BEGIN:VCARD\r\nVERSION:3.0\r\n" + t + "FN:a\r\nEND:VCARD\r\n")
    q = card.getProperties("PHOTO")[0]
    S.check(q.getValue().getValue() == data, "read back")
    S.check(q == p and q.getText() == t, "equal")
    S.check(card.getPropertyString("FN") == "a", "next line")
    S.observe(t)


def photo_link(S):
    # a picture by reference stays a reference
    v = S.str("v", 0, 3, "a:/")
    val = S.choice("val", ["URI", "uri"])
    p = Property.parseText("PHOTO;VALUE=" + val + ":" + v)
    t, q = again(S, p)
    S.check(t == "PHOTO;VALUE=URI:" + v, "written as a link")
    S.check(jtype(q) == "uri", "type")
    S.observe(t)


def old_parameters(S, np):
    # vCard 2.1: parameters without a value
    k = S.conc(S.int("k", 1, np))
    line = S.choice("group", ["", "g."]) + "TEL"
    for i in range(k):
        line = line + ";" + S.choice("p%d" % i, ["HOME", "TYPE=WORK", "PREF", "TYPE=FAX,HOME"])
    v = S.str("v", 0, 2, "1:=")
    p = Property.parseText(line + ":" + v)
    S.check(p.getValue().getValue() == v, "value")
    t, q = again(S, p)
    pieces = t[:len(t) - len(v) - 1].split(";")
    S.check(pieces[0] + ";" + ";".join(sorted(pieces[1:])) == line.split(";")[0] + ";" + ";".join(sorted(line.split(";")[1:])), "nothing lost or added")
    S.observe(t)


def old_base64(S, hi):
    # vCard 2.1 BASE64 becomes ENCODING=B, spaces in the data go away
    v = S.str("v", 0, hi, "A =")
    name = S.choice("name", ["PHOTO", "KEY"])
    w = S.choice("w", ["BASE64", "base64"])
    p = Property.parseText(name + ";" + w + ":" + v)
    S.check(p.getValue().getValue() == v.replace(" ", ""), "data")
    S.check(p.getParameterValue("ENCODING") == "B", "encoding")
    S.observe(p.getText())


def structure(S, np, hi):
    name = S.choice("group", ["", "g1."]) + "X-" + S.str("n", 1, 2, "Ab-")
    k = S.conc(S.int("k", 0, np))
    line = name
    want = []
    for i in range(k):
        pn = S.choice("p%d" % i, ["Q", "q", "X-A"])
        m = S.conc(S.int("m%d" % i, 1, 2))
        vals = []
        line = line + ";" + pn + "="
        for j in range(m):
            v = S.str("v%d%d" % (i, j), 1, 1, "a:;,")
            if v in ":;,":
                line = line + ("," if j else "") + "\"" + v + "\""
            else:
                line = line + ("," if j else "") + v
            vals.append(v)
        want.append((pn, vals))
    body = S.str("body", 0, hi, "a:;,=\".")
    p = Property.parseText(line + ":" + body)
    S.check(p.getValue().getValue() == body, "value")
    up = {}
    for pn, vals in want:
        up.setdefault(pn.upper(), []).append((pn, vals))
    S.check(sorted(p.getParameters().keys()) == sorted(up.keys()), "parameter names")
    for key in up:
        S.check([(a.getName(), a.getValues()) for a in p.getParameters()[key]] == up[key], "parameters of one name, in order")
    t, q = again(S, p)
    if (k < 2 or want[0][0].upper() <= want[1][0].upper()) and len([v for pn, v in want if sorted(v) != v]) == 0:
        S.check(t == line + ":" + body, "written as read")
    S.observe(t)


def anything(S, pre, hi, alpha):
    t = pre + S.str("t", 0, hi, alpha)
    try:
        p = Property.parseText(t)
    except InvalidProperty:
        colon = t.find(":")
        simple = colon > 0 and "\"" not in t[:colon] and ";" not in t[:colon] and t[:1] not in " ." and t[:colon].find(".") != colon - 1
        S.check(not simple, "name:value is accepted")
        S.observe("refused")
        return
    S.check(":" in t, "a line without a colon is refused")
    S.check(t[:1] != ":" and t[:1] != ";", "a line without a name is refused")
    u = p.getText()
    q = Property.parseText(u[:-2])
    S.check(q.getText() == u, "same text again")
    S.observe(u)


def bad_value(S, kind, hi):
    name = S.choice("name", TYPES[kind])
    alpha = {"date-time": "2T-a", "date": "2T-a:", "utc-offset": "+0a:"}[kind]
    v = S.str("v", 0, hi, alpha)
    try:
        Property.parseText(name + ":" + v)
        refused = False
    except InvalidProperty:
        refused = True
    S.check(refused, "refused")
    S.observe(refused)


HARNESSES = [
    ("default_" + k, default_type, {"kind": k}, {"bounds": "each standard property of this type, with and without a group, a symbolic value"}) for k in sorted(TYPES)
] + [
    ("value_bday", explicit_type, {"name": "BDAY", "default": "date", "kinds": ["date", "date-time", "text"]}, {"bounds": "VALUE in both cases"}),
    ("value_tz", explicit_type, {"name": "TZ", "default": "utc-offset", "kinds": ["utc-offset", "text"]}, {"bounds": "VALUE in both cases"}),
    ("value_logo", explicit_type, {"name": "LOGO", "default": "binary", "kinds": ["uri", "binary", "text"]}, {"bounds": "VALUE in both cases"}),
    ("value_x", explicit_type, {"name": "X-N", "default": "text", "kinds": ["uri", "integer", "date", "date-time", "binary"]}, {"bounds": "VALUE in both cases"}),
    ("groups", groups, {"hi": 2}, {"bounds": "groups of up to 2 characters, values of up to 2"}),
    ("photo", photo, {"lo": 0, "hi": 150}, {"bounds": "data of 0..150 characters, with and without a group"}),
    ("photo_link", photo_link, {}, {"bounds": "links of up to 3 characters"}),
    ("old_parameters", old_parameters, {"np": 2}, {"bounds": "up to 2 parameters with and without values"}),
    ("old_base64", old_base64, {"hi": 4}, {"bounds": "data of up to 4 characters"}),
    ("structure1", structure, {"np": 1, "hi": 2}, {"bounds": "up to 1 parameter of up to 2 values"}),
    ("structure2", structure, {"np": 2, "hi": 0}, {"bounds": "up to 2 parameters of up to 2 values"}),
    ("anything", anything, {"pre": "", "hi": 5, "alpha": "A.;:=\""}, {"bounds": "every text of up to 5 such characters"}),
    ("anything_param", anything, {"pre": "A;B", "hi": 5, "alpha": "=;:,\"a"}, {"bounds": "A;B and up to 5 such characters"}),
    ("bad_datetime", bad_value, {"kind": "date-time", "hi": 5}, {"bounds": "texts of up to 5 characters"}),
    ("bad_date", bad_value, {"kind": "date", "hi": 5}, {"bounds": "texts of up to 5 characters"}),
    ("bad_offset", bad_value, {"kind": "utc-offset", "hi": 5}, {"bounds": "texts of up to 5 characters"}),
    ("photo_long", photo, {"lo": 150, "hi": 400}, {"bounds": "data of 150..400 characters", "tier": "thorough"}),
    ("structure_long", structure, {"np": 2, "hi": 2}, {"bounds": "up to 2 parameters, values of up to 2 characters", "tier": "thorough"}),
]
