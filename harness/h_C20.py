# JSON: jCal (RFC 7265) and jCard (RFC 7095)
from pycalendar.datetime import DateTime
from pycalendar.exceptions import InvalidData, InvalidProperty, InvalidComponent
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CardProperty
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase

REFUSALS = (InvalidData, InvalidProperty, InvalidComponent)

TYPES = {
    "text": ["CALSCALE", "METHOD", "PRODID", "VERSION", "CLASS", "COMMENT", "DESCRIPTION", "LOCATION", "STATUS", "SUMMARY", "TRANSP",
             "TZID", "TZNAME", "CONTACT", "RELATED-TO", "UID", "ACTION"],
    "uri": ["ATTACH", "TZURL", "URL"],
    "integer": ["PERCENT-COMPLETE", "PRIORITY", "REPEAT", "SEQUENCE"],
    "date-time": ["COMPLETED", "DTEND", "DUE", "DTSTART", "RECURRENCE-ID", "CREATED", "DTSTAMP", "LAST-MODIFIED"],
    "duration": ["DURATION", "TRIGGER"],
    "utc-offset": ["TZOFFSETFROM", "TZOFFSETTO"],
    "cal-address": ["ATTENDEE", "ORGANIZER"],
    "recur": ["RRULE", "EXRULE"],
    "unknown": ["X-FOO", "X-b"],
}
CARD_TYPES = {
    "text": ["NAME", "PROFILE", "FN", "LABEL", "TEL", "EMAIL", "MAILER", "TITLE", "ROLE", "NOTE", "PRODID", "SORT-STRING", "UID", "VERSION", "CLASS"],
    "uri": ["SOURCE", "URL"],
    "binary": ["LOGO", "SOUND", "KEY", "PHOTO"],
    "date": ["BDAY"],
    "date-time": ["REV"],
    "utc-offset": ["TZ"],
    "unknown": ["X-FOO", "x-b"],
}


def sample(S, kind, card=False):
    """a value in its text form, and as JSON has it"""
    if kind in ("text", "uri", "cal-address", "binary", "unknown", "boolean", "x-foo"):
        v = S.str("v", 0, 3, "aB:=")
        return v, v
    if kind == "integer":
        n = S.int("v", -99, 99)
        return str(n), n
    if kind == "date":
        y, m, d = S.int("vy", 1900, 2100), S.int("vm", 1, 12), S.int("vd", 1, 28)
        return "%04d%02d%02d" % (y, m, d), "%04d-%02d-%02d" % (y, m, d)
    if kind == "date-time":
        y, m, h, n = S.int("vy", 1900, 2100), S.int("vm", 1, 12), S.int("vh", 0, 23), S.int("vn", 0, 59)
        z = S.choice("vz", ["", "Z"])
        return "%04d%02d07T%02d%02d01" % (y, m, h, n) + z, "%04d-%02d-07T%02d:%02d:01" % (y, m, h, n) + z
    if kind == "duration":
        v = S.choice("vs", ["", "-"]) + "PT%dM" % S.int("v", 1, 59)
        return v, v
    if kind == "period":
        d, h = S.int("vd", 1, 28), S.int("vh", 1, 23)
        return "202401%02dT000000Z/PT%dH" % (d, h), ["2024-01-%02dT00:00:00Z" % d, "PT%dH" % h]
    if kind == "utc-offset":
        s, h, n = S.choice("vs", ["+", "-"]), S.int("vh", 1, 23), S.int("vn", 0, 59)
        j = s + "%02d:%02d" % (h, n)
        return (j if card else s + "%02d%02d" % (h, n)), j
    if kind == "recur":
        n = S.int("v", 1, 99)
        return "FREQ=DAILY;COUNT=%d" % n, {"freq": "DAILY", "count": n}


def state(p):
    """what a property says, apart from letter case of names and the order of parameter values"""
    params = {}
    for key in p.getParameters():
        for a in p.getParameters()[key]:
            S_values = params.get(key.upper(), [])
            params[key.upper()] = S_values + list(a.getValues())
    return (p.getGroup(), p.getName().upper(), sorted([(k, sorted(params[k])) for k in params if k != "VALUE"]), p.getValue().getText())


def through(S, cls, p):
    j = []
    p.writeJSON(j)
    S.check(len(j) == 1, "one property")
    q = cls.parseJSON(j[0])
    S.check(state(q) == state(p), "same property from JSON")
    S.check(q.getValue() == p.getValue() and q.getValue().getType() == p.getValue().getType(), "same value from JSON")
    k = []
    q.writeJSON(k)
    S.check(k == j, "same JSON again")
    return j[0], q


def same_text(S, cls, p, q):
    t, u = p.getText(), q.getText()
    a, b = cls.parseText(t[:-2]), cls.parseText(u[:-2])
    S.check(state(a) == state(b) and a.getValue() == b.getValue(), "same text")
    S.check(a.hasParameter("VALUE") == b.hasParameter("VALUE"), "VALUE in the text")
    if a.hasParameter("VALUE"):
        S.check(a.getParameterValue("VALUE").upper() == b.getParameterValue("VALUE").upper(), "same VALUE")


def default_type(S, card, kind):
    cls = CardProperty if card else Property
    name = S.choice("name", (CARD_TYPES if card else TYPES)[kind])
    v, w = sample(S, kind, card)
    p = cls.parseText(name + ":" + v)
    j, q = through(S, cls, p)
    S.check(j == [name.lower(), {}, kind, w], "JSON form")
    S.check(not q.hasParameter("VALUE"), "default type")
    same_text(S, cls, p, q)


def explicit_type(S, card, name, default, kinds):
    cls = CardProperty if card else Property
    kind = S.choice("kind", kinds)
    S.assume(kind != default)
    v, w = sample(S, kind, card)
    p = cls.parseText(name + ";VALUE=" + S.choice("case", [kind.upper(), kind]) + ":" + v)
    j, q = through(S, cls, p)
    S.check(j == [name.lower(), {}, kind, w], "JSON form")
    if name[:2] != "X-" or kind != "text":
        S.check(q.getParameterValue("VALUE") == kind.upper(), "type kept")
        same_text(S, cls, p, q)


def parameters(S, card, n, hi):
    # parameters: one value, several values, and several of one name
    cls = CardProperty if card else Property
    k = S.conc(S.int("k", 0, n))
    line = "X-A"
    want = {}
    for i in range(k):
        pn = S.choice("p%d" % i, ["P", "q", "p"])
        m = S.conc(S.int("m%d" % i, 1, 2))
        vals = [S.str("v%d%d" % (i, x), 1, hi, "a ^") for x in range(m)]
        line = line + ";" + pn + "=" + ",".join(["\"" + x + "\"" for x in vals])
        want[pn.lower()] = want.get(pn.lower(), []) + [x.replace("^^", "^") for x in vals]
    p = cls.parseText(line + ":z")
    j, q = through(S, cls, p)
    S.check(sorted(j[1].keys()) == sorted(want.keys()), "parameter names")
    for key in want:
        got = j[1][key]
        S.check((got if isinstance(got, list) else [got]) == want[key], "every value, in order")
    same_text(S, cls, p, q)


def lists(S, name, kind, n):
    k = S.conc(S.int("k", 1, n))
    texts = []
    jsons = []
    for i in range(k):
        if kind == "text":
            v = S.str("v%d" % i, 0, 2, "aB ")
            texts.append(v)
            jsons.append(v)
        elif kind == "date-time":
            d, z = S.int("d%d" % i, 1, 31), S.choice("z%d" % i, ["", "Z"])
            texts.append("202401%02dT030000" % d + z)
            jsons.append("2024-01-%02dT03:00:00" % d + z)
        else:
            d = S.int("d%d" % i, 1, 28)
            end = S.choice("end%d" % i, [False, True])
            texts.append("202401%02dT030000Z/" % d + ("202402%02dT000000Z" % d if end else "PT1H"))
            jsons.append(["2024-01-%02dT03:00:00Z" % d, "2024-02-%02dT00:00:00Z" % d if end else "PT1H"])
    default = {"RDATE": "date-time", "EXDATE": "date-time", "FREEBUSY": "period"}.get(name, "text")
    p = Property.parseText(name + (";VALUE=" + kind.upper() if kind != default else "") + ":" + ",".join(texts))
    if kind == "period" and S.bool("asked"):
        for v in p.getValue().getValues():
            v.getValue().getEnd()
            v.getValue().getDuration()
    j, q = through(S, Property, p)
    S.check(j == [name.lower(), {}, kind] + jsons, "JSON form")
    S.check(q.getText() == p.getText(), "same text")


def zoned(S):
    tz = S.choice("tz", ["", "Zone/A", "b c"])
    d, h = S.int("d", 1, 31), S.int("h", 0, 23)
    name = S.choice("name", ["DTSTART", "EXDATE", "RECURRENCE-ID"])
    p = Property.parseText(name + (";TZID=" + tz if tz else "") + ":202401%02dT%02d0000" % (d, h))
    j, q = through(S, Property, p)
    S.check(j == [name.lower(), {"tzid": tz} if tz else {}, "date-time", "2024-01-%02dT%02d:00:00" % (d, h)], "JSON form")
    S.check(q.getText() == p.getText(), "same text")
    v = q.getValue().getValues()[0].getValue() if name == "EXDATE" else q.getValue().getValue()
    S.check(v.getTimezoneID() == (tz if tz else None) and v.floating() == (not tz), "zone")


def structured(S, name, hi):
    # ADR, N and ORG: components and lists within them
    size = {"ADR": 7, "N": 5}.get(name)
    comps = []
    used = S.conc(S.int("used", 1, 3))
    for i in range(used):
        m = S.conc(S.int("m%d" % i, 1, 2)) if size and i < 2 else 1
        comps.append([S.str("v%d%d" % (i, x), 0, hi, "aB ") for x in range(m)])
    line = S.choice("group", ["", "g1."]) + name + ":" + ";".join([",".join(c) for c in comps])
    p = CardProperty.parseText(line)
    j, q = through(S, CardProperty, p)
    want = [c[0] if len(c) == 1 else c for c in comps]
    if size:
        want = want + [""] * (size - used)
    got = j[3]
    if isinstance(got, list):
        got = [list(x) if isinstance(x, tuple) else x for x in got]
    S.check(j[0] == name.lower() and j[2] == "text" and len(j) == 4, "JSON form")
    S.check(got == (want if len(want) > 1 else want[0]), "components")
    S.check(q == p and q.getText() == p.getText() and hash(q) == hash(p), "equal")


def groups(S):
    g = S.str("g", 0, 2, "aB1")
    name = S.choice("name", ["TEL", "X-A", "ADR", "PHOTO"])
    p = CardProperty.parseText((g + "." if g else "") + name + ";TYPE=x:v")
    j, q = through(S, CardProperty, p)
    S.check(j[1] == ({"type": "x", "group": g} if g else {"type": "x"}), "group parameter")
    S.check(q.getGroup() == p.getGroup() and q == p, "group")


SHAPES = [None, 5, "", "x", [], {}, ["x"], True]


def bad_property(S, card):
    # every wrong shape is refused with the documented error
    cls = CardProperty if card else Property
    name = S.choice("name", ["x-a", "dtstart", "sequence", "rrule", "exdate", "freebusy", "duration", "tz", "adr", "categories"])
    good = [name, {}, {"dtstart": "date-time", "sequence": "integer", "rrule": "recur", "exdate": "date-time", "freebusy": "period", "duration": "duration", "tz": "utc-offset"}.get(name, "text"), "x"]
    at = S.choice("at", ["name", "params", "param", "type", "value", "none", "all"])
    shape = S.choice("shape", SHAPES)
    if at == "name":
        good[0] = shape
    elif at == "params":
        good[1] = shape
    elif at == "param":
        good[1] = {"a": shape}
    elif at == "type":
        good[2] = shape
    elif at == "value":
        good[3] = shape
    elif at == "none":
        good = good[:S.choice("len", [0, 1, 2, 3])]
    else:
        good = shape
    try:
        p = cls.parseJSON(good)
        refused = False
    except InvalidProperty:
        p = None
        refused = True
    S.check(refused or p is not None, "refused with the documented error or read")
    if at == "none":
        S.check(refused or len(good) == 3 and name in ("exdate", "freebusy", "categories"), "nothing missing")
    if at == "all" and shape != "x":
        S.check(refused, "not a property")
    if at == "type" and not isinstance(shape, str):
        S.check(refused, "not a type")


def bad_container(S, card):
    cls = Card if card else Calendar
    top = "vcard" if card else "vcalendar"
    version = ["version", {}, "text", S.choice("version", ["3.0", "2.0"])]
    good = [top, [version], []]
    at = S.choice("at", ["name", "properties", "components", "none", "all", "property", "component", "version"])
    shape = S.choice("shape", SHAPES + ["vcard", "vcalendar", "VCALENDAR"])
    if at == "name":
        good[0] = shape
    elif at == "properties":
        good[1] = shape
    elif at == "components":
        good[2] = shape
    elif at == "none":
        good = good[:S.choice("len", [0, 1, 2])]
    elif at == "all":
        good = shape
    elif at == "property":
        good[1] = [version, shape]
    elif at == "component":
        good[2] = [shape]
    else:
        good[1] = []
    try:
        c = cls.parseJSONContainer(good)
        refused = False
    except REFUSALS:
        c = None
        refused = True
    if not refused:
        S.check(at in ("name", "components") and good[0] == top and len(good) == 3, "right type")
        S.check(c.getPropertyString("VERSION") == ("3.0" if card else "2.0"), "right version")
    else:
        S.check(at != "name" or shape != top or version[3] != ("3.0" if card else "2.0"), "nothing wrong with it")


def tree(c):
    props = []
    for name in c.getProperties():
        for p in c.getProperties()[name]:
            props.append(state(p))
    return (c.getType().upper(), sorted(props), [tree(x) for x in c.getComponents()])


def canon(t):
    return (t[0], t[1], sorted([canon(x) for x in t[2]]))


PROPS = ["SUMMARY;LANGUAGE=en:caf\xc3\xa9 \"q\" \\\\ \\n", "UID:u%d", "DTSTART;TZID=A/B:20240101T000000", "CATEGORIES:a,b\\,c", "RRULE:FREQ=WEEKLY;BYDAY=MO,-1TU", "ATTENDEE;CN=\"x,y\":mailto:a",
         "RDATE;VALUE=DATE:20240101,20240102", "GEO:1.5;2.25", "REQUEST-STATUS:2.0;ok;more", "X-A;VALUE=BOOLEAN:TRUE", "RRULE:FREQ=DAILY;UNTIL=20250101T000000Z;BYSETPOS=1,-1;BYMONTH=1"]


def documents(S, n):
    # whole calendars through JSON text
    TimezoneDatabase.clearTimezoneDatabase()
    lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "X-TOP:1"]
    for i in range(n):
        comp = S.choice("c%d" % i, ["VEVENT", "X-THING", "VTODO"])
        lines.append("BEGIN:" + comp)
        lines.append("UID:u%d" % i)
        lines.append(S.choice("p%d" % i, PROPS).replace("%d", str(i)))
        if i == 0:
            lines.extend(["BEGIN:VALARM", "ACTION:DISPLAY", "END:VALARM"])
        lines.append("END:" + comp)
    lines.append("END:VCALENDAR")
    cal = Calendar.parseText("\r\n".join(lines) + "\r\n")
    text = cal.getText(includeTimezones=Calendar.NO_TIMEZONES, format="application/calendar+json")
    again = Calendar.parseData(text, "application/calendar+json")
    S.check(canon(tree(again)) == canon(tree(cal)), "everything in its place")
    S.check(again.getText(includeTimezones=Calendar.NO_TIMEZONES) == cal.getText(includeTimezones=Calendar.NO_TIMEZONES), "same text")
    S.check(again.getText(includeTimezones=Calendar.NO_TIMEZONES, format="application/calendar+json") == text, "same JSON")
    TimezoneDatabase.clearTimezoneDatabase()


CPROPS = ["FN:a\xe2\x82\xac", "N:a;b,c;d", "N:x", "ORG:a;b", "ORG:one", "g.ADR:;;1,2;3", "TEL;TYPE=a,b;TYPE=c:1", "PHOTO;ENCODING=b:QQ", "NICKNAME:a,b", "BDAY:20000101", "TZ:-05:00", "TEL;HOME:2", "AGENT:x", "x.X-A:y"]


def cards(S, n):
    texts = []
    for i in range(n):
        texts.append("BEGIN:VCARD\r\nVERSION:3.0\r\n" + S.choice("p%d" % i, CPROPS) + "\r\n" + "UID:u%d\r\nEND:VCARD\r\n" % i)
    many = Card.parseMultipleData("".join(texts), "text/vcard")
    S.check(len(many) == n, "all cards")
    js = [c.getText(format="application/vcard+json") for c in many]
    for c, j in zip(many, js):
        d = Card.parseData(j, "application/vcard+json")
        if "TYPE=a,b;" not in c.getText():
            # (one parameter given twice comes back as one)
            S.check(d.getText() == c.getText(), "same text")
        S.check(d.getText(format="application/vcard+json") == j, "same JSON")
        S.check(canon(tree(d)) == canon(tree(c)), "same properties")
    again = Card.parseMultipleData("[" + ",".join(js) + "]", "application/vcard+json")
    S.check([canon(tree(c)) for c in again] == [canon(tree(c)) for c in many], "all cards, in order")


def timezones(S):
    # the zones of a JSON calendar are used, as those of a text calendar are
    TimezoneDatabase.clearTimezoneDatabase()
    h = S.int("h", -11, 12)
    off = ("-" if h < 0 else "+") + "%02d:00" % abs(h)
    j = ["vcalendar", [["version", {}, "text", "2.0"]], [
        ["vtimezone", [["tzid", {}, "text", "my zone"]], [
            ["standard", [["dtstart", {}, "date-time", "1970-01-01T00:00:00"], ["tzoffsetfrom", {}, "utc-offset", off], ["tzoffsetto", {}, "utc-offset", off]], []]]],
        ["vevent", [["uid", {}, "text", "u"], ["dtstart", {"tzid": "my zone"}, "date-time", "2024-05-05T12:00:00"]], []]]]
    cal = Calendar.parseJSONContainer(j)
    start = cal.getComponents("VEVENT")[0].getStart()
    start.adjustToUTC()
    want = DateTime(2024, 5, 5, 12, 0, 0, tzid=Timezone(utc=True))
    want.offsetHours(-h)
    S.check(start.getText() == want.getText(), "offset used")
    TimezoneDatabase.clearTimezoneDatabase()


KINDS = ["text", "uri", "integer", "date", "date-time", "duration", "period", "utc-offset", "cal-address", "recur", "binary", "boolean", "x-foo"]
CKINDS = ["text", "uri", "integer", "date", "date-time", "utc-offset", "binary", "boolean", "x-foo"]
HARNESSES = []
for _k in sorted(TYPES):
    HARNESSES.append(("default_" + _k, default_type, {"card": False, "kind": _k}, {"bounds": "every standard property of type " + _k + ", symbolic value"}))
for _k in sorted(CARD_TYPES):
    HARNESSES.append(("card_default_" + _k, default_type, {"card": True, "kind": _k}, {"bounds": "every vCard property of type " + _k + ", symbolic value"}))
HARNESSES += [
    ("explicit_x", explicit_type, {"card": False, "name": "X-A", "default": "unknown", "kinds": KINDS}, {"bounds": "13 value types, symbolic values"}),
    ("explicit_dtstart", explicit_type, {"card": False, "name": "DTSTART", "default": "date-time", "kinds": KINDS}, {"bounds": "12 value types, symbolic values"}),
    ("explicit_attach", explicit_type, {"card": False, "name": "ATTACH", "default": "uri", "kinds": KINDS}, {"bounds": "12 value types, symbolic values"}),
    ("card_explicit_x", explicit_type, {"card": True, "name": "X-A", "default": "unknown", "kinds": CKINDS}, {"bounds": "9 value types, symbolic values"}),
    ("card_explicit_bday", explicit_type, {"card": True, "name": "BDAY", "default": "date", "kinds": CKINDS}, {"bounds": "8 value types, symbolic values"}),
    ("parameters", parameters, {"card": False, "n": 2, "hi": 1}, {"bounds": "0..2 parameters of 3 names, 1..2 values of 1 character"}),
    ("card_parameters", parameters, {"card": True, "n": 2, "hi": 1}, {"bounds": "0..2 parameters of 3 names, 1..2 values of 1 character"}),
    ("list_rdate", lists, {"name": "RDATE", "kind": "period", "n": 2}, {"bounds": "1..2 periods"}),
    ("list_exdate", lists, {"name": "EXDATE", "kind": "date-time", "n": 2}, {"bounds": "1..2 times"}),
    ("list_freebusy", lists, {"name": "FREEBUSY", "kind": "period", "n": 2}, {"bounds": "1..2 periods"}),
    ("list_categories", lists, {"name": "CATEGORIES", "kind": "text", "n": 3}, {"bounds": "1..3 texts of 0..2 characters"}),
    ("zoned", zoned, {}, {"bounds": "3 properties with or without a TZID, every hour of a month"}),
    ("adr", structured, {"name": "ADR", "hi": 1}, {"bounds": "1..3 components, lists of 1..2 in the first two, 0..1 characters"}),
    ("n", structured, {"name": "N", "hi": 1}, {"bounds": "1..3 components, lists of 1..2 in the first two, 0..1 characters"}),
    ("org", structured, {"name": "ORG", "hi": 2}, {"bounds": "1..3 components of 0..2 characters"}),
    ("groups", groups, {}, {"bounds": "groups of 0..2 characters on 4 properties"}),
    ("bad_property", bad_property, {"card": False}, {"bounds": "10 properties, 8 wrong shapes at 7 places"}),
    ("bad_card_property", bad_property, {"card": True}, {"bounds": "10 properties, 8 wrong shapes at 7 places"}),
    ("bad_calendar", bad_container, {"card": False}, {"bounds": "11 wrong shapes at 8 places"}),
    ("bad_card", bad_container, {"card": True}, {"bounds": "11 wrong shapes at 8 places"}),
    ("documents", documents, {"n": 2}, {"bounds": "calendars of 2 components of 3 types with one of 11 properties each, through JSON text"}),
    ("cards", cards, {"n": 2}, {"bounds": "2 vCards with one of 14 properties each, through JSON text"}),
    ("timezones", timezones, {}, {"bounds": "a zone of every whole hour offset -11..12"}),
    ("documents_3", documents, {"n": 3}, {"bounds": "calendars of 3 components", "tier": "thorough"}),
    ("parameters_3", parameters, {"card": False, "n": 3, "hi": 1}, {"bounds": "0..3 parameters of 3 names, 1..2 values of 1 character", "tier": "thorough"}),
]
ASSUMPTIONS = ["floating point values (GEO, FLOAT) appear only as fixed examples", "whole documents go through the json library on every concrete combination of the listed properties"]
