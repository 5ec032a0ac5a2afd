# iCalendar property lines: structure, value types, malformed lines
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar.property import Property
from pycalendar.exceptions import InvalidProperty

# the default value type of every standard property (RFC 5545 3.8, RFC 2445 EXRULE)
TYPES = {
    "text": ["CALSCALE", "METHOD", "PRODID", "VERSION", "CLASS", "COMMENT", "DESCRIPTION", "LOCATION", "STATUS", "SUMMARY", "TRANSP",
             "TZID", "TZNAME", "CONTACT", "RELATED-TO", "UID", "ACTION"],
    "texts": ["CATEGORIES", "RESOURCES"],
    "uri": ["ATTACH", "TZURL", "URL"],
    "integer": ["PERCENT-COMPLETE", "PRIORITY", "REPEAT", "SEQUENCE"],
    "date-time": ["COMPLETED", "DTEND", "DUE", "DTSTART", "RECURRENCE-ID", "CREATED", "DTSTAMP", "LAST-MODIFIED"],
    "date-times": ["EXDATE", "RDATE"],
    "duration": ["DURATION", "TRIGGER"],
    "period": ["FREEBUSY"],
    "utc-offset": ["TZOFFSETFROM", "TZOFFSETTO"],
    "cal-address": ["ATTENDEE", "ORGANIZER"],
    "recur": ["RRULE", "EXRULE"],
}
KINDS = ["text", "uri", "integer", "date", "date-time", "duration", "period", "utc-offset", "cal-address", "recur", "binary"]


def sample(S, kind, name="v"):
    """a value of that type in its standard form, and what is expected of it"""
    if kind == "text" or kind == "uri" or kind == "cal-address" or kind == "binary":
        return S.str(name, 0, 2, "aB:=")
    if kind == "integer":
        return str(S.int(name, -99, 99))
    if kind == "date":
        return "2024%02d%02d" % (S.int(name + "m", 1, 12), S.int(name + "d", 1, 28))
    if kind == "date-time":
        return "202401%02dT%02d%02d59" % (S.int(name + "d", 1, 28), S.int(name + "h", 0, 23), S.int(name + "n", 0, 59)) + S.choice(name + "z", ["", "Z"])
    if kind == "duration":
        return S.choice(name + "s", ["", "-"]) + "PT%dM" % S.int(name, 1, 59)
    if kind == "period":
        return "202401%02dT000000Z/PT%dH" % (S.int(name + "d", 1, 28), S.int(name, 1, 23))
    if kind == "utc-offset":
        return S.choice(name + "s", ["+", "-"]) + "%02d%02d" % (S.int(name + "h", 1, 23), S.int(name + "m", 0, 59))
    if kind == "recur":
        return "FREQ=DAILY;COUNT=%d" % S.int(name, 1, 99)


def getter(p, kind):
    if kind == "text":
        return p.getTextValue()
    return {"integer": p.getIntegerValue, "date": p.getDateTimeValue, "date-time": p.getDateTimeValue, "duration": p.getDurationValue,
            "period": p.getPeriodValue, "utc-offset": p.getUTCOffsetValue, "uri": p.getURIValue, "cal-address": p.getCalAddressValue,
            "recur": p.getRecurrenceValue, "binary": p.getBinaryValue}[kind]()


def again(S, p):
    """written and read again: same text, equal; the text of the line"""
    t = p.getText()
    S.check(t[-2:] == "\r\n" and "\n" not in t[:-2], "one line")
    q = Property.parseText(t[:-2])
    S.check(q.getText() == t, "same text again")
    # several values of one parameter are written in sorted order
    for key in p.getParameters():
        for a in p.getParameters()[key]:
            a.setValues(sorted(a.getValues()))
    S.check(q == p and hash(q) == hash(p), "equal")
    return t[:-2], q


def jtype(p):
    j = []
    p.writeJSON(j)
    return j[0][2]


def default_type(S, kind):
    # each standard property has its RFC type, whatever the case of its name
    name = S.choice("name", TYPES[kind])
    one = {"texts": "text", "date-times": "date-time"}.get(kind, kind)
    written = S.choice("case", [name, name.lower(), name[:1] + name[1:].lower()])
    v = sample(S, one)
    p = Property.parseText(written + ":" + v)
    S.check(p.getName() == written, "name kept")
    t, q = again(S, p)
    S.check(t == written + ":" + v, "written as read, no VALUE needed")
    S.check(jtype(p) == one, "value type")
    if kind in ("texts", "date-times", "period"):
        S.check(p.getMultiValue() is not None and len(p.getMultiValue().getValues()) == 1, "a list")
    else:
        S.check(getter(p, one) is not None, "typed value")
    S.observe(t)


def explicit_type(S, name, kinds):
    # VALUE= decides the type, whatever its case, and is written exactly when it is not the default
    kind = S.choice("kind", kinds)
    default = [k for k in TYPES if name in TYPES[k]]
    default = default[0] if default else None
    v = sample(S, kind)
    val = S.choice("case", [kind.upper(), kind])
    p = Property.parseText(name + ";VALUE=" + val + ":" + v)
    t, q = again(S, p)
    one = {"texts": "text", "date-times": "date-time"}.get(default, default)
    S.check(t == name + (";VALUE=" + kind.upper() if kind != one else "") + ":" + v, "VALUE written when needed")
    S.check(jtype(p) == kind, "value type")
    S.check(jtype(q) == kind, "value type after reading again")
    if name not in TYPES["texts"] and name not in TYPES["date-times"] and name not in TYPES["period"]:
        S.check(getter(p, kind) is not None, "typed value")
    S.observe(t)


def foreign_type(S, hi):
    # data of a type that is not supported is passed through whole
    name = S.choice("name", ["X-N", "ATTACH", "SUMMARY", "DTSTART"])
    val = S.choice("val", ["X-FOO", "BOOLEAN", "TIME", "x-bar"])
    v = S.str("v", 0, hi, "a;,\\:=\"")
    line = name + ";VALUE=" + val + ":" + v
    p = Property.parseText(line)
    t, q = again(S, p)
    S.check(t == line, "written as read")
    S.check(q.getValue().getValue() == v, "value untouched")
    S.observe(t)


def bad_value(S, kind, hi):
    # a value that is not of the property's type is refused
    name = S.choice("name", TYPES[kind])
    alpha = {"integer": "a.:", "date-time": "2T-a", "date-times": "2T,a", "duration": "TDW1-", "period": "/2T", "utc-offset": "+0a:", "recur": "=;AFX"}[kind]
    v = S.str("v", 0, hi, alpha)
    if kind == "duration":
        # a number and its unit are both needed
        S.assume(not ("1" in v and ("D" in v or "W" in v)))
    if kind == "utc-offset":
        S.assume(len(v) < 5)
    try:
        p = Property.parseText(name + ":" + v)
        refused = False
    except InvalidProperty:
        refused = True
    S.check(refused, "refused")
    S.observe(refused)


def structure(S, np, hi):
    # name, parameters with one or more values (quoted where need be), value
    name = "X-" + S.str("n", 1, 2, "Ab-1")
    k = S.conc(S.int("k", 0, np))
    line = name
    want = []
    for i in range(k):
        pn = S.choice("p%d" % i, ["Q", "q", "X-A"])
        m = S.conc(S.int("m%d" % i, 1, 2))
        vals = []
        line = line + ";" + pn + "="
        for j in range(m):
            v = S.str("v%d%d" % (i, j), 1, 1, "a:;,")
            if v in ":;,":
                line = line + ("," if j else "") + "\"" + v + "\""
            else:
                line = line + ("," if j else "") + v
            vals.append(v)
        want.append((pn, vals))
    body = S.str("body", 0, hi, "a:;,=\"")
    p = Property.parseText(line + ":" + body)
    S.check(p.getName() == name, "name")
    S.check(p.getValue().getValue() == body, "value")
    up = {}
    for pn, vals in want:
        up.setdefault(pn.upper(), []).append((pn, vals))
    S.check(sorted(p.getParameters().keys()) == sorted(up.keys()), "parameter names")
    for key in up:
        S.check(p.hasParameter(key.lower()), "found in any case")
        S.check([(a.getName(), a.getValues()) for a in p.getParameters()[key]] == up[key], "parameters of one name, in order")
        S.check(p.getParameterValue(key) == up[key][0][1][0], "first value")
    t, q = again(S, p)
    S.check(q.getParameters() == p.getParameters(), "parameters after reading again")
    if (k < 2 or want[0][0].upper() <= want[1][0].upper()) and len([v for pn, v in want if sorted(v) != v]) == 0:
        S.check(t == line + ":" + body, "written as read")
    S.observe(t)


def anything(S, pre, hi, alpha):
    # any text is either refused with the documented error or read as something that stays the same
    t = pre + S.str("t", 0, hi, alpha)
    quoted = False
    colon = -1
    for i, c in enumerate(t):
        if c == "\"":
            quoted = not quoted
        elif c == ":" and not quoted and colon < 0:
            colon = i
    try:
        p = Property.parseText(t)
    except InvalidProperty:
        simple = colon > 0 and "\"" not in t[:colon] and ";" not in t[:colon] and t[:1] != " "
        S.check(not simple, "name:value is accepted")
        S.observe("refused")
        return
    S.check(":" in t, "a line without a colon is refused")
    S.check(t[:1] != ":" and t[:1] != ";", "a line without a name is refused")
    u, q = again(S, p)
    if colon > 0 and "\"" not in t[:colon] and ";" not in t[:colon]:
        S.check(p.getValue().getValue() == t[colon + 1:], "the value starts after the first colon")
    S.observe(u)


def zone(S):
    # a TZID parameter makes a time local to that zone, and never touches a date
    kind = S.choice("kind", ["time", "date", "utc"])
    name = S.choice("name", ["DTSTART", "DTEND", "DUE", "RECURRENCE-ID"])
    y, m, d, h = S.int("y", 1970, 2100), S.int("m", 1, 12), S.int("d", 1, 28), S.int("h", 0, 23)
    tz = "A" + S.str("tz", 0, 2, "b/ ")
    if kind == "date":
        p = Property(name, DateTime(y, m, d))
        S.check(p.getText() == "%s;VALUE=DATE:%04d%02d%02d\r\n" % (name, y, m, d), "date")
        S.check(not p.hasParameter("TZID"), "no zone")
    elif kind == "utc":
        p = Property.parseText("%s:%04d%02d%02dT%02d0000Z" % (name, y, m, d, h))
        S.check(p.getDateTimeValue().getValue().utc(), "UTC")
        S.check(not p.hasParameter("TZID"), "no zone")
    else:
        p = Property.parseText("%s;TZID=%s:%04d%02d%02dT%02d0000" % (name, tz, y, m, d, h))
        v = p.getDateTimeValue().getValue()
        S.check(v.getTimezoneID() == tz and not v.utc() and not v.floating(), "local")
        S.check(v.getYear() == y and v.getMonth() == m and v.getDay() == d and v.getHours() == h, "fields")
        b = Property(name, v.duplicate())
        S.check(b == p and b.getText() == p.getText(), "built from the value")
    again(S, p)
    S.observe(p.getText())


def setters(S):
    # replacing the value keeps the parameters and follows the new type
    p = Property.parseText("DTSTART;X-Q=1;VALUE=DATE:20240101")
    d = p.duplicate()
    m, dd, h = S.int("m", 1, 12), S.int("d", 1, 28), S.int("h", 0, 23)
    if S.bool("time"):
        p.setValue(DateTime(2024, m, dd, h, 0, 0))
        want = "DTSTART;X-Q=1:2024%02d%02dT%02d0000" % (m, dd, h)
    else:
        p.setValue(DateTime(2024, m, dd))
        want = "DTSTART;VALUE=DATE;X-Q=1:2024%02d%02d" % (m, dd)
    t, q = again(S, p)
    S.check(t == want, "new value")
    S.check(d.getText() == "DTSTART;VALUE=DATE;X-Q=1:20240101\r\n", "the copy made before is untouched")
    S.observe(t)


HARNESSES = [
    ("default_" + k, default_type, {"kind": k}, {"bounds": "each standard property of this type, three letter cases, a symbolic value"}) for k in sorted(TYPES)
] + [
    ("value_dtstart", explicit_type, {"name": "DTSTART", "kinds": ["date", "date-time", "text", "integer"]}, {"bounds": "VALUE in both cases"}),
    ("value_trigger", explicit_type, {"name": "TRIGGER", "kinds": ["date-time", "duration"]}, {"bounds": "VALUE in both cases"}),
    ("value_attach", explicit_type, {"name": "ATTACH", "kinds": ["uri", "binary", "text"]}, {"bounds": "VALUE in both cases"}),
    ("value_rdate", explicit_type, {"name": "RDATE", "kinds": ["date", "date-time", "period"]}, {"bounds": "VALUE in both cases"}),
    ("value_x", explicit_type, {"name": "X-N", "kinds": [k for k in KINDS if k != "text"]}, {"bounds": "every supported type, both cases"}),
    ("foreign", foreign_type, {"hi": 3}, {"bounds": "values of up to 3 characters"}),
    ("bad_integer", bad_value, {"kind": "integer", "hi": 3}, {"bounds": "texts of up to 3 characters"}),
    ("bad_datetime", bad_value, {"kind": "date-time", "hi": 5}, {"bounds": "texts of up to 5 characters"}),
    ("bad_datetimes", bad_value, {"kind": "date-times", "hi": 5}, {"bounds": "texts of up to 5 characters"}),
    ("bad_duration", bad_value, {"kind": "duration", "hi": 3}, {"bounds": "texts of up to 3 characters"}),
    ("bad_period", bad_value, {"kind": "period", "hi": 5}, {"bounds": "texts of up to 5 characters"}),
    ("bad_offset", bad_value, {"kind": "utc-offset", "hi": 4}, {"bounds": "texts of up to 4 characters"}),
    ("bad_recur", bad_value, {"kind": "recur", "hi": 4}, {"bounds": "texts of up to 4 characters"}),
    ("structure1", structure, {"np": 1, "hi": 2}, {"bounds": "up to 1 parameter of up to 2 values, values of up to 2 characters"}),
    ("structure2", structure, {"np": 2, "hi": 0}, {"bounds": "up to 2 parameters of up to 2 values"}),
    ("anything", anything, {"pre": "", "hi": 5, "alpha": "A;:,=\""}, {"bounds": "every text of up to 5 characters of A ; : , = quote"}),
    ("anything_param", anything, {"pre": "A;B", "hi": 6, "alpha": "=;:,\"a"}, {"bounds": "A;B and up to 6 such characters"}),
    ("anything_quoted", anything, {"pre": "A;B=\"", "hi": 5, "alpha": "=;:,\"a\\"}, {"bounds": "an open quote and up to 5 such characters"}),
    ("zone", zone, {}, {"bounds": "times 1970..2100, zone names of up to 3 characters"}),
    ("setters", setters, {}, {"bounds": "dates and times in 2024"}),
    ("anything_long", anything, {"pre": "", "hi": 7, "alpha": "A;:,=\""}, {"bounds": "up to 7 characters", "tier": "thorough"}),
    ("structure_long", structure, {"np": 2, "hi": 2}, {"bounds": "up to 2 parameters, values of up to 2 characters", "tier": "thorough"}),
]
