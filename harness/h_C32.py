# XML (xCal) output states what the calendar holds
from pycalendar.datetime import DateTime
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
import xml.etree.cElementTree as XML

NS = "urn:ietf:params:xml:ns:icalendar-2.0"


def plain(e):
    # [name, text, children] with an empty parameters element left out
    assert e.tag.startswith("{" + NS + "}")
    name = e.tag[len(NS) + 2:]
    kids = [plain(c) for c in e.getchildren()]
    kids = [k for k in kids if k[0] != "parameters" or k[2]]
    return [name, e.text or "", kids]


def one(name, text):
    return [name, text, []]


def group(name, kids):
    return [name, "", kids]


def params(ps):
    return [group("parameters", [group(n.lower(), [one("text", v) for v in vs]) for n, vs in ps])] if ps else []


def flat(x):
    # all the text in nested lists
    if isinstance(x, list) or isinstance(x, tuple):
        r = ""
        for y in x:
            r = r + flat(y) + "|"
        return r
    return x if isinstance(x, basestring) else ""


def lines(ls):
    return "\r\n".join(ls) + "\r\n"


def property_xml(prop):
    root = XML.Element("root")
    prop.writeXML(root, NS)
    kids = root.getchildren()
    assert len(kids) == 1
    return plain(kids[0])


def escape(v):
    v = v.replace("\\", "\\\\").replace(",", "\\,").replace(";", "\\;").replace("\n", "\\n")
    return v


def date(S, t):
    y, m, d = S.int(t + "y", 1, 9999), S.int(t + "m", 1, 12), S.int(t + "d", 1, 28)
    return "%04d%02d%02d" % (y, m, d), "%04d-%02d-%02d" % (y, m, d)


def stamp(S, t, zones=("", "Z")):
    a, b = date(S, t)
    h, n, s = S.int(t + "h", 0, 23), S.int(t + "n", 0, 59), S.int(t + "s", 0, 59)
    z = S.choice(t + "z", list(zones))
    return a + "T%02d%02d%02d" % (h, n, s) + z, b + "T%02d:%02d:%02d" % (h, n, s) + z


def span(S, t):
    k = S.choice(t + "k", ["W", "D", "H", "M", "HM", "DHMS"])
    sign = S.choice(t + "g", ["", "-"])
    a, b, c = S.int(t + "a", 1, 6), S.int(t + "b", 1, 23), S.int(t + "c", 1, 59)
    if k == "W":
        return sign + "P%dW" % a
    elif k == "D":
        return sign + "P%dD" % a
    elif k == "H":
        return sign + "PT%dH" % b
    elif k == "M":
        return sign + "PT%dM" % c
    elif k == "HM":
        return sign + "PT%dH%dM" % (b, c)
    else:
        return sign + "P%dDT%dH%dM%dS" % (a, b, c, c)


def value(S, kind):
    """text of a value and the elements that state it"""
    if kind == "text":
        v = S.str("v", 0, 3, "a,;\\\n<&")
        return escape(v), [one("text", v)]
    if kind in ("uri", "cal-address", "unknown", "boolean", "time"):
        v = S.str("v", 0, 3, "a,;\\:<&")
        if kind in ("uri", "cal-address"):
            S.assume("\\" not in v)
        return v, [one(kind, v)]
    if kind == "binary":
        v = S.str("v", 0, 3, "aB=+")
        return v, [one(kind, v)]
    if kind == "date":
        a, b = date(S, "v")
        return a, [one("date", b)]
    if kind == "date-time":
        a, b = stamp(S, "v")
        return a, [one("date-time", b)]
    if kind == "integer":
        n = S.int("v", -9999, 9999)
        return "%d" % n, [one("integer", "%d" % n)]
    if kind == "duration":
        t = span(S, "v")
        return t, [one("duration", t)]
    if kind == "utc-offset":
        g, h, m = S.choice("g", ["+", "-"]), S.int("h", 1, 14), S.int("m", 0, 59)
        return g + "%02d%02d" % (h, m), [one("utc-offset", g + "%02d:%02d" % (h, m))]
    if kind == "period":
        a, b = stamp(S, "v", ["Z"])
        if S.bool("dur"):
            t = "PT%dM" % S.int("len", 1, 59)
            return a + "/" + t, [group("period", [one("start", b), one("duration", t)])]
        c, d = stamp(S, "w", ["Z"])
        return a + "/" + c, [group("period", [one("start", b), one("end", d)])]


SIMPLE = {
    "text": ["SUMMARY", "COMMENT", "STATUS", "UID", "ACTION"],
    "uri": ["URL", "TZURL", "ATTACH"],
    "cal-address": ["ORGANIZER", "ATTENDEE"],
    "unknown": ["X-FOO", "NEW-ONE"],
    "date-time": ["DTSTART", "DTEND", "DTSTAMP", "COMPLETED", "RECURRENCE-ID"],
    "integer": ["PRIORITY", "SEQUENCE", "PERCENT-COMPLETE", "REPEAT"],
    "duration": ["DURATION", "TRIGGER"],
    "utc-offset": ["TZOFFSETFROM", "TZOFFSETTO"],
}
EXPLICIT = {
    "date": ["DTSTART", "DUE", "RECURRENCE-ID", "X-FOO"],
    "date-time": ["TRIGGER", "X-FOO"],
    "binary": ["ATTACH", "X-FOO"],
    "boolean": ["X-FOO"],
    "time": ["X-FOO"],
    "uri": ["X-FOO"],
    "text": ["X-FOO"],
    "integer": ["X-FOO"],
    "duration": ["X-FOO"],
    "period": ["X-FOO"],
    "utc-offset": ["X-FOO"],
    "cal-address": ["X-FOO"],
}


def simple(S, kind):
    name = S.choice("name", SIMPLE[kind])
    text, want = value(S, kind)
    p = Property.parseText(S.choice("case", [name, name.lower()]) + ":" + text)
    got = property_xml(p)
    S.check(got == group(name.lower(), want), "name and typed value")
    S.check(property_xml(p.duplicate()) == got, "same for a copy")
    S.observe(flat(got))


def explicit(S, kind):
    name = S.choice("name", EXPLICIT[kind])
    text, want = value(S, kind)
    v = S.choice("vcase", [kind.upper(), kind])
    p = Property.parseText(name + ";VALUE=" + v + (";ENCODING=BASE64" if kind == "binary" else "") + ":" + text)
    got = property_xml(p)
    S.check(got == group(name.lower(), params([("encoding", ["BASE64"])] if kind == "binary" else []) + want), "type of VALUE")
    S.observe(flat(got))


def several(S, name, kind, par, hi):
    n = S.conc(S.int("n", 1, hi))
    texts, want = [], []
    for i in range(n):
        t = "v%d" % i
        if kind == "text":
            v = S.str(t, 1, 2, "a,;")
            texts.append(escape(v))
            want.append(one("text", v))
        elif kind == "date":
            a, b = date(S, t)
            texts.append(a)
            want.append(one("date", b))
        elif kind == "date-time":
            a, b = stamp(S, t, ["Z"])
            texts.append(a)
            want.append(one("date-time", b))
        elif S.bool(t + "f"):
            h, g = S.int(t + "h", 0, 11), S.int(t + "g", 1, 12)
            texts.append("20200229T%02d0000Z/20200229T%02d3059Z" % (h, h + g))
            want.append(group("period", [one("start", "2020-02-29T%02d:00:00Z" % h), one("end", "2020-02-29T%02d:30:59Z" % (h + g))]))
        else:
            h, u = S.int(t + "h", 0, 23), S.int(t + "l", 1, 59)
            texts.append("20200229T%02d3000Z/PT%dM" % (h, u))
            want.append(group("period", [one("start", "2020-02-29T%02d:30:00Z" % h), one("duration", "PT%dM" % u)]))
    p = Property.parseText(name + par + ":" + ",".join(texts))
    got = property_xml(p)
    S.check(got == group(name.lower(), want), "every value in order")
    if kind.startswith("period"):
        for v in p.getValue().getValues():
            S.check(v.getValue().getEnd() == v.getValue().getStart() + v.getValue().getDuration(), "start, duration and end")
        S.check(property_xml(p) == got, "the same after asking for end and duration")
    S.observe(flat(got))


def parameters(S, hi):
    # every parameter with every value, names in order, VALUE left out
    a = S.str("a", 0, 2, "a:,;<")
    b = S.str("b", 1, 1, "b&")
    k = S.conc(S.int("k", 0, 3))
    line = "ATTENDEE"
    want = []
    if k & 1:
        line = line + ";X-Q=\"" + a + "\""
        if S.bool("two"):
            line = line + "," + b
            want.append(("x-q", [a, b]))
        else:
            want.append(("x-q", [a]))
    if k & 2:
        line = line + ";" + S.choice("case", ["CN", "cn"]) + "=" + b
        want.append(("cn", [b]))
    if S.bool("value"):
        line = line + ";VALUE=CAL-ADDRESS"
    p = Property.parseText(line + ":m")
    got = property_xml(p)
    S.check(got == group("attendee", params(sorted(want)) + [one("cal-address", "m")]), "parameters then value")
    S.observe(flat(got))


def zoned(S):
    # a local time in a zone has the zone as a parameter
    a, b = stamp(S, "v", [""])
    p = Property.parseText("DTSTART;TZID=Etc/Zone:" + a)
    got = property_xml(p)
    S.check(got == group("dtstart", params([("tzid", ["Etc/Zone"])]) + [one("date-time", b)]), "zone and local time")
    S.observe(flat(got))


def special(S):
    if S.bool("geo"):
        t = S.choice("lat", [("1.5", "-2.25"), ("-90.0", "180.0"), ("37.386013", "-122.082932")])
        got = property_xml(Property.parseText("GEO:" + t[0] + ";" + t[1]))
        S.check(got == group("geo", [one("latitude", t[0]), one("longitude", t[1])]), "geo")
    else:
        code = "%d.%d" % (S.int("c", 1, 5), S.int("e", 0, 99))
        d = S.str("d", 0, 2, "a,<")
        x = S.str("x", 0, 2, "a;:&")
        text = code + ";" + escape(d) + (";" + escape(x) if x != "" else "")
        got = property_xml(Property.parseText("REQUEST-STATUS:" + text))
        S.check(got == group("request-status", [one("code", code), one("description", d)] + ([one("data", x)] if x != "" else [])), "request status")
    S.observe(flat(got))


def rule(S, part):
    freq = S.choice("freq", ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"])
    text = "FREQ=" + freq
    want = [one("freq", freq)]
    end = S.choice("end", ["", "count", "date", "time"])
    if end == "count":
        n = S.int("n", 1, 99)
        text = text + ";COUNT=%d" % n
        want.append(one("count", "%d" % n))
    elif end == "date":
        a, b = date(S, "u")
        text = text + ";UNTIL=" + a
        want.append(group("until", [one("date", b)]))
    elif end == "time":
        a, b = stamp(S, "u", ["Z"])
        text = text + ";UNTIL=" + a
        want.append(group("until", [one("date-time", b)]))
    i = S.int("i", 1, 99)
    if S.bool("interval"):
        text = text + ";INTERVAL=%d" % i
        if i > 1:
            want.append(one("interval", "%d" % i))
    if part in ("bysecond", "byminute", "byhour", "bymonthday", "byyearday", "byweekno", "bymonth", "bysetpos"):
        lo, hi = {"bysecond": (0, 59), "byminute": (0, 59), "byhour": (0, 23), "bymonthday": (-31, 31), "byyearday": (-366, 366), "byweekno": (-53, 53), "bymonth": (1, 12), "bysetpos": (-366, 366)}[part]
        ns = [S.int("p%d" % j, lo, hi) for j in range(S.conc(S.int("k", 1, 2)))]
        for x in ns:
            S.assume(x != 0 or lo == 0)
        text = text + ";" + part.upper() + "=" + ",".join(["%d" % x for x in ns])
        want = want + [one(part, "%d" % x) for x in ns]
    elif part == "byday":
        ds = []
        for j in range(S.conc(S.int("k", 1, 2))):
            x = S.int("p%d" % j, -53, 53)
            day = S.choice("w%d" % j, ["SU", "MO", "SA"])
            ds.append(("%d" % x if x != 0 else "") + day)
        text = text + ";BYDAY=" + ",".join(ds)
        want = want + [one("byday", x) for x in ds]
    elif part == "wkst":
        day = S.choice("w", ["SU", "MO", "TU", "WE", "TH", "FR", "SA"])
        text = text + ";WKST=" + day
        if day != "MO":
            want.append(one("wkst", day))
    p = Property.parseText(S.choice("name", ["RRULE", "EXRULE"]) + ":" + text)
    got = property_xml(p)
    S.check([k[0] for k in got[2]] == ["recur"] and len(got[2][0][2]) == len(want), "as many elements as parts")
    for w in want:
        S.check(w in got[2][0][2], "every part")
    same = [k for k in got[2][0][2] if k[0] == part]
    S.check(same == [w for w in want if w[0] == part], "list in order")
    S.observe(flat(got))


def expect(line):
    name, v = line.split(":", 1)
    ps = name.split(";")[1:]
    name = name.split(";")[0]
    kind = {"DTSTAMP": "date-time", "DTSTART": "date-time", "PRIORITY": "integer", "DURATION": "duration", "TRIGGER": "duration", "REPEAT": "integer"}.get(name, "text")
    if name.startswith("X-"):
        kind = "unknown"
    if kind == "date-time":
        v = v[:4] + "-" + v[4:6] + "-" + v[6:11] + ":" + v[11:13] + ":" + v[13:]
    return group(name.lower(), params([(p.split("=")[0], [p.split("=")[1]]) for p in ps]) + [one(kind, v)])


def tree(text):
    # the element tree for the text form: properties, then components
    stack = [["", [], []]]
    for line in text.split("\r\n")[:-1]:
        head = line[:line.find(":")]
        if head == "BEGIN":
            stack.append([line[6:].lower(), [], []])
        elif head == "END":
            c = stack.pop()
            kids = [group("properties", c[1])]
            if c[2]:
                kids.append(group("components", c[2]))
            stack[-1][2].append(group(c[0], kids))
        else:
            stack[-1][1].append(expect(line))
    return stack[0][2]


def calendar(S, extra):
    TimezoneDatabase.clearTimezoneDatabase()
    n = S.int("n", 1, 9)
    v = S.str("v", 1, 1, "a<")
    todo = ["BEGIN:VTODO", "UID:t", "DTSTAMP:20200101T000000Z", "PRIORITY:%d" % n, "END:VTODO"]
    alarm = ["BEGIN:VALARM", "ACTION:AUDIO", "TRIGGER:-PT%dM" % n, "END:VALARM"]
    event = ["BEGIN:VEVENT", "UID:e", "DTSTAMP:20200101T000000Z", "DTSTART:2020010%dT000000Z" % n, "SUMMARY:" + v]
    if S.bool("x"):
        event.append("X-A;CN=q:" + v)
    if S.bool("alarm"):
        event = event + alarm
    event.append("END:VEVENT")
    body = []
    if S.bool("todo"):
        body = body + todo
    if S.bool("event"):
        body = body + event
    if S.bool("second"):
        body = body + [l.replace("UID:e", "UID:f") for l in event]
    cal = Calendar.parseText(lines(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"] + body + ["X-W:w", "END:VCALENDAR"]))
    before = cal.getText()
    root = cal.writeXML()
    S.check(plain(root) == group("icalendar", tree(before)), "the same calendar as the text")
    S.check(cal.getText() == before, "nothing changed")
    S.observe(flat(plain(root)))


def zones(S):
    # the zone definitions the text form adds are in the XML too
    TimezoneDatabase.clearTimezoneDatabase()
    zone = ["BEGIN:VTIMEZONE", "TZID:Z", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0100", "TZOFFSETTO:+0200", "END:STANDARD", "END:VTIMEZONE"]
    Calendar.parseText(lines(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"] + zone + ["END:VCALENDAR"]))
    cal = Calendar()
    d = S.int("d", 1, 28)
    use = S.bool("use")
    src = Calendar.parseText(lines(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:e", "DTSTAMP:20200101T000000Z",
        "DTSTART" + (";TZID=Z" if use else "") + ":202001%02dT000000" % d, "END:VEVENT", "END:VCALENDAR"]))
    got = plain(src.writeXML())
    comps = got[2][0][2][1][2]
    S.check(sorted([c[0] for c in comps]) == (["vevent", "vtimezone"] if use else ["vevent"]), "zone definition included")
    for c in comps:
        if c[0] == "vtimezone":
            S.check(c == group("vtimezone", [group("properties", [group("tzid", [one("text", "Z")])]), group("components", [group("standard", [group("properties", [
                group("dtstart", [one("date-time", "1970-01-01T00:00:00")]), group("tzoffsetfrom", [one("utc-offset", "+01:00")]), group("tzoffsetto", [one("utc-offset", "+02:00")])])])])]), "zone")
    S.observe(flat(got))


def document(S, hi):
    # the document is text in which only markup is markup
    v = S.str("v", 0, hi, "a<>&\" ;")
    cal = Calendar.parseText(lines(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID;X-Q=" + S.choice("p", ["a", "<", "&amp"]).replace(";", "") + ":x", "X-A:" + v, "END:VCALENDAR"]))
    text = cal.getTextXML()
    S.check(text.startswith("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<"), "XML declaration")
    a = text.find(":unknown")
    if v == "":
        S.check(text[a:a + 11] == ":unknown />" or text[a:a + 10] == ":unknown><", "empty element")
    else:
        b = text.find("</", a)
        body = text[a + 9:b]
        S.check("<" not in body, "no markup inside")
        S.check(body.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&amp;", "&") == v, "character data")
    S.check(text[-1:] == "\n", "ends with a line end")
    S.observe(text)


def international(S):
    # text is UTF-8 inside, characters in the document
    v = S.choice("v", ["caf\xc3\xa9", "\xe2\x82\xac", "a"])
    n = S.int("n", 1, 9)
    where = S.choice("where", ["text", "parameter", "unknown", "status"])
    line = {"text": "SUMMARY:" + v + "%d" % n, "parameter": "SUMMARY;X-Q=" + v + "%d:x" % n, "unknown": "X-FOO:" + v + "%d" % n, "status": "REQUEST-STATUS:2.0;" + v + "%d" % n}[where]
    got = property_xml(Property.parseText(line))
    leaf = got
    while leaf[2]:
        leaf = leaf[2][-1 if where != "parameter" else 0]
    S.check(leaf[1] == v.decode("utf-8") + "%d" % n, "characters")
    S.observe(flat(leaf))


HARNESSES = [
    ("simple_" + k.replace("-", "_"), simple, {"kind": k}, {"bounds": "standard properties of this type, a symbolic value"}) for k in sorted(SIMPLE)
] + [
    ("explicit_" + k.replace("-", "_"), explicit, {"kind": k}, {"bounds": "VALUE in both cases, a symbolic value"}) for k in sorted(EXPLICIT)
] + [
    ("many_categories", several, {"name": "CATEGORIES", "kind": "text", "par": "", "hi": 2}, {"bounds": "1..2 values of up to 2 characters"}),
    ("many_exdate", several, {"name": "EXDATE", "kind": "date-time", "par": "", "hi": 2}, {"bounds": "1..2 values"}),
    ("many_rdate_date", several, {"name": "RDATE", "kind": "date", "par": ";VALUE=DATE", "hi": 3}, {"bounds": "1..3 values"}),
    ("many_rdate_period", several, {"name": "RDATE", "kind": "period", "par": ";VALUE=PERIOD", "hi": 2}, {"bounds": "1..2 values"}),
    ("many_freebusy", several, {"name": "FREEBUSY", "kind": "period", "par": "", "hi": 2}, {"bounds": "1..2 values"}),
    ("parameters", parameters, {"hi": 2}, {"bounds": "up to two parameters, values of up to 2 characters"}),
    ("zoned", zoned, {}, {"bounds": "every local time"}),
    ("special", special, {}, {"bounds": "GEO and REQUEST-STATUS, texts of up to 2 characters"}),
] + [
    ("rule_" + p, rule, {"part": p}, {"bounds": "each frequency and end, lists of up to 2"}) for p in ["none", "bysecond", "byminute", "byhour", "byday", "bymonthday", "byyearday", "byweekno", "bymonth", "bysetpos", "wkst"]
] + [
    ("calendar", calendar, {"extra": 0}, {"bounds": "up to a to-do and two events with an alarm and an X- property"}),
    ("zones", zones, {}, {"bounds": "one zone, used or not"}),
    ("document", document, {"hi": 3}, {"bounds": "text of up to 3 characters that need escaping"}),
    ("international", international, {}, {"bounds": "three UTF-8 texts in each place"}),
]
