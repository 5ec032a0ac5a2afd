# UTC offsets, integers, and lists of dates, times and periods
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty
from pycalendar.utcoffsetvalue import UTCOffsetValue
from pycalendar.exceptions import InvalidProperty


def off_text(v, ext):
    a = -v if v < 0 else v
    sep = ":" if ext else ""
    t = ("-" if v < 0 else "+") + "%02d" % (a // 3600) + sep + "%02d" % ((a // 60) % 60)
    if a % 60 != 0:
        t = t + sep + "%02d" % (a % 60)
    return t


def same(S, p, cls):
    """the property survives text and JSON; returns its one line"""
    t = p.getText()
    S.check(t[-2:] == "\r\n", "line end")
    t = t[:-2]
    q = cls.parseText(t)
    S.check(q.getText() == t + "\r\n", "same text again")
    S.check(q == p and not (q != p) and hash(q) == hash(p), "reads back equal")
    j = []
    p.writeJSON(j)
    S.check(len(j) == 1, "one JSON property")
    return t, q, j[0]


def offset(S, kind):
    if kind == "ical":
        name, cls, ext = "TZOFFSETTO", Property, False
    else:
        name, cls, ext = "TZ", VProperty, True
    v = S.int("v", -86399, 86399)
    uv = UTCOffsetValue()
    uv.setValue(v)
    p = cls(name, uv) if kind == "ical" else cls(None, name, uv)
    t, q, j = same(S, p, cls)
    S.check(t == name + ":" + off_text(v, ext), "standard text")
    S.check(q.getUTCOffsetValue().getValue() == v, "same offset")
    S.check(j[2] == "utc-offset" and len(j) == 4 and j[3] == off_text(v, True), "standard JSON")
    k = cls.parseJSON(j)
    S.check(k.getUTCOffsetValue().getValue() == v and k.getText() == t + "\r\n", "same from JSON")
    d = p.duplicate()
    S.check(d == p and d.getText() == t + "\r\n", "copy")
    S.observe(t)


def offset_text(S, kind, lo, hi):
    # accepted exactly when well formed
    t = S.str("t", lo, hi, "+-0159: a")
    ext = kind != "ical"
    n = len(t)
    ok = (n == 6 or n == 9) if ext else (n == 5 or n == 7)
    if ok:
        ok = t[0] == "+" or t[0] == "-"
    if ok:
        i = 1
        nums = []
        while i < n and ok:
            if ext and i > 1:
                if t[i] != ":":
                    ok = False
                i += 1
            for c in t[i:i + 2]:
                if not ("0" <= c and c <= "9"):
                    ok = False
            if ok:
                nums.append(int(t[i:i + 2]))
            i += 2
        if ok:
            ok = nums[0] < 24 and nums[1] < 60 and (len(nums) < 3 or nums[2] < 60)
    name, cls = ("TZ", VProperty) if ext else ("TZOFFSETTO", Property)
    try:
        p = cls.parseText(name + ":" + t)
    except InvalidProperty:
        S.check(not ok, "a well formed offset is accepted")
        S.observe("refused")
        return
    S.check(ok, "a malformed offset is refused")
    v = nums[0] * 3600 + nums[1] * 60 + (nums[2] if len(nums) > 2 else 0)
    if t[0] == "-":
        v = -v
    S.check(p.getUTCOffsetValue().getValue() == v, "value")
    S.observe(v)


def offset_order(S):
    a = S.int("a", -86399, 86399)
    b = S.int("b", -86399, 86399)
    p = Property.parseText("TZOFFSETTO:" + off_text(a, False))
    q = Property.parseText("TZOFFSETTO:" + off_text(b, False))
    S.check((p == q) == (a == b), "equal exactly when the offsets are")
    S.check((p != q) == (a != b), "unequal")
    S.observe(a == b)


INTS = ["PRIORITY", "PERCENT-COMPLETE", "SEQUENCE", "REPEAT", "POLL-ITEM-ID", "X-N"]


def integer(S, span):
    name = S.choice("name", INTS)
    v = S.choice("base", [0, 100000, -100000, 2147483000, -2147483000]) + S.int("v", -span, span)
    p = Property(name, v)
    t, q, j = same(S, p, Property)
    S.check(t == name + (";VALUE=INTEGER" if name == "X-N" else "") + ":" + str(v), "decimal text")
    S.check(q.getIntegerValue().getValue() == v, "same number")
    S.check(j[2] == "integer" and j[3] == v, "JSON number")
    k = Property.parseJSON(j)
    S.check(k.getIntegerValue().getValue() == v and k.getText() == t + "\r\n", "same from JSON")
    S.observe(t)


def integer_text(S, hi):
    t = S.str("t", 0, hi, "019-+a. ")
    body = t.strip(" ")
    if body[:1] == "-" or body[:1] == "+":
        body = body[1:]
    ok = len(body) > 0
    for c in body:
        if not ("0" <= c and c <= "9"):
            ok = False
    try:
        p = Property.parseText("PRIORITY:" + t)
    except InvalidProperty:
        S.check(not ok, "a number is accepted")
        S.observe("refused")
        return
    S.check(ok, "anything else is refused")
    v = 0
    for c in body:
        v = v * 10 + "0123456789".index(c)
    if t.strip(" ")[:1] == "-":
        v = -v
    S.check(p.getIntegerValue().getValue() == v, "value")
    S.observe(v)


def stamp(S, n, kind):
    y, m, d = S.int("y" + n, 1970, 2100), S.int("m" + n, 1, 12), S.int("d" + n, 1, 28)
    t = "%04d%02d%02d" % (y, m, d)
    if kind == "date":
        return t, DateTime(y, m, d)
    h, mi, s = S.int("h" + n, 0, 23), S.int("mi" + n, 0, 59), S.int("s" + n, 0, 59)
    t = t + "T%02d%02d%02d" % (h, mi, s)
    if kind == "utc":
        return t + "Z", DateTime(y, m, d, h, mi, s, tzid=Timezone(utc=True))
    if kind == "zone":
        return t, DateTime(y, m, d, h, mi, s, tzid=Timezone(tzid="Zone/A"))
    return t, DateTime(y, m, d, h, mi, s)


def json_stamp(t):
    r = t[0:4] + "-" + t[4:6] + "-" + t[6:8]
    if len(t) > 8:
        r = r + "T" + t[9:11] + ":" + t[11:13] + ":" + t[13:15] + t[15:]
    return r


def dates(S, n, kind):
    name = S.choice("name", ["RDATE", "EXDATE"])
    k = S.conc(S.int("k", 1, n))
    got = [stamp(S, str(i), kind) for i in range(k)]
    par = {"date": ";VALUE=DATE", "zone": ";TZID=Zone/A"}.get(kind, "")
    line = name + par + ":" + ",".join([g[0] for g in got])
    p = Property.parseText(line)
    unf = p.getText().replace("\r\n ", "")
    S.check(unf == line + "\r\n", "written as read")
    vals = p.getMultiValue().getValues()
    S.check(len(vals) == k, "number of values")
    for i in range(k):
        S.check(vals[i].getValue() == got[i][1], "value %d" % i)
        S.check(vals[i].getValue().isDateOnly() == (kind == "date"), "kind %d" % i)
        S.check(vals[i].getValue().getTimezoneID() == got[i][1].getTimezoneID(), "zone %d" % i)
    b = Property(name, [g[1] for g in got])
    S.check(b == p and b.getText() == p.getText(), "built from values")
    j = []
    p.writeJSON(j)
    j = j[0]
    S.check(j[2] == ("date" if kind == "date" else "date-time"), "JSON type")
    S.check(j[3:] == [json_stamp(g[0]) for g in got], "JSON values")
    q = Property.parseJSON(j)
    S.check(q.getText() == p.getText(), "same from JSON")
    S.check(q == p, "equal from JSON")
    d = p.duplicate()
    S.check(d == p, "copy")
    d.getMultiValue().getValues()[0].getValue().offsetDay(1)
    S.check(p.getText() == b.getText() and d != p, "copy is independent")
    S.observe(unf)


def many(S, n):
    """long lists, in which values may come again"""
    name = S.choice("name", ["RDATE", "EXDATE"])
    zone = S.bool("zone")
    days = [S.int("d%d" % i, 1, 3) for i in range(n)]
    texts = ["202401%02d" % d + ("T100000" if zone else "") for d in days]
    line = name + (";TZID=Zone/A" if zone else ";VALUE=DATE") + ":" + ",".join(texts)
    p = Property.parseText(line)
    d = p.duplicate()
    j = []
    p.writeJSON(j)
    for q in (p, d, Property.parseJSON(j[0])):
        S.check(q.getText().replace("\r\n ", "") == line + "\r\n", "every value in its place")
        S.check([v.getValue().getDay() for v in q.getMultiValue().getValues()] == days, "every value once")
        S.check(q == p and hash(q) == hash(p), "equal")
    S.observe(line)


def periods(S, n, name):
    k = S.conc(S.int("k", 1, n))
    texts = []
    objs = []
    for i in range(k):
        t, dt = stamp(S, str(i), "utc")
        if S.bool("dur%d" % i):
            dh, dm = S.int("dh%d" % i, 1, 23), S.int("dm%d" % i, 1, 59)
            texts.append(t + "/PT%dH%dM" % (dh, dm))
            objs.append(Period(start=dt, duration=Duration(hours=dh, minutes=dm)))
        else:
            e = S.int("e%d" % i, 1, 86400)
            end = dt.duplicate()
            end.offsetSeconds(e)
            texts.append(t + "/" + end.getText())
            objs.append(Period(start=dt, end=end))
    line = name + (";VALUE=PERIOD" if name == "RDATE" else "") + ":" + ",".join(texts)
    p = Property.parseText(line)
    unf = p.getText().replace("\r\n ", "")
    S.check(unf == line + "\r\n", "written as read")
    vals = p.getMultiValue().getValues()
    S.check(len(vals) == k, "number of values")
    for i in range(k):
        S.check(vals[i].getValue() == objs[i], "value %d" % i)
        S.check(vals[i].getValue().getEnd() == objs[i].getEnd(), "end %d" % i)
    b = Property(name, objs)
    S.check(b == p and b.getText() == p.getText(), "built from values")
    j = []
    p.writeJSON(j)
    j = j[0]
    S.check(j[2] == "period" and len(j) == 3 + k, "JSON type")
    q = Property.parseJSON(j)
    S.check(q.getText() == p.getText(), "same from JSON")
    S.check(q == p, "equal from JSON")
    S.observe(unf)


def bad_list(S, hi):
    # one bad item spoils the list: nothing is silently left out
    pos = S.choice("pos", [0, 1, 2])
    bad = S.str("bad", 0, hi, "2T,Z/")
    items = ["20240101T000000Z", "20240102T000000Z", "20240103T000000Z"]
    items[pos] = bad
    name = S.choice("name", ["RDATE", "EXDATE", "FREEBUSY"])
    try:
        Property.parseText(name + ":" + ",".join(items))
        refused = False
    except InvalidProperty:
        refused = True
    S.check(refused, "refused")
    S.observe(refused)


HARNESSES = [
    ("many", many, {"n": 7}, {"bounds": "lists of 7 dates, or times in a zone, on three days in any order", "tier": "quick"}),
    ("many more", many, {"n": 11}, {"bounds": "lists of 11 dates, or times in a zone, on three days in any order", "tier": "thorough"}),
    ("offset_ical", offset, {"kind": "ical"}, {"bounds": "every offset below 24 hours, to the second"}),
    ("offset_vcard", offset, {"kind": "vcard"}, {"bounds": "every offset below 24 hours, to the second"}),
    ("offset_text_ical", offset_text, {"kind": "ical", "lo": 4, "hi": 6}, {"bounds": "texts of 4..6 characters of + - digits colon space letter"}),
    ("offset_text_ical7", offset_text, {"kind": "ical", "lo": 7, "hi": 8}, {"bounds": "texts of 7..8 such characters"}),
    ("offset_text_vcard", offset_text, {"kind": "vcard", "lo": 5, "hi": 7}, {"bounds": "texts of 5..7 such characters"}),
    ("offset_text_vcard9", offset_text, {"kind": "vcard", "lo": 8, "hi": 9}, {"bounds": "texts of 8..9 such characters"}),
    ("offset_order", offset_order, {}, {"bounds": "every pair of offsets"}),
    ("integer", integer, {"span": 5000}, {"bounds": "every number within 5000 of 0, 10^5 and 2^31 either way"}),
    ("integer_text", integer_text, {"hi": 5}, {"bounds": "texts of up to 5 characters"}),
    ("dates", dates, {"n": 3, "kind": "date"}, {"bounds": "1..3 dates 1970..2100"}),
    ("utc_times", dates, {"n": 2, "kind": "utc"}, {"bounds": "1..2 UTC times 1970..2100"}),
    ("floating_times", dates, {"n": 2, "kind": "floating"}, {"bounds": "1..2 floating times"}),
    ("zone_times", dates, {"n": 2, "kind": "zone"}, {"bounds": "1..2 times with a TZID"}),
    ("periods", periods, {"n": 2, "name": "FREEBUSY"}, {"bounds": "1..2 periods with an end or a duration"}),
    ("period_rdates", periods, {"n": 2, "name": "RDATE"}, {"bounds": "1..2 periods with an end or a duration"}),
    ("bad_list", bad_list, {"hi": 4}, {"bounds": "one bad item of up to 4 characters at any place among three"}),
    ("integer_long", integer, {"span": 20000}, {"bounds": "every number within 20000 of the same", "tier": "thorough"}),
    ("dates_long", dates, {"n": 5, "kind": "utc"}, {"bounds": "1..5 times", "tier": "thorough"}),
    ("periods_long", periods, {"n": 3, "name": "FREEBUSY"}, {"bounds": "1..3 periods", "tier": "thorough"}),
]
