# RRULE values: text and JSON forms, equality, copies, validation
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.property import Property
from pycalendar.exceptions import InvalidProperty

WD = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
FREQS = ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"]
LISTS = {"BYSECOND": (0, 60, False), "BYMINUTE": (0, 59, False), "BYHOUR": (0, 23, False), "BYMONTHDAY": (1, 31, True),
         "BYYEARDAY": (1, 366, True), "BYWEEKNO": (1, 53, True), "BYMONTH": (1, 12, False), "BYSETPOS": (1, 366, True)}
ORDER = ["BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"]


def value(S, name, part, i):
    if part == "BYDAY":
        n = S.int("%sn%d" % (name, i), -53, 53)
        w = S.int("%sw%d" % (name, i), 0, 6)
        return (str(n) if n != 0 else "") + WD[w]
    lo, hi, neg = LISTS[part]
    v = S.int("%s%d" % (name, i), -hi if neg else lo, hi)
    if neg:
        S.assume(v != 0)
    return str(v)


def until(S, p, kind):
    y, m, d = S.int(p + "y", 1970, 2100), S.int(p + "m", 1, 12), S.int(p + "d", 1, 28)
    if kind == "date":
        return "%04d%02d%02d" % (y, m, d)
    return "%04d%02d%02dT%02d%02d%02dZ" % (y, m, d, S.int(p + "h", 0, 23), S.int(p + "mi", 0, 59), S.int(p + "s", 0, 59))


def getters(r):
    return [r.getFreq(), r.getUseCount(), r.getCount(), r.getUseUntil(), r.getUntil().getText() if r.getUseUntil() else None, r.getInterval(),
            r.getByMonth(), r.getByMonthDay(), r.getByYearDay(), r.getByDay(), r.getBySetPos()]


def check(S, text, shuffled=None):
    """text is the standard form"""
    r = Recurrence()
    r.parse(text if shuffled is None else shuffled)
    S.check(r.getText() == text, "written as read")
    q = Recurrence()
    q.parse(r.getText())
    S.check(q == r and not (q != r) and hash(q) == hash(r), "reads back equal")
    S.check(getters(q) == getters(r), "same parts")
    j = []
    r.writeJSON(j)
    S.check(len(j) == 1, "one JSON value")
    k = Recurrence()
    k.parseJSON(j[0])
    S.check(k.getText() == text, "same from JSON")
    S.check(k == r, "equal from JSON")
    d = r.duplicate()
    S.check(d == r and d.getText() == text, "copy")
    d.setInterval(d.getInterval() + 1)
    d.setByMonth([3, 4, 5])
    if r.getByDay():
        d.getByDay().append((0, 0))
    if r.getByMonthDay():
        d.getByMonthDay().append(7)
    if r.getUseUntil():
        d.getUntil().offsetDay(1)
    S.check(r.getText() == text, "copy is independent")
    S.check(d != r, "changed copy differs")
    p = Property.parseText("RRULE:" + text)
    S.check(p.getText() == "RRULE:" + text + "\r\n" or len(text) > 60, "property")
    S.observe(text)


def part(S, name, n):
    k = S.conc(S.int("k", 1, n))
    check(S, "FREQ=YEARLY;%s=%s" % (name, ",".join([value(S, "v", name, i) for i in range(k)])))


def pair(S, a, b):
    text = "FREQ=MONTHLY;%s=%s;%s=%s" % (a, value(S, "a", a, 0) + "," + value(S, "a", a, 1), b, value(S, "b", b, 0))
    i = text.index(";") + 1
    x, y = text[i:].split(";")
    check(S, text, "FREQ=MONTHLY;" + y + ";" + x)


def head(S, lim):
    f = S.choice("f", FREQS)
    t = "FREQ=" + f
    if lim == "count":
        t += ";COUNT=%s" % S.int("c", 1, 9999)
    elif lim:
        t += ";UNTIL=" + until(S, "u", lim)
    i = S.int("i", 1, 999)
    if i > 1:
        t += ";INTERVAL=%s" % i
    w = S.int("w", 0, 6)
    if w != 1:
        t += ";WKST=" + WD[w]
    check(S, t)


def ranges(S, name, lo, hi):
    """values outside the range of a part are refused"""
    v = S.int("v", -hi, hi)
    a, b, neg = LISTS[name]
    bad = v < 0 if not neg else False
    if not bad:
        m = -v if v < 0 else v
        bad = m < a or (m > b)
    r = Recurrence()
    try:
        r.parse("FREQ=YEARLY;%s=%s" % (name, v))
    except ValueError:
        S.check(bad, "a legal value is accepted")
        return
    S.check(not bad, "an illegal value is refused")


def ranges_day(S):
    v = S.int("v", -99, 99)
    r = Recurrence()
    try:
        r.parse("FREQ=YEARLY;BYDAY=%sMO" % v)
    except ValueError:
        S.check(v == 0 or v > 53 or v < -53, "a legal value is accepted")
        return
    S.check(v != 0 and -53 <= v <= 53, "an illegal value is refused")
    S.check(r.getByDay() == [(v, 1)], "value")


def counts(S, name):
    v = S.int("v", -5, 99)
    r = Recurrence()
    try:
        r.parse("FREQ=YEARLY;%s=%s" % (name, v))
    except ValueError:
        S.check(v < 1, "a legal value is accepted")
        return
    S.check(v >= 1, "an illegal value is refused")
    S.check((r.getCount() if name == "COUNT" else r.getInterval()) == v, "value")


def equal(S, name, n):
    # the order of the values of a part does not matter
    a = [value(S, "a", name, i) for i in range(n)]
    b = [value(S, "b", name, i) for i in range(n)]
    x = Recurrence()
    x.parse("FREQ=MONTHLY;%s=%s" % (name, ",".join(a)))
    y = Recurrence()
    y.parse("FREQ=MONTHLY;%s=%s" % (name, ",".join(b)))
    same = sorted(a) == sorted(b)
    S.check((x == y) == same and (x != y) == (not same), "equality")
    if same:
        S.check(hash(x) == hash(y), "hash")
    z = Recurrence()
    z.parse("FREQ=MONTHLY;%s=%s" % (name, a[0]))
    S.check(z != x or n == 1, "fewer values")


def equal_day(S, n):
    a = [(S.int("an%d" % i, -2, 2), S.choice("aw%d" % i, ["MO", "TU"])) for i in range(n)]
    b = [(S.int("bn%d" % i, -2, 2), S.choice("bw%d" % i, ["MO", "TU"])) for i in range(n)]
    rules = []
    for l in (a, b):
        r = Recurrence()
        r.parse("FREQ=MONTHLY;BYDAY=%s" % ",".join([(str(k) if k else "") + w for k, w in l]))
        rules.append(r)
    x, y = rules
    same = sorted(a) == sorted(b)
    S.check((x == y) == same and (x != y) == (not same), "equality")
    if same:
        S.check(hash(x) == hash(y), "hash")


def equal_head(S):
    def make(p):
        r = Recurrence()
        t = "FREQ=" + S.choice(p + "f", ["DAILY", "WEEKLY"])
        lim = S.choice(p + "l", ["", "c", "u"])
        if lim == "c":
            t += ";COUNT=%s" % S.int(p + "c", 1, 9)
        elif lim == "u":
            t += ";UNTIL=202001%02d" % S.int(p + "c", 10, 19)
        i = S.int(p + "i", 1, 9)
        w = S.choice(p + "w", ["MO", "SU"])
        r.parse(t + ";INTERVAL=%s;WKST=%s" % (i, w))
        return r, t, i, w
    a, at, ai, aw = make("a")
    b, bt, bi, bw = make("b")
    same = at == bt and ai == bi and aw == bw
    S.check((a == b) == same and (a != b) == (not same), "equality")
    if same:
        S.check(hash(a) == hash(b), "hash")


BAD = ["", "FREQ=", "FREQ=FORTNIGHTLY", "COUNT=x", "UNTIL=x", "INTERVAL=", "BYDAY=XX", "BYDAY=", "WKST=1", "X=1", "FREQ", "BYMONTH=", "BYHOUR=a", "=", "BYSETPOS=-", "freq=DAILY"]


def bad(S):
    """one bad part anywhere spoils the rule; so do repeated parts and COUNT with UNTIL"""
    k = S.choice("bad", BAD + ["BYMONTH=1;BYMONTH=2", "BYDAY=MO;BYDAY=TU", "BYHOUR=1;BYHOUR=1", "BYMINUTE=1;BYMINUTE=1", "BYSECOND=1;BYSECOND=1", "BYMONTHDAY=1;BYMONTHDAY=1",
                               "BYYEARDAY=1;BYYEARDAY=1", "BYWEEKNO=1;BYWEEKNO=1", "BYSETPOS=1;BYSETPOS=1", "COUNT=1;UNTIL=20200101", "UNTIL=20200101;COUNT=1"])
    parts = ["FREQ=DAILY", "INTERVAL=2"]
    parts.insert(S.conc(S.int("pos", 0, 2)), k)
    t = ";".join(parts)
    r = Recurrence()
    try:
        r.parse(t)
        S.fail("refused")
    except ValueError:
        pass
    try:
        Property.parseText("RRULE:" + t)
        S.fail("property refused")
    except InvalidProperty:
        S.reached()
    S.observe(t)


def junk(S, prefix, hi, alphabet):
    """whatever follows: a rule that is written and read back the same, or ValueError"""
    t = prefix + S.str("t", 0, hi, alphabet)
    r = Recurrence()
    try:
        r.parse(t)
    except ValueError:
        S.reached()
        S.observe("refused")
        return
    out = r.getText()
    q = Recurrence()
    q.parse(out)
    S.check(q == r and q.getText() == out, "written and read back")
    S.observe(out)


HARNESSES = [
    ("part_" + n.lower(), part, {"name": n, "n": 2}, {"bounds": "1..2 values over the whole range of %s" % n}) for n in ORDER
] + [
    ("pair_%s_%s" % (a.lower(), b.lower()), pair, {"a": a, "b": b}, {"bounds": "two values and one value, either order", "tier": "quick" if j == i + 1 or "BYDAY" in (a, b) else "thorough"})
    for i, a in enumerate(ORDER) for j, b in enumerate(ORDER) if i < j
] + [
    ("head_" + (k or "none"), head, {"lim": k}, {"bounds": "every frequency, interval 1..999, WKST, count 1..9999 or UNTIL 1970..2100"}) for k in ("", "count", "date", "utc")
] + [
    ("range_" + n.lower(), ranges, {"name": n, "lo": 0, "hi": 400}, {"bounds": "-400..400"}) for n in sorted(LISTS)
] + [
    ("range_byday", ranges_day, {}, {"bounds": "-99..99"}),
    ("range_count", counts, {"name": "COUNT"}, {"bounds": "-5..99"}),
    ("range_interval", counts, {"name": "INTERVAL"}, {"bounds": "-5..99"}),
] + [
    ("equal_" + n.lower(), equal, {"name": n, "n": 2}, {"bounds": "two values each", "tier": "quick" if n in ("BYHOUR", "BYMONTH") else "thorough"}) for n in ORDER if n != "BYDAY"
] + [
    ("equal_byday", equal_day, {"n": 2}, {"bounds": "two weekdays each, numbers -2..2"}),
    ("equal_head", equal_head, {}, {"bounds": "frequency, limit, interval, WKST"}),
    ("bad", bad, {}, {"bounds": "%d malformed parts in each position" % (len(BAD) + 11)}),
    ("junk_freq", junk, {"prefix": "FREQ=DAILY", "hi": 4, "alphabet": ";=,1-BY"}, {"bounds": "FREQ=DAILY and up to 4 characters"}),
    ("junk_byday", junk, {"prefix": "FREQ=DAILY;BYDAY=", "hi": 5, "alphabet": "MO,15-+;"}, {"bounds": "BYDAY= and up to 5 characters"}),
    ("junk_bymonth", junk, {"prefix": "FREQ=DAILY;BYMONTH=", "hi": 4, "alphabet": ",012-+ ;"}, {"bounds": "BYMONTH= and up to 4 characters"}),
    ("junk_count", junk, {"prefix": "FREQ=DAILY;COUNT=", "hi": 4, "alphabet": "019-+ ;="}, {"bounds": "COUNT= and up to 4 characters"}),
    ("junk_until", junk, {"prefix": "FREQ=DAILY;UNTIL=2020010", "hi": 4, "alphabet": "01TZ;"}, {"bounds": "a date and up to 4 characters", "tier": "thorough"}),
]
