# Recurrence rules without BYxxx parts: frequency, interval, count, until, window
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
import refcal
import refrule

MONTHS = [(2019, 1), (2019, 2), (2019, 12), (2020, 1), (2020, 2), (2020, 12), (2099, 12), (2100, 2)]


def make(S, y, m, dlo, dhi, kind, times):
    d = S.int("d", dlo, min(dhi, refcal.mlen(y, m)))
    if kind == "date":
        return (y, m, d, 0, 0, 0), DateTime(y, m, d)
    h, mi, s = (S.int("h", 0, 23), S.int("mi", 0, 59), S.int("s", 0, 59)) if times else (S.int("h", 0, 23), 30, 15)
    tz = Timezone(utc=True) if kind == "utc" else None
    return (y, m, d, h, mi, s), (DateTime(y, m, d, h, mi, s, tzid=tz) if tz else DateTime(y, m, d, h, mi, s))


def point(dt):
    n = refcal.days(dt.getYear(), dt.getMonth(), dt.getDay())
    if dt.isDateOnly():
        return n, 0
    return n, dt.getHours() * 3600 + dt.getMinutes() * 60 + dt.getSeconds()


def run(S, rule_text, dtstart, a, b):
    r = Recurrence()
    r.parse(rule_text)
    rs = RecurrenceSet()
    rs.addRule(r)
    items = []
    rs.expand(dtstart, Period(a, b), items)
    return items


def compare(S, items, exp, dtstart):
    S.check(len(items) == len(exp), "number of instances")
    items = sorted(items, key=lambda x: x.getPosixTime())
    for i in range(len(exp)):
        p = point(items[i])
        S.check(p[0] == exp[i][0], "date of instance %d" % i)
        S.check(p[1] == exp[i][1], "time of instance %d" % i)
        S.check(items[i].isDateOnly() == dtstart.isDateOnly() and bool(items[i].utc()) == bool(dtstart.utc()) and items[i].getTimezoneID() == dtstart.getTimezoneID(),
                "kind of instance %d" % i)
        S.check(1 <= items[i].getMonth() <= 12 and 1 <= items[i].getDay() <= refcal.mlen(items[i].getYear(), items[i].getMonth()), "valid date")


def count(S, freq, kind, n, ihi, months, dlo=1, times=True):
    y, m = S.choice("ym", months)
    start, dt = make(S, y, m, dlo, 31, kind, times)
    c = S.conc(S.int("c", 1, n))
    i = S.int("i", 1, ihi)
    r = Recurrence()
    r.parse("FREQ=%s" % freq)
    r.setUseCount(True)
    r.setCount(c)
    r.setInterval(i)
    rs = RecurrenceSet()
    rs.addRule(r)
    items = []
    far = DateTime(y + 100, 1, 1)
    rs.expand(dt, Period(DateTime(y - 1, 1, 1), far), items)
    exp = refrule.expand({"freq": freq, "interval": i, "count": c}, start, (10 ** 7, 0), 8 * n + 8)
    compare(S, items, exp, dt)
    S.observe([x.getText() for x in items])


def later(S, p, y, m, d, kind, hi):
    """a time up to hi days after (y, m, d), as point and DateTime"""
    x = S.int(p + "x", 0, hi)
    yy, mm, dd = refrule.roll(y, m, d + x)
    if kind == "date":
        return (refcal.days(yy, mm, dd), 0), DateTime(yy, mm, dd)
    h, mi = S.int(p + "h", 0, 23), S.int(p + "mi", 0, 59)
    t = (refcal.days(yy, mm, dd), h * 3600 + mi * 60 + 15)
    if kind == "utc":
        return t, DateTime(yy, mm, dd, h, mi, 15, tzid=Timezone(utc=True))
    return t, DateTime(yy, mm, dd, h, mi, 15)


def until(S, freq, kind, ukind, span, imin, ihi, months):
    # UNTIL is inclusive; a date includes the whole day
    y, m = S.choice("ym", months)
    start, dt = make(S, y, m, 1, 31, kind, False)
    u, udt = later(S, "u", y, m, start[2], ukind, span)
    i = S.conc(S.int("i", imin, ihi))
    if ukind == "date":
        u = (u[0], 86399)
    if not before_or_at((refcal.days(*start[:3]), start[3] * 3600 + start[4] * 60 + start[5]), u):
        S.assume(False)
    r = Recurrence()
    r.parse("FREQ=%s;UNTIL=%s;INTERVAL=%s" % (freq, udt.getText(), i))
    rs = RecurrenceSet()
    rs.addRule(r)
    before = dt.getText()
    items = []
    rs.expand(dt, Period(DateTime(y - 1, 1, 1), DateTime(y + 100, 1, 1)), items)
    per = {"SECONDLY": 86400, "MINUTELY": 1440, "HOURLY": 24}.get(freq, 1)
    exp = refrule.expand({"freq": freq, "interval": i, "until": u}, start, (10 ** 7, 0), (span + 1) * per // imin + 2)
    compare(S, items, exp, dt)
    S.check(dt.getText() == before, "the start is not changed")
    S.check(r.getUntil().getText() == udt.getText(), "the rule is not changed")
    S.observe([x.getText() for x in items])


def before_or_at(a, b):
    return not refrule.before(b, a)


def window(S, freq, kind, ihi, span, months, counted):
    # exactly the instances at or after the beginning of the window and before its end
    y, m = S.choice("ym", months)
    start, dt = make(S, y, m, 27, 31, kind, False)
    i = S.conc(S.int("i", 1, ihi))
    a, adt = later(S, "a", y, m, 28, kind, span)
    b, bdt = later(S, "b", y, m, 28, kind, span)
    if not refrule.before(a, b):
        S.assume(False)
    rule = {"freq": freq, "interval": i}
    if counted:
        rule["count"] = 3
    r = Recurrence()
    r.parse("FREQ=%s;INTERVAL=%s%s" % (freq, i, ";COUNT=3" if counted else ""))
    rs = RecurrenceSet()
    rs.addRule(r)
    items = []
    rs.expand(dt, Period(adt, bdt), items)
    exp = refrule.expand(rule, start, b, {"DAILY": span + 2, "WEEKLY": span // 7 + 2, "HOURLY": 24 * span + 26}.get(freq, span // 28 + 3))
    exp = [p for p in exp if before_or_at(a, p) and refrule.before(p, b)]
    compare(S, items, exp, dt)
    S.observe([x.getText() for x in items])


BIG = [(2019, 1), (2019, 2), (2020, 1), (2020, 2), (2100, 2)]

HARNESSES = [
    ("count_%s_utc" % f.lower(), count, {"freq": f, "kind": "utc", "n": 3, "ihi": hi, "months": MONTHS},
     {"bounds": "UTC starts any second of 8 months around leap years and year ends, 1..3 instances, interval 1..%d" % hi})
    for f, hi in (("SECONDLY", 90000), ("MINUTELY", 1500), ("HOURLY", 30), ("DAILY", 35), ("WEEKLY", 5))
] + [
    ("count_%s_%s" % (f.lower(), k), count, {"freq": f, "kind": k, "n": 4, "ihi": hi, "months": MONTHS},
     {"bounds": "%s starts any day and time of 8 months around leap years and year ends, 1..4 instances, interval 1..%d" % (k, hi)})
    for f, hi in (("DAILY", 5), ("WEEKLY", 3), ("MONTHLY", 13), ("YEARLY", 4)) for k in ("date", "floating")
] + [
    ("until_%s_%s_%s" % (f.lower(), k, u), until, {"freq": f, "kind": k, "ukind": u, "span": sp, "imin": lo, "ihi": hi, "months": BIG},
     {"bounds": "starts any day of 5 months, UNTIL any minute up to %d days later, interval %d..%d" % (sp, lo, hi)})
    for f, k, u, sp, lo, hi in (("DAILY", "utc", "utc", 5, 1, 3), ("DAILY", "date", "date", 6, 1, 3), ("DAILY", "floating", "floating", 4, 1, 2), ("DAILY", "utc", "date", 4, 1, 2),
                                ("WEEKLY", "utc", "utc", 16, 1, 2), ("HOURLY", "utc", "utc", 1, 6, 8), ("MONTHLY", "floating", "floating", 40, 1, 2), ("MONTHLY", "date", "date", 62, 1, 2))
] + [
    ("window_%s_%s%s" % (f.lower(), k, "_count" if c else ""), window, {"freq": f, "kind": k, "ihi": hi, "span": sp, "months": [(2019, 2), (2020, 2), (2019, 12)], "counted": c},
     {"bounds": "starts at the end of 3 months, windows of any minutes up to %d days later, interval 1..%d" % (sp, hi)})
    for f, k, hi, sp, c in (("DAILY", "date", 2, 6, False), ("DAILY", "utc", 2, 3, True), ("WEEKLY", "date", 2, 16, False), ("HOURLY", "floating", 7, 1, True), ("MONTHLY", "date", 1, 62, False))
] + [
    ("count_%s_utc_far" % f.lower(), count, {"freq": f, "kind": "utc", "n": 4, "ihi": hi, "months": MONTHS},
     {"bounds": "as count, 1..4 instances, interval 1..%d" % hi, "tier": "thorough"})
    for f, hi in (("SECONDLY", 200000), ("MINUTELY", 3000), ("HOURLY", 80), ("DAILY", 70), ("WEEKLY", 10), ("MONTHLY", 30), ("YEARLY", 9))
]
