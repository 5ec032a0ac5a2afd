# Comparison, hashing, cached time and zone conversion of date-times
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
import refcal


def sign(x):
    if x < 0:
        return -1
    if x > 0:
        return 1
    return 0


def fixed(S, p, kind, lo, hi):
    """(DateTime, seconds since 1970 UTC) for a UTC time or one at a whole-minute offset"""
    y, m, d = refcal.date(S, lo, hi, p)
    h = S.int(p + "h", 0, 23)
    mi = S.int(p + "mi", 0, 59)
    s = S.int(p + "s", 0, 59)
    t = refcal.days(y, m, d) * 86400 + h * 3600 + mi * 60 + s
    if kind == "utc":
        return DateTime(y, m, d, h, mi, s, tzid=Timezone(utc=True)), t
    om = S.int(p + "om", -1439, 1439)
    return DateTime(y, m, d, h, mi, s, tzid=Timezone(utc=False, tzid=om * 60)), t - om * 60


def relations(S, a, b, c):
    S.check((a == b) == (c == 0), "==")
    S.check((a != b) == (c != 0), "!=")
    S.check((a < b) == (c < 0), "<")
    S.check((a <= b) == (c <= 0), "<=")
    S.check((a > b) == (c > 0), ">")
    S.check((a >= b) == (c >= 0), ">=")
    S.check(sign(DateTime.sort(a, b)) == sign(c), "sort")
    if c == 0:
        S.check(hash(a) == hash(b), "equal times hash alike")


def order_instants(S, ka, kb, lo, hi):
    a, ta = fixed(S, "a", ka, lo, hi)
    b, tb = fixed(S, "b", kb, lo, hi)
    pa = a.getPosixTime()
    pb = b.getPosixTime()
    relations(S, a, b, pa - pb)
    S.observe([a.getText(), b.getText(), a < b, a == b])


def order_near(S, ka, kb):
    # both on one of two neighbouring days
    y = S.conc(S.int("y", 2019, 2020))
    b1 = [S.choice("m" + p, [(2, 28), (2, 29), (12, 31), (1, 1)]) for p in "ab"]
    S.assume(b1[0] != (2, 29) and b1[1] != (2, 29) or y == 2020)
    out = []
    for p, (m, d), k in (("a", b1[0], ka), ("b", b1[1], kb)):
        h = S.int(p + "h", 0, 23)
        mi = S.int(p + "mi", 0, 59)
        s = S.int(p + "s", 0, 59)
        t = refcal.days(y, m, d) * 86400 + h * 3600 + mi * 60 + s
        if k == "utc":
            out.append((DateTime(y, m, d, h, mi, s, tzid=Timezone(utc=True)), t))
        else:
            om = S.int(p + "om", -1439, 1439)
            out.append((DateTime(y, m, d, h, mi, s, tzid=Timezone(utc=False, tzid=om * 60)), t - om * 60))
    (a, ta), (b, tb) = out
    relations(S, a, b, ta - tb)
    S.observe([a.getText(), b.getText(), a < b, a == b])


def wall(S, p):
    return [S.int(p + "y", 1900, 2200), S.int(p + "m", 1, 12), S.int(p + "d", 1, 28), S.int(p + "h", 0, 23), S.int(p + "mi", 0, 59), S.int(p + "s", 0, 59)]


def lex(a, b):
    for x, y in zip(a, b):
        if x < y:
            return -1
        if x > y:
            return 1
    return 0


def order_wall(S, kind):
    # floating and same-zone times compare by their wall clock, date-only ones by date
    fa = wall(S, "a")
    fb = wall(S, "b")
    if kind == "date":
        a = DateTime(fa[0], fa[1], fa[2])
        b = DateTime(fb[0], fb[1], fb[2])
        c = lex(fa[:3], fb[:3])
    elif kind == "mixed":
        a = DateTime(fa[0], fa[1], fa[2])
        b = DateTime(*fb)
        c = lex(fa[:3], fb[:3])
        S.check((a == b) == (c == 0) and (a < b) == (c < 0) and (a > b) == (c > 0) and (b < a) == (c > 0), "date against date-time compares dates")
        S.observe([a < b, a == b])
        return
    elif kind == "floating":
        a = DateTime(*fa)
        b = DateTime(*fb)
        c = lex(fa, fb)
    else:
        om = S.int("om", -1439, 1439)
        tz = Timezone(utc=True) if kind == "utc" else Timezone(utc=False, tzid=om * 60)
        a = DateTime(*fa, tzid=tz)
        b = DateTime(*fb, tzid=tz)
        c = lex(fa, fb)
    S.check((a == b) == (c == 0), "==")
    S.check((a != b) == (c != 0), "!=")
    S.check((a < b) == (c < 0), "<")
    S.check((a <= b) == (c <= 0), "<=")
    S.check((a > b) == (c > 0), ">")
    S.check((a >= b) == (c >= 0), ">=")
    if c == 0:
        S.check(hash(a) == hash(b), "equal times hash alike")
    S.observe([a < b, a == b])


STEPS = ("year", "month", "day", "hours", "minutes", "seconds", "yymmdd", "hhmmss", "oday", "omonth", "oyear", "ohours", "ominutes", "oseconds", "dateonly", "tzutc", "tzid", "tz", "yearday", "monthday")


def step(S, dt, k, i):
    v = "v%d" % i
    if k == "year":
        dt.setYear(S.int(v, 1990, 2010))
    elif k == "month":
        dt.setMonth(S.int(v, 1, 12))
    elif k == "day":
        dt.setDay(S.int(v, 1, 28))
    elif k == "hours":
        dt.setHours(S.int(v, 0, 23))
    elif k == "minutes":
        dt.setMinutes(S.int(v, 0, 59))
    elif k == "seconds":
        dt.setSeconds(S.int(v, 0, 59))
    elif k == "yymmdd":
        dt.setYYMMDD(S.int(v + "y", 1999, 2001), S.int(v + "m", 1, 12), S.int(v + "d", 1, 28))
    elif k == "hhmmss":
        dt.setHHMMSS(S.int(v + "h", 0, 23), S.int(v + "m", 0, 59), S.int(v + "s", 0, 59))
    elif k == "oday":
        dt.offsetDay(S.int(v, -40, 40))
    elif k == "omonth":
        dt.offsetMonth(S.int(v, -14, 14))
    elif k == "oyear":
        dt.offsetYear(S.int(v, -4, 4))
    elif k == "ohours":
        dt.offsetHours(S.int(v, -30, 30))
    elif k == "ominutes":
        dt.offsetMinutes(S.int(v, -70, 70))
    elif k == "oseconds":
        dt.offsetSeconds(S.int(v, -70, 70))
    elif k == "dateonly":
        dt.setDateOnly(S.bool(v))
    elif k == "tzutc":
        dt.setTimezoneUTC(True if S.bool(v) else False)
    elif k == "tzid":
        dt.setTimezoneID(S.int(v, -720, 720) * 60)
    elif k == "tz":
        dt.setTimezone(Timezone(utc=True) if S.bool(v) else Timezone(utc=False, tzid=S.int(v + "o", -720, 720) * 60))
    elif k == "yearday":
        dt.setYearDay(S.int(v, 1, 365))
    elif k == "monthday":
        dt.setMonthDay(S.int(v, 1, 28))


def stale(S, first, n):
    # reading the time, changing the value and reading again gives what a value built afresh gives
    d = S.int("d", 1, 28)
    h = S.int("h", 0, 23)
    om = S.int("om", -720, 720)
    kind = S.choice("zone", ["utc", "offset"])
    tz = Timezone(utc=True) if kind == "utc" else Timezone(utc=False, tzid=om * 60)
    dt = DateTime(2000, 2, d, h, 30, 15, tzid=tz)
    dt.getPosixTime()
    ks = [first]
    for i in range(1, n):
        ks.append(S.choice("k%d" % i, STEPS))
    for i, k in enumerate(ks):
        step(S, dt, k, i)
        if i % 2:
            hash(dt)
    f = [dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds()]
    fresh = DateTime(*f, tzid=Timezone(utc=bool(dt.getTimezoneUTC()), tzid=dt.getTimezoneID()))
    S.check(dt.getPosixTime() == fresh.getPosixTime(), "time read after the change")
    dup = dt.duplicate()
    S.check(dup.getPosixTime() == fresh.getPosixTime(), "time of a copy")
    S.observe(dt.getPosixTime())


def convert(S, ka, target, lo, hi):
    # changing the zone keeps the instant
    a, ta = fixed(S, "a", ka, lo, hi)
    cached = S.bool("cached")
    if cached:
        a.getPosixTime()
    om = S.int("om", -1439, 1439)
    if target == "utc":
        tz = Timezone(utc=True)
    else:
        tz = Timezone(utc=False, tzid=om * 60)
    txt = a.getText()
    b = a.getAdjustedTime(tz)
    S.check(a.getText() == txt, "getAdjustedTime leaves the original alone")
    S.check(b.getPosixTime() == ta, "same instant")
    S.check(bool(b.getTimezoneUTC()) == (target == "utc"), "utc flag")
    if target != "utc":
        S.check(b.getTimezoneID() == om * 60, "offset")
    w = ta + (0 if target == "utc" else om * 60)
    S.check(refcal.days(b.getYear(), b.getMonth(), b.getDay()) * 86400 + b.getHours() * 3600 + b.getMinutes() * 60 + b.getSeconds() == w, "wall clock in the new zone")
    u = a.duplicateAsUTC()
    S.check(u.getPosixTime() == ta, "UTC copy is the same instant")
    S.check(bool(u.getTimezoneUTC()), "UTC copy is UTC")
    S.check(u == a and b == a, "equal to the original")
    S.observe([b.getText(), u.getText()])


ZZ = (("utc", "utc"), ("utc", "offset"), ("offset", "utc"), ("offset", "offset"))
HARNESSES = [
    ("instants_%s_%s" % (a, b), order_instants, {"ka": a, "kb": b, "lo": 1753, "hi": 9999}, {"bounds": "all pairs of seconds 1753..9999, whole-minute offsets up to 23:59", "tier": "quick" if b == "utc" and a == "utc" else "thorough"})
    for a, b in (("utc", "utc"), ("utc", "offset"), ("offset", "utc"), ("offset", "offset"))
] + [
    ("near_%s_%s" % (a, b), order_near, {"ka": a, "kb": b}, {"bounds": "pairs of seconds on days at month and year ends of 2019/2020, whole-minute offsets up to 23:59"})
    for a, b in (("utc", "offset"), ("offset", "utc"), ("offset", "offset"))
] + [("wall_" + k, order_wall, {"kind": k}, {"bounds": "all pairs of wall clock times, years 1900..2200, days 1..28"}) for k in ("date", "mixed", "floating", "utc", "offset")] + [
    ("stale_" + k, stale, {"first": k, "n": 2}, {"bounds": "February 2000, two changes, the first %s" % k}) for k in STEPS
] + [
    ("convert_%s_%s" % (a, b), convert, {"ka": a, "target": b, "lo": 1999, "hi": 2000}, {"bounds": "seconds of 1999 and 2000, whole-minute offsets up to 23:59", "tier": "quickonly"}) for a, b in ZZ
] + [
    ("convert_far_%s_%s" % (a, b), convert, {"ka": a, "target": b, "lo": 1896, "hi": 2104}, {"bounds": "seconds 1896..2104, whole-minute offsets up to 23:59", "tier": "thorough"}) for a, b in ZZ
]
