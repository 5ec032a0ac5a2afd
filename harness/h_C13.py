# UTC offsets from VTIMEZONE components
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
import refcal
import refrule

WD = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]


def sun(n, month):
    return {"freq": "YEARLY", "bymonth": [month], "byday": [(n, 0)]}


# name: [(start, offset before, offset after, rule or list of more starts or None, name)]
ZONES = {
    "eastern": [((2007, 3, 11, 2, 0, 0), -18000, -14400, sun(2, 3), "EDT"), ((2007, 11, 4, 2, 0, 0), -14400, -18000, sun(1, 11), "EST")],
    "london": [((1996, 10, 27, 2, 0, 0), 3600, 0, sun(-1, 10), ""), ((1997, 3, 30, 1, 0, 0), 0, 3600, sun(-1, 3), "")],
    "south": [((2008, 4, 6, 3, 0, 0), 39600, 36000, sun(1, 4), "AEST"), ((2008, 10, 5, 2, 0, 0), 36000, 39600, sun(1, 10), "AEDT")],
    "until": [((1987, 4, 5, 2, 0, 0), -18000, -14400, dict(sun(1, 4), until=(2006, 4, 2, 7, 0, 0)), "EDT"),
              ((1987, 10, 25, 2, 0, 0), -14400, -18000, dict(sun(-1, 10), until=(2006, 10, 29, 6, 0, 0)), "EST"),
              ((2007, 3, 11, 2, 0, 0), -18000, -14400, sun(2, 3), "EDT"), ((2007, 11, 4, 2, 0, 0), -14400, -18000, sun(1, 11), "EST")],
    "ended": [((2010, 3, 28, 2, 0, 0), 7200, 10800, {"freq": "YEARLY", "bymonth": [3], "byday": [(-1, 0)], "until": (2012, 3, 25, 0, 0, 0)}, "A"),
              ((2010, 10, 31, 3, 0, 0), 10800, 7200, {"freq": "YEARLY", "bymonth": [10], "byday": [(-1, 0)], "until": (2011, 10, 30, 0, 0, 0)}, "B"),
              ((2012, 10, 28, 3, 0, 0), 10800, 14400, None, "C")],
    "rdates": [((2010, 3, 1, 0, 0, 0), 3600, 7200, [(2012, 2, 29, 0, 0, 0), (2013, 12, 31, 23, 30, 0)], ""), ((2011, 6, 1, 1, 0, 0), 7200, 3600, [(2012, 6, 1, 1, 0, 0)], "X")],
    "plain": [((1970, 1, 1, 0, 0, 0), 19800, 19800, None, "IST")],
    "newyear": [((2010, 1, 1, 0, 0, 0), 36000, 39600, {"freq": "YEARLY", "bymonth": [1], "bymonthday": [1]}, "A"), ((2010, 6, 30, 23, 0, 0), 39600, 36000, {"freq": "YEARLY", "bymonth": [6], "bymonthday": [30]}, "B")],
    "yearend": [((2010, 12, 31, 23, 0, 0), -18000, -14400, {"freq": "YEARLY", "bymonth": [12], "bymonthday": [31]}, "A"), ((2011, 7, 1, 0, 0, 0), -14400, -18000, {"freq": "YEARLY", "bymonth": [7], "bymonthday": [1]}, "B")],
    "seconds": [((2010, 5, 1, 0, 0, 0), 1050, 1172, None, ""), ((2012, 7, 1, 4, 0, 0), 1172, 1200, None, "")],
    "negative": [((2010, 5, 1, 0, 0, 0), -12600, -9000, sun(1, 5), ""), ((2010, 10, 31, 0, 0, 30), -9000, -12600, sun(-1, 10), "")],
}


def offset_text(n):
    sign = "-" if n < 0 else "+"
    n = -n if n < 0 else n
    t = "%s%02d%02d" % (sign, n // 3600, n // 60 % 60)
    if n % 60 != 0:
        t += "%02d" % (n % 60)
    return t


def stamp(p):
    return "%04d%02d%02dT%02d%02d%02d" % p


def rule_text(r):
    t = "FREQ=" + r["freq"]
    if "until" in r:
        t += ";UNTIL=" + stamp(r["until"]) + "Z"
    if "byday" in r:
        t += ";BYDAY=" + ",".join([(str(n) if n else "") + WD[w] for n, w in r["byday"]])
    if "bymonthday" in r:
        t += ";BYMONTHDAY=" + ",".join([str(m) for m in r["bymonthday"]])
    if "bymonth" in r:
        t += ";BYMONTH=" + ",".join([str(m) for m in r["bymonth"]])
    return t


def text_of(spec, tzid):
    t = ["BEGIN:VTIMEZONE", "TZID:" + tzid]
    for start, before, after, rule, name in spec:
        kind = "DAYLIGHT" if after > before else "STANDARD"
        t += ["BEGIN:" + kind, "DTSTART:" + stamp(start)]
        if isinstance(rule, dict):
            t.append("RRULE:" + rule_text(rule))
        elif rule:
            t.append("RDATE:" + ",".join([stamp(x) for x in rule]))
        if name:
            t.append("TZNAME:" + name)
        t += ["TZOFFSETFROM:" + offset_text(before), "TZOFFSETTO:" + offset_text(after), "END:" + kind]
    t.append("END:VTIMEZONE")
    return t


def calendar(specs):
    t = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"]
    for tzid in sorted(specs):
        t += text_of(specs[tzid], tzid)
    t += ["END:VCALENDAR", ""]
    return Calendar.parseText("\r\n".join(t))


def zone(spec, tzid="Test/Zone"):
    TimezoneDatabase.clearTimezoneDatabase()
    return calendar({tzid: spec}).getTimezone(tzid)


def point(p):
    return refcal.days(*p[:3]) * 86400 + p[3] * 3600 + p[4] * 60 + p[5]


def onsets(spec, upto):
    """[(local second of the onset, offset before, offset after, name)] up to the end of a year, in order"""
    out = []
    for start, before, after, rule, name in spec:
        if isinstance(rule, dict):
            r = dict(rule)
            if "until" in r:
                u = point(r["until"]) + before
                r["until"] = (u // 86400, u % 86400)
            for day, sec in refrule.expand(r, start, (refcal.jan1(upto + 1), 0), upto - start[0] + 2):
                out.append((day * 86400 + sec, before, after, name))
        else:
            for p in [start] + (rule or []):
                out.append((point(p), before, after, name))
    return sorted(out)


def offset_at(spec, upto, t, utc):
    """the offset in effect at a local or UTC second; (offset, name) of the last onset not after it"""
    found = None
    for o in onsets(spec, upto):
        if o[0] - (o[1] if utc else 0) <= t:
            found = o
    return (found[2], found[3]) if found is not None else (0, None)


def when(S, p, years, months=(1, 12)):
    y = S.choice(p + "y", years)
    m = S.conc(S.int(p + "m", months[0], months[1]))
    f = (y, m, S.int(p + "d", 1, refcal.mlen(y, m)), S.int(p + "h", 0, 23), S.int(p + "mi", 0, 59), S.int(p + "s", 0, 59))
    return f, point(f)


def lookup(S, name, years, utc):
    spec = ZONES[name]
    tz = zone(spec)
    f, t = when(S, "", years)
    exp = offset_at(spec, years[-1] + 1, t, utc)
    dt = DateTime(*f, tzid=Timezone(utc=True)) if utc else DateTime(*f)
    before = dt.getText()
    S.check(tz.getTimezoneOffsetSeconds(dt, utc) == exp[0], "offset in effect")
    S.check(tz.getTimezoneOffsetSeconds(dt, utc) == exp[0], "same again")
    S.check(dt.getText() == before, "time unchanged")
    S.observe(tz.getTimezoneOffsetSeconds(dt, utc))


def descriptor(S, name, years):
    spec = ZONES[name]
    tz = zone(spec)
    f, t = when(S, "", years)
    off, n = offset_at(spec, years[-1], t, False)
    d = tz.getTimezoneDescriptor(DateTime(*f))
    if n is None:
        S.check(d == "", "none before the first onset")
    elif n:
        S.check(d == "(" + n + ")", "name in effect")
    else:
        S.check(d == offset_text(off)[:5], "offset in effect")
    S.observe(d)


def history(S, name, years, n):
    """answers do not depend on what was asked before"""
    spec = ZONES[name]
    tz = zone(spec)
    for i in range(n - 1):
        y = S.choice("h%dy" % i, years)
        m = S.choice("h%dm" % i, [2, 6, 12])
        q = S.choice("h%dq" % i, ["local", "utc", "name"])
        if q == "name":
            tz.getTimezoneDescriptor(DateTime(y, m, 15, 12, 0, 0))
        else:
            tz.getTimezoneOffsetSeconds(DateTime(y, m, 15, 12, 0, 0), q == "utc")
    y, m = S.choice("ym", [(y, m) for y in years for m in (3, 11)])
    f = (y, m, S.int("d", 1, refcal.mlen(y, m)), S.int("h", 0, 23), S.int("mi", 0, 59), 0)
    t = point(f)
    utc = S.bool("utc")
    off, nm = offset_at(spec, years[-1] + 1, t, utc)
    S.check(tz.getTimezoneOffsetSeconds(DateTime(*f), utc) == off, "offset in effect")
    off, nm = offset_at(spec, years[-1] + 1, t, False)
    S.check(tz.getTimezoneDescriptor(DateTime(*f)) == ("(" + nm + ")" if nm else "" if nm is None else offset_text(off)[:5]), "name in effect")
    S.observe(off)


def same_minute(S, name, y, m, d, h, mi):
    """two moments a few seconds apart, either side of an onset"""
    spec = ZONES[name]
    tz = zone(spec)
    for p in ("a", "b"):
        f = (y, m, d, h, mi, S.int(p, 0, 59))
        S.check(tz.getTimezoneOffsetSeconds(DateTime(*f)) == offset_at(spec, y, point(f), False)[0], "offset in effect")
    S.reached()


def convert(S, name, years):
    """local to UTC and back"""
    spec = ZONES[name]
    TimezoneDatabase.clearTimezoneDatabase()
    calendar({"Test/Zone": spec})
    f, t = when(S, "", years)
    off = offset_at(spec, years[-1], t, False)[0]
    here = Timezone(utc=False, tzid="Test/Zone")
    dt = DateTime(*f, tzid=here)
    S.check(dt.getPosixTime() == t - off, "instant")
    u = dt.duplicateAsUTC()
    S.check(u.utc() and u.getPosixTime() == t - off, "same instant in UTC")
    S.check(DateTime(*f, tzid=here) == u and hash(u) == hash(dt), "equal")
    S.check(dt.getText() == DateTime(*f).getText(), "original unchanged")
    back = u.getAdjustedTime(here)
    exp = t - off + offset_at(spec, years[-1] + 1, t - off, True)[0]
    S.check(back.getTimezoneID() == "Test/Zone", "in the zone")
    S.check(point((back.getYear(), back.getMonth(), back.getDay(), back.getHours(), back.getMinutes(), back.getSeconds())) == exp, "wall clock at that instant")
    S.observe([u.getText(), back.getText()])


def between(S, za, zb, years):
    """from one zone to another"""
    TimezoneDatabase.clearTimezoneDatabase()
    calendar({"A/A": ZONES[za], "B/B": ZONES[zb]})
    f, t = when(S, "", years, (3, 4))
    a = DateTime(*f, tzid=Timezone(utc=False, tzid="A/A"))
    inst = t - offset_at(ZONES[za], years[-1], t, False)[0]
    b = a.getAdjustedTime(Timezone(utc=False, tzid="B/B"))
    exp = inst + offset_at(ZONES[zb], years[-1], inst, True)[0]
    S.check(point((b.getYear(), b.getMonth(), b.getDay(), b.getHours(), b.getMinutes(), b.getSeconds())) == exp, "wall clock in the other zone")
    S.check(a.getPosixTime() == inst, "original keeps its instant")
    S.observe(b.getText())


def custom(S, utc):
    """a zone whose months, weekdays and offsets are unknown"""
    off = S.int("off", -40, 50) * 900
    n1 = S.choice("n1", [1, 2, -1])
    m1 = S.choice("m1", [2, 3, 4])
    spec = [((2018, m1, 5, 2, 0, 0), off, off + 3600, sun(n1, m1), "S"), ((2018, 10, 7, 3, 0, 0), off + 3600, off, sun(1, 10), "W")]
    tz = zone(spec)
    y = S.choice("y", [2018, 2019, 2020])
    m = S.choice("m", [1, m1, 10])
    f = (y, m, S.int("d", 1, refcal.mlen(y, m)), S.int("h", 0, 23), 0, 0)
    t = point(f)
    S.check(tz.getTimezoneOffsetSeconds(DateTime(*f), utc) == offset_at(spec, 2020, t, utc)[0], "offset in effect")
    S.reached()


def transitions(S, name, lo, hi):
    """expandAll lists every onset in a window"""
    spec = ZONES[name]
    tz = zone(spec)
    a = S.int("a", lo, hi)
    b = S.int("b", lo, hi)
    S.assume(a < b)
    start = DateTime(a, S.choice("am", [1, 6]), 1, 0, 0, 0)
    end = DateTime(b, 1, 1, 0, 0, 0)
    got = tz.expandAll(start, end, with_name=True)
    exp = []
    for o in onsets(spec, hi):
        if point((a, start.getMonth(), 1, 0, 0, 0)) <= o[0] < point((b, 1, 1, 0, 0, 0)):
            exp.append(o)
    S.check(len(got) == len(exp), "number of onsets")
    for i in range(len(exp)):
        x = got[i]
        p = point((x[0].getYear(), x[0].getMonth(), x[0].getDay(), x[0].getHours(), x[0].getMinutes(), x[0].getSeconds()))
        S.check(p == exp[i][0], "local onset")
        S.check(x[1].utc() and x[1].getPosixTime() == exp[i][0] - exp[i][1], "UTC onset")
        S.check((x[2], x[3], x[4]) == (exp[i][1], exp[i][2], exp[i][3]), "offsets and name")
    S.observe(len(got))


YEARS = {"eastern": [2006, 2007, 2008, 2020], "london": [1996, 1997, 2000, 2020], "south": [2007, 2008, 2009, 2019], "until": [1986, 1987, 2006, 2007, 2008],
         "ended": [2009, 2010, 2011, 2012, 2013, 2014], "rdates": [2009, 2010, 2012, 2013, 2014], "plain": [1969, 1970, 2020], "newyear": [2009, 2010, 2011, 2014], "yearend": [2010, 2011, 2012, 2014], "seconds": [2009, 2010, 2012, 2015], "negative": [2009, 2010, 2011, 2020]}
HARNESSES = [
    ("lookup_%s_%s" % (n, "utc" if u else "local"), lookup, {"name": n, "years": YEARS[n], "utc": u}, {"bounds": "zone %s, every %s second of the years %s" % (n, "UTC" if u else "local", YEARS[n])})
    for n in sorted(ZONES) for u in (False, True)
] + [
    ("descriptor_%s" % n, descriptor, {"name": n, "years": YEARS[n][:3]}, {"bounds": "zone %s, every local second of the years %s" % (n, YEARS[n][:3])}) for n in sorted(ZONES)
] + [
    ("history_%s" % n, history, {"name": n, "years": YEARS[n][-3:], "n": k}, {"bounds": "%d earlier questions in the years %s" % (k - 1, YEARS[n][-3:]), "tier": "quick" if k == 2 else "thorough"})
    for n in ("eastern", "until", "rdates", "ended") for k in (2, 3)
] + [
    ("same_minute", same_minute, {"name": "negative", "y": 2010, "m": 10, "d": 31, "h": 0, "mi": 0}, {"bounds": "every two seconds of the minute of an onset"}),
] + [
    ("convert_%s" % n, convert, {"name": n, "years": YEARS[n][1:3]}, {"bounds": "zone %s, every local second of the years %s" % (n, YEARS[n][1:3])}) for n in sorted(ZONES)
] + [
    ("between_%s_%s" % (a, b), between, {"za": a, "zb": b, "years": [2012]}, {"bounds": "every second of March and April 2012"}) for a, b in (("eastern", "london"), ("south", "eastern"), ("negative", "south"), ("plain", "rdates"))
] + [
    ("custom_%s" % ("utc" if u else "local"), custom, {"utc": u}, {"bounds": "offsets -10..+12:30 h, onset rules 1st/2nd/last Sunday of 3 months, every hour of 3 months of 3 years"}) for u in (False, True)
] + [
    ("transitions_%s" % n, transitions, {"name": n, "lo": YEARS[n][0], "hi": YEARS[n][0] + 6}, {"bounds": "windows of years %s..%s" % (YEARS[n][0], YEARS[n][0] + 6)}) for n in ("eastern", "until", "rdates", "ended", "seconds", "newyear")
]
