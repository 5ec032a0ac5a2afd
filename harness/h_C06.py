# Periods
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
import refcal

UTC = Timezone(utc=True)


def stamp(S, p, lo, hi):
    y, m, d = refcal.date(S, lo, hi, p)
    h = S.int(p + "h", 0, 23)
    mi = S.int(p + "mi", 0, 59)
    s = S.int(p + "s", 0, 59)
    return DateTime(y, m, d, h, mi, s, tzid=UTC), refcal.days(y, m, d) * 86400 + h * 3600 + mi * 60 + s


def near(S, p):
    """a time within January 2000"""
    d = S.int(p + "d", 1, 31)
    h = S.int(p + "h", 0, 23)
    mi = S.int(p + "mi", 0, 59)
    s = S.int(p + "s", 0, 59)
    return DateTime(2000, 1, d, h, mi, s, tzid=UTC), ((d * 24 + h) * 60 + mi) * 60 + s


def ends(S, kind, lo, hi, feb=False):
    a, ta = stamp(S, "a", lo, hi)
    if feb:
        S.assume(a.getMonth() >= 2 and a.getMonth() <= 3)
    pa = a.getPosixTime()
    if kind == "end":
        b, tb = stamp(S, "b", lo, hi)
        if feb:
            S.assume(b.getMonth() >= 2 and b.getMonth() <= 3)
        pb = b.getPosixTime()
        p = Period(start=a, end=b)
        n = pb - pa
        S.assume(n >= 0)
    else:
        n = S.int("n", 0, 40 * 86400)
        p = Period(start=a, duration=Duration(duration=n))
        pb = pa + n
    S.check(p.getUseDuration() == (kind != "end"), "remembers its form")
    S.check(p.getStart() == a, "start")
    S.check(p.getDuration().getTotalSeconds() == n, "duration")
    e = p.getEnd()
    S.check(e.getPosixTime() == pb, "end")
    S.check(bool(e.utc()), "end is UTC")
    t = p.getText()
    S.check(t[:17] == a.getText() + "/", "text starts with the start")
    S.check((t[17] == "P") == (kind != "end"), "text keeps the form")
    p.setUseDuration(kind == "end")
    S.check(p.getUseDuration() == (kind == "end"), "form switched")
    S.check(p.getStart().getPosixTime() == pa and p.getEnd().getPosixTime() == pb and p.getDuration().getTotalSeconds() == n, "same period after switching its form")
    t2 = p.getText()
    S.check((t2[17] == "P") == (kind == "end"), "other form is written")
    S.observe(t)


def text(S, kind, zone):
    y = S.int("y", 1000, 9999)
    m = S.int("m", 1, 12)
    d = S.int("d", 1, 28)
    h = S.int("h", 0, 23)
    mi = S.int("mi", 0, 59)
    s = S.int("s", 0, 59)
    tz = UTC if zone == "utc" else None
    a = DateTime(y, m, d, h, mi, s, tzid=tz)
    if kind == "end":
        b = DateTime(S.int("y2", 1000, 9999), S.int("m2", 1, 12), S.int("d2", 1, 28), S.int("h2", 0, 23), S.int("mi2", 0, 59), S.int("s2", 0, 59), tzid=tz)
        p = Period(start=a, end=b)
        exp = a.getText() + "/" + b.getText()
    else:
        n = ((S.int("pd", 0, 99) * 24 + S.int("ph", 0, 23)) * 60 + S.int("pm", 0, 59)) * 60 + S.int("ps", 0, 59)
        b = Duration(duration=n)
        p = Period(start=a, duration=b)
        exp = a.getText() + "/" + b.getText()
    t = p.getText()
    S.check(t == exp, "start / end or duration")
    q = Period.parseText(t)
    same(S, q, a, b, kind, "text")
    S.check(q.getText() == t, "same text again")
    j = []
    if S.bool("asked"):
        # what was asked before does not matter
        p.getEnd()
        p.getDuration()
        S.check(p.getText() == t, "same text when asked for its end and length")
    p.writeJSON(j)
    S.check(len(j) == 1 and len(j[0]) == 2, "JSON is a pair")
    r = Period()
    r.parseJSON(j[0])
    same(S, r, a, b, kind, "json")
    S.check(r.getText() == t, "same text from JSON")
    dup = p.duplicate()
    S.check(dup.getText() == t, "copy")
    dup.getStart().setYear(2001)
    S.check(p.getText() == t, "copy is independent")
    S.observe([t, j])


def fields(d):
    return (d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds(), bool(d.utc()), d.getTimezoneID(), d.isDateOnly())


def same(S, q, a, b, kind, what):
    S.check(fields(q.getStart()) == fields(a), what + ": start")
    S.check(q.getUseDuration() == (kind != "end"), what + ": form")
    if kind == "end":
        S.check(fields(q.getEnd()) == fields(b), what + ": end")
    else:
        S.check(q.getDuration().getTotalSeconds() == b.getTotalSeconds(), what + ": duration")


def make(S, p, kind):
    a, ta = near(S, p + "0")
    if kind == "end":
        b, tb = near(S, p + "1")
        S.assume(tb >= ta)
        return Period(start=a, end=b), ta, tb
    n = S.int(p + "n", 0, 86400)
    return Period(start=a, duration=Duration(duration=n)), ta, ta + n


def inside(S, kind):
    p, s, e = make(S, "p", kind)
    x, t = near(S, "x")
    i = bool(p.isDateWithinPeriod(x))
    b = bool(p.isDateBeforePeriod(x))
    a = bool(p.isDateAfterPeriod(x))
    S.check(i == (s <= t and t < e), "within: start included, end excluded")
    S.check(b == (t < s), "before")
    S.check(a == (t >= e), "after")
    S.observe([i, b, a])


def overlap(S, ka, kb):
    p, s, e = make(S, "p", ka)
    q, s2, e2 = make(S, "q", kb)
    o = bool(p.isPeriodOverlap(q))
    S.check(o == bool(q.isPeriodOverlap(p)), "symmetric")
    S.check(o == (s < e2 and s2 < e), "overlap exactly when each starts before the other ends")
    S.observe(o)


def order(S, ka, kb):
    p, s, e = make(S, "p", ka)
    q, s2, e2 = make(S, "q", kb)
    c = -1 if s < s2 else 1 if s > s2 else -1 if e < e2 else 1 if e > e2 else 0
    S.check((p == q) == (c == 0), "==")
    S.check((p != q) == (c != 0), "!=")
    S.check((p < q) == (c < 0), "<")
    S.check((p <= q) == (c <= 0), "<=")
    S.check((p > q) == (c > 0), ">")
    S.check((p >= q) == (c >= 0), ">=")
    if c == 0:
        S.check(hash(p) == hash(q), "equal periods hash alike")
    S.observe(c)


def between(a, b):
    return b.getPosixTime() - a.getPosixTime()


def clock(a, b):
    return ((b.getDay() - a.getDay()) * 24 + b.getHours() - a.getHours()) * 3600 + (b.getMonth() - a.getMonth()) * 31 * 86400


def zones():
    """a zone that changes from five to four hours behind UTC on 15 January 2000"""
    TimezoneDatabase.clearTimezoneDatabase()
    Calendar.parseText("\r\n".join([
        "BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x", "BEGIN:VTIMEZONE", "TZID:Q/Z",
        "BEGIN:STANDARD", "DTSTART:19900101T020000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0500", "END:STANDARD",
        "BEGIN:DAYLIGHT", "DTSTART:20000115T020000", "TZOFFSETFROM:-0500", "TZOFFSETTO:-0400", "END:DAYLIGHT",
        "END:VTIMEZONE", "END:VCALENDAR", ""]))


def moved(S, n):
    """a period put in other zones and forms, whatever it is asked in between"""
    kind = S.choice("kind", ["end", "duration"])
    day = S.int("day", 1, 27)
    hour = S.int("hour", 0, 23)
    long = S.int("long", 0, 30) * 3600
    a = DateTime(2000, 1, day, hour, 20, 0)
    b = DateTime(2000, 1, day, hour, 20, 0)
    b.offsetSeconds(long)
    zones()
    zone = None
    p = Period(start=a.duplicate(), end=b.duplicate()) if kind == "end" else Period(start=a.duplicate(), duration=Duration(duration=long))
    for i in range(n):
        how = S.choice("how%d" % i, ["end", "duration", "form", "zone", "utc"])
        if how == "end":
            p.getEnd()
        elif how == "duration":
            p.getDuration()
        elif how == "form":
            # (adding to a time is done on its clock, so lengths across a change of the zone depend on the form)
            S.assume(between(a, b) == clock(a, b))
            kind = "end" if kind == "duration" else "duration"
            p.setUseDuration(kind == "duration")
        elif how == "zone":
            zone = S.choice("zone%d" % i, [None, 3600, "Q/Z"])
            p.setTimezoneID(zone)
            a.setTimezoneID(zone)
            if kind == "end":
                # its ends keep their clock, which across a change of the zone is another length
                b.setTimezoneID(zone)
                long = between(a, b)
            else:
                b = a.duplicate()
                b.offsetSeconds(long)
        else:
            S.assume(zone is not None)
            S.assume(kind == "end" or between(a, b) == clock(a, b))
            p.adjustToUTC()
            a.adjustToUTC()
            b.adjustToUTC()
            zone = None
            # (in UTC there is no zone to be put in)
            S.check(p.getStart().utc() and p.getEnd().utc(), "a period adjusted to UTC is in UTC")
            break
    S.check(p.getUseDuration() == (kind == "duration"), "form")
    S.check(p.getDuration().getTotalSeconds() == long, "a period in another zone is as long")
    S.check(fields(p.getStart()) == fields(a) and fields(p.getEnd()) == fields(b), "a period in another zone starts and ends there")
    S.check(kind == "duration" or between(p.getStart(), p.getEnd()) == long, "its length is between its ends")
    S.check(p.getText() == a.getText() + "/" + (b.getText() if kind == "end" else Duration(duration=long).getText()), "and is written so")
    S.observe(p.getText())


def junk(S, prefix, lo, hi, alphabet):
    t = prefix + S.str("t", lo, hi, alphabet)
    try:
        p = Period.parseText(t)
    except ValueError:
        S.reached()
        S.observe("rejected")
        return
    out = p.getText()
    q = Period.parseText(out)
    S.check(q.getText() == out and q.getUseDuration() == p.getUseDuration() and q == p, "reads back")
    S.check("/" in t, "needs two parts")
    S.observe(out)


HARNESSES = [
    ("ends_end", ends, {"kind": "end", "lo": 2000, "hi": 2000, "feb": True}, {"bounds": "both ends any second of February and March 2000", "tier": "quickonly"}),
    ("ends_end_far", ends, {"kind": "end", "lo": 1899, "hi": 2101}, {"bounds": "both ends any second of 1899..2101", "tier": "thorough"}),
    ("ends_duration", ends, {"kind": "duration", "lo": 2000, "hi": 2000, "feb": True}, {"bounds": "start any second of February and March 2000, up to 40 days", "tier": "quickonly"}),
    ("ends_duration_far", ends, {"kind": "duration", "lo": 1899, "hi": 2101}, {"bounds": "start any second of 1899..2101, up to 40 days", "tier": "thorough"}),
    ("text_end_utc", text, {"kind": "end", "zone": "utc"}, {"bounds": "every start and end, years 1000..9999"}),
    ("text_end_floating", text, {"kind": "end", "zone": "floating"}, {"bounds": "every start and end, years 1000..9999"}),
    ("text_duration", text, {"kind": "duration", "zone": "utc"}, {"bounds": "every start, up to 99 days"}),
    ("inside_end", inside, {"kind": "end"}, {"bounds": "any seconds of January 2000"}),
    ("inside_duration", inside, {"kind": "duration"}, {"bounds": "any seconds of January 2000, up to a day long"}),
] + [("overlap_%s_%s" % (a, b), overlap, {"ka": a, "kb": b}, {"bounds": "any seconds of January 2000"}) for a, b in (("end", "end"), ("end", "duration"), ("duration", "duration"))] + [
    ("order_%s_%s" % (a, b), order, {"ka": a, "kb": b}, {"bounds": "any seconds of January 2000", "tier": "quick" if a == b == "end" else "thorough"}) for a, b in (("end", "end"), ("end", "duration"), ("duration", "duration"))] + [
    ("moved", moved, {"n": 3}, {"bounds": "three questions, switches of form or moves to floating, an offset, a zone that changes or UTC in any order, start in any hour of January 2000, up to 30 hours long", "tier": "quickonly"}),
    ("moved more", moved, {"n": 5}, {"bounds": "five questions, switches of form or moves to floating, an offset, a zone that changes or UTC in any order, start in any hour of January 2000, up to 30 hours long", "tier": "thorough"}),
    ("junk", junk, {"prefix": "20000131T000000Z", "lo": 0, "hi": 5, "alphabet": "/PTDZ1"}, {"bounds": "a start followed by up to 5 characters of /PTDZ1"}),
    ("junk_short", junk, {"prefix": "", "lo": 0, "hi": 3, "alphabet": "/P1"}, {"bounds": "up to 3 characters of /P1"}),
]
