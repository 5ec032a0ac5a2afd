# Expanding the events of a calendar over a window
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar


def stamp(kind, mins):
    """text of a time so many minutes after 26 February 2024"""
    d = mins // 1440
    day, month = (26 + d, 2)
    if day > 29:
        day, month = (day - 29, 3)
    t = "2024%02d%02d" % (month, day)
    if kind == "date":
        return t
    m = mins - d * 1440
    return t + "T%02d%02d00" % (m // 60, m % 60) + ("Z" if kind == "utc" else "")


def prop(name, kind, mins, more=""):
    return name + more + (";VALUE=DATE" if kind == "date" else "") + (";TZID=zone" if kind == "zone" else "") + ":" + stamp(kind, mins)


def minutes(x):
    """minutes after 26 February 2024, whatever the month"""
    n = {2: 0, 3: 29}[x.getMonth()] + x.getDay() - 26
    if x.isDateOnly():
        return n * 1440
    return n * 1440 + x.getHours() * 60 + x.getMinutes()


def moment(kind, mins):
    d = DateTime(2024, 2, 26, 0, 0, 0, tzid=Timezone(utc=True) if kind == "utc" else None)
    d.offsetMinutes(mins)
    return d


def length(S, name, kind, how):
    """minutes"""
    if how == "none":
        return 1440 if kind == "date" else 0
    if kind == "date":
        return 1440 * S.int(name, 1, 3)
    return 30 * S.int(name, 0, 60)


def ending(kind, how, start, n):
    if how == "none":
        return []
    if how == "end":
        return [prop("DTEND", kind, start + n)]
    if kind == "date":
        return ["DURATION:P%dD" % (n // 1440)]
    return ["DURATION:PT%dM" % n]


ZONE = ["BEGIN:VTIMEZONE", "TZID:zone", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0200", "TZOFFSETTO:+0200", "END:STANDARD", "END:VTIMEZONE"]


def build(events):
    lines = ["BEGIN:VCALENDAR", "VERSION:2.0"] + ZONE
    for e in events:
        lines += ["BEGIN:VEVENT"] + e + ["END:VEVENT"]
    return Calendar.parseText("\r\n".join(lines + ["END:VCALENDAR"]) + "\r\n")


def window(S, kind, few=False):
    if few:
        am, bm = S.choice("window", [(0, 8640), (1440, 2880), (2880 - 60, 5760), (1440, 1440 * 2 + 30)])
        if kind == "date":
            am, bm = am // 1440 * 1440, bm // 1440 * 1440
    else:
        am, bm = days(S, kind)
    # (a window in UTC is used for local times of a zone two hours ahead)
    shift = 120 if kind == "zone" else 0
    wk = {"zone": "utc", "date": "floating"}.get(kind, kind)
    return am, bm, Period(moment(wk, am - shift), moment(wk, bm - shift))


def days(S, kind):
    a = S.int("wa", 0, 5)
    b = S.int("wb", 0, 6)
    S.assume(a < b)
    am, bm = a * 1440, b * 1440
    if kind != "date":
        am = am + 60 * S.int("wah", 0, 1) * 11
        bm = bm + 30
    return am, bm


def expand(S, cal, period, allday):
    got = []
    cal.getVEvents(period, got, allday)
    for x, y in zip(got, got[1:]):
        s, t = x.getInstanceStart(), y.getInstanceStart()
        if allday:
            if s.isDateOnly() or t.isDateOnly():
                S.check(s.isDateOnly() and (not t.isDateOnly() or minutes(s) <= minutes(t)), "all day first, in order")
                continue
        S.check(minutes(s) <= minutes(t), "in order")
        if minutes(s) == minutes(t) and s.isDateOnly() == t.isDateOnly() and allday:
            S.check(minutes(x.getInstanceEnd()) >= minutes(y.getInstanceEnd()), "longer first")
        if minutes(s) == minutes(t) and not allday:
            S.check(s.isDateOnly() or not t.isDateOnly(), "all day first")
    return got


def facts(got):
    return sorted([(minutes(x.getInstanceStart()), minutes(x.getInstanceEnd()), x.recurring(), x.getOwner().getSummary()) for x in got])


def series(S, kind, how, n, override, rng, exclude, step, few=False):
    """a daily event with an excluded and an overridden instance"""
    TimezoneDatabase.clearTimezoneDatabase()
    start = 0 if kind == "date" else 60 * (10 if few else S.int("h", 8, 12))
    n = S.conc(S.int("n", 1, n))
    size = (2880 if kind == "date" else 90) if few else length(S, "len", kind, how)
    event = ["UID:a", "SUMMARY:master", prop("DTSTART", kind, start), "RRULE:FREQ=DAILY;INTERVAL=%d;COUNT=%d" % (step, n)] + ending(kind, how, start, size)
    rids = [start + 1440 * step * i for i in range(n)]
    gone = []
    if exclude:
        x = S.conc(S.int("x", 0, n))
        event.append(prop("EXDATE", kind, start + 1440 * step * x))
        gone.append(start + 1440 * step * x)
    events = [event]
    want = []
    am, bm, period = window(S, kind, few)
    o = None
    if override:
        o = S.conc(S.int("o", 0, n - 1))
        shift = 1440 * S.int("shift", 0, 2) if kind == "date" else 60 * S.int("shift", -8, 30)
        ohow = "duration" if few else S.choice("ohow", ["end", "duration"])
        osize = length(S, "olen", kind, ohow)
        at = rids[o] + shift
        events.append(["UID:a", "SUMMARY:slave", prop("RECURRENCE-ID", kind, rids[o], ";RANGE=" + rng if rng else ""), prop("DTSTART", kind, at)] + ending(kind, ohow, at, osize))
        if not few and S.choice("order", ["master first", "slave first"]) == "slave first":
            events = events[::-1]
        if at < bm and at + osize > am:
            want.append((at, at + osize, True, "slave"))
    for i in range(n):
        r = rids[i]
        if r in gone or i == o or r < am or r >= bm:
            continue
        if o is not None and (rng == "THISANDFUTURE" and i > o or rng == "THISANDPRIOR" and i < o):
            want.append((r + shift, r + shift + osize, True, "slave"))
        else:
            want.append((r, r + size, True, "master"))
    cal = build(events)
    got = expand(S, cal, period, few or S.choice("allday", [True, False]))
    S.check(facts(got) == sorted(want), "the instances")
    S.check(facts(expand(S, cal, period, True)) == sorted(want), "and again")
    TimezoneDatabase.clearTimezoneDatabase()


def singles(S, kinds, how):
    """events that do not recur: those that overlap the window"""
    TimezoneDatabase.clearTimezoneDatabase()
    events = []
    want = []
    am, bm, period = window(S, "date" if "date" in kinds else "floating")
    for i, kind in enumerate(kinds):
        start = 1440 * S.int("d%d" % i, 0, 4)
        if kind != "date":
            start = start + 60 * S.int("h%d" % i, 10, 12)
        size = length(S, "len%d" % i, kind, how)
        events.append(["UID:u%d" % i, "SUMMARY:e%d" % i, prop("DTSTART", kind, start)] + ending(kind, how, start, size))
        if start < bm and start + size > am:
            want.append((start, start + size, False, "e%d" % i))
    cal = build(events)
    allday = S.choice("allday", [True, False])
    S.check(facts(expand(S, cal, period, allday)) == sorted(want), "those that overlap")


def added(S, kind, form, rule, excluded, few=False):
    """an instance added as a period has its own length"""
    TimezoneDatabase.clearTimezoneDatabase()
    n = S.conc(S.int("n", 1, 3)) if rule else 1
    start = 600
    event = ["UID:a", "SUMMARY:master", prop("DTSTART", kind, start), prop("DTEND", kind, start + 60)]
    if rule:
        event.append("RRULE:FREQ=DAILY;COUNT=%d" % n)
    am, bm, period = window(S, kind, excluded or few)
    p = 30 * S.int("p", 1, 4 * 48)
    S.assume((p - start) % 1440 != 0)
    size = 30 * S.int("plen", 1, 60)
    length_text = stamp(kind, p + size) if form == "end" else "PT%dM" % size
    more = S.choice("more", [False, True])
    # (the other one is an instance of the usual length)
    event.append(prop("RDATE", kind, p, ";VALUE=PERIOD") + "/" + length_text)
    if more:
        event.append(prop("RDATE", kind, 120))
        S.assume(p != 120)
    out = S.choice("out", ["", "date", "other", "slave"]) if excluded else ""
    events = [event]
    want = []
    if out == "date":
        event.append(prop("EXDATE", kind, p))
    elif out == "other":
        event.append(prop("EXDATE", kind, p + 1))
    elif out == "slave":
        q = 60 * S.int("q", 1, 90)
        events.append(["UID:a", "SUMMARY:slave", prop("RECURRENCE-ID", kind, p), prop("DTSTART", kind, q), "DURATION:PT45M"])
        if q < bm and q + 45 > am:
            want.append((q, q + 45, True, "slave"))
    if out not in ("date", "slave") and p < bm and p + size > am:
        want.append((p, p + size, True, "master"))
    for r in [start + 1440 * i for i in range(n)] + ([120] if more else []):
        if am <= r < bm:
            want.append((r, r + 60, True, "master"))
    cal = build(events)
    S.check(facts(expand(S, cal, period, True)) == sorted(want), "the instances")
    S.check(facts(expand(S, Calendar.parseText(cal.getText()), period, True)) == sorted(want), "the same from its text")
    TimezoneDatabase.clearTimezoneDatabase()


def two_ranges(S, rng):
    """later THISANDFUTURE overrides take over from earlier ones, earlier THISANDPRIOR overrides from later ones"""
    n = 5
    a = S.conc(S.int("a", 0, 3))
    b = S.conc(S.int("b", a + 1, 4))
    sa, sb = S.int("sa", -6, 6) + S.choice("far", [0, 40]), S.int("sb", -6, 6)
    start = 600
    events = [["UID:a", "SUMMARY:master", prop("DTSTART", "utc", start), prop("DTEND", "utc", start + 30), "RRULE:FREQ=DAILY;COUNT=%d" % n]]
    for name, k, s in (("first", a, sa), ("second", b, sb)):
        events.append(["UID:a", "SUMMARY:" + name, prop("RECURRENCE-ID", "utc", start + 1440 * k, ";RANGE=" + rng), prop("DTSTART", "utc", start + 1440 * k + 60 * s), "DURATION:PT1H"])
    if S.choice("order", ["first", "second"]) == "second":
        events = [events[2], events[0], events[1]]
    want = []
    for i in range(n):
        r = start + 1440 * i
        if (i < a) if rng == "THISANDFUTURE" else (i > b):
            want.append((r, r + 30, True, "master"))
        elif (i < b) if rng == "THISANDFUTURE" else (i <= a):
            want.append((r + 60 * sa, r + 60 * sa + 60, True, "first"))
        else:
            want.append((r + 60 * sb, r + 60 * sb + 60, True, "second"))
    got = expand(S, build(events), Period(moment("utc", 0), moment("utc", 1440 * 7)), True)
    S.check(facts(got) == sorted(want), "each instance follows the nearest override before (after) it")


# midnight to midnight in the minutes of the zone, in UTC: two hours ahead until 02:00 on 28 February, then one or three
BEFORE = 120
TURN = 2 * 1440 + 120


def across(S, how, days):
    """an event in a zone whose offset changes: instances keep their clock and last as long as the event"""
    TimezoneDatabase.clearTimezoneDatabase()
    after = S.choice("after", [60, 180])

    def utc(mins):
        # (clock times that do not exist or happen twice are not used)
        return mins - (BEFORE if mins < TURN else after)

    def there(mins):
        return mins < TURN - 60 or mins >= TURN + 60

    start = 1440 * S.choice("day", days) + 60 * S.int("start", 0, 23)
    end = start + 30 * S.int("size", 0, 60)
    n = 3
    S.assume(there(end))
    for i in range(n):
        S.assume(there(start + 1440 * i))
    size = utc(end) - utc(start)
    event = ["UID:a", "SUMMARY:master", prop("DTSTART", "zone", start), prop("DTEND", "zone", end), "RRULE:FREQ=DAILY;COUNT=%d" % n]
    o = None
    events = [event]
    if how != "none":
        o = S.conc(S.int("o", 1, 2))
        shift = 60 * S.choice("shift", [-3, 5])
        osize = 60 * S.choice("osize", [1, 30])
        ostart = start + 1440 * o + shift
        S.assume(there(ostart) and there(ostart + osize))
        osize = utc(ostart + osize) - utc(ostart)
        events.append(["UID:a", "SUMMARY:slave", prop("RECURRENCE-ID", "zone", start + 1440 * o, ";RANGE=" + how if how != "one" else ""), prop("DTSTART", "zone", ostart), prop("DTEND", "zone", ostart + (osize if (ostart < TURN) == (ostart + osize < TURN) else 0))])
        S.assume((ostart < TURN) == (ostart + osize < TURN) and (start + 1440 * o < TURN) == (ostart < TURN))
    lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "BEGIN:VTIMEZONE", "TZID:zone", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0200", "TZOFFSETTO:+0200", "END:STANDARD",
             "BEGIN:DAYLIGHT", "DTSTART:20240228T020000", "TZOFFSETFROM:+0200", "TZOFFSETTO:+0%d00" % (after // 60), "END:DAYLIGHT", "END:VTIMEZONE"]
    for e in events:
        lines += ["BEGIN:VEVENT"] + e + ["END:VEVENT"]
    cal = Calendar.parseText("\r\n".join(lines + ["END:VCALENDAR"]) + "\r\n")
    want = []
    for i in range(n):
        r = start + 1440 * i
        if i == o:
            want.append((utc(ostart), utc(ostart) + osize, "slave"))
        elif how == "THISANDFUTURE" and i > o:
            S.assume(there(r + shift))
            want.append((utc(r + shift), utc(r + shift) + osize, "slave"))
        else:
            want.append((utc(r), utc(r) + size, "master"))
    for x in want:
        # the second of the hours that happen twice cannot be told
        S.assume(after == 180 or x[1] < TURN - BEFORE or x[1] >= TURN - BEFORE + 60)
    got = []
    cal.getVEvents(Period(moment("utc", -1440), moment("utc", 1440 * 12)), got, True)
    zero = moment("utc", 0).getPosixTime()
    S.check(sorted([((x.getInstanceStart().getPosixTime() - zero) // 60, (x.getInstanceEnd().getPosixTime() - zero) // 60, x.getOwner().getSummary()) for x in got]) == sorted(want),
            "each instance keeps the clock of the start and lasts exactly as long as the event")
    S.check(all([x.getInstanceStart().getTimezoneID() == "zone" and x.getInstanceEnd().getTimezoneID() == "zone" for x in got]), "in the zone of the event")
    TimezoneDatabase.clearTimezoneDatabase()


def others(S):
    """an override affects the event with its UID only"""
    ua = S.str("ua", 1, 2, "ab")
    ub = S.str("ub", 1, 2, "ab")
    S.assume(ua != ub)
    uo = S.choice("uo", [ua, ub, "c"])
    k = S.conc(S.int("k", 0, 2))
    events = []
    want = []
    for name, u in (("x", ua), ("y", ub)):
        events.append(["UID:" + u, "SUMMARY:" + name, prop("DTSTART", "utc", 600), prop("DTEND", "utc", 630), "RRULE:FREQ=DAILY;COUNT=3"])
        for i in range(3):
            if u != uo or i != k:
                want.append((600 + 1440 * i, 630 + 1440 * i, True, name))
    events.append(["UID:" + uo, "SUMMARY:o", prop("RECURRENCE-ID", "utc", 600 + 1440 * k), prop("DTSTART", "utc", 700 + 1440 * k), "DURATION:PT1H"])
    want.append((700 + 1440 * k, 760 + 1440 * k, True, "o"))
    got = expand(S, build(events), Period(moment("utc", 0), moment("utc", 1440 * 4)), True)
    S.check(facts(got) == sorted(want), "only instances of the same UID are replaced")


W = "; windows of every start and end day over six days"
HARNESSES = []
for _k in ("floating", "utc", "date", "zone"):
    for _h in ("end", "duration", "none"):
        HARNESSES.append(("plain_%s_%s" % (_k, _h), series, {"kind": _k, "how": _h, "n": 3, "override": False, "rng": None, "exclude": False, "step": 1}, {"bounds": "1..3 daily instances, symbolic time and length" + W}))
for _k in ("utc", "date", "zone"):
    HARNESSES.append(("excluded_" + _k, series, {"kind": _k, "how": "end", "n": 3, "override": False, "rng": None, "exclude": True, "step": 1}, {"bounds": "1..3 instances, any one or none excluded" + W}))
    for _r, _n in (("", "override_"), ("THISANDFUTURE", "future_")):
        HARNESSES.append((_n + _k, series, {"kind": _k, "how": "end", "n": 3, "override": True, "rng": _r, "exclude": False, "step": 1, "few": _k != "date"}, {"bounds": "1..3 instances, any one (future: and all later) moved by any number of hours or days and given any length, four windows"}))
        if _k == "utc":
            HARNESSES.append((_n + "wide", series, {"kind": _k, "how": "duration", "n": 2, "override": True, "rng": _r, "exclude": False, "step": 2}, {"bounds": "1..2 instances, any one (future: and all later) moved by any number of hours or days and given any length" + W, "tier": "thorough"}))
HARNESSES += [
    ("prior_utc", series, {"kind": "utc", "how": "end", "n": 2, "override": True, "rng": "THISANDPRIOR", "exclude": True, "step": 1, "few": True}, {"bounds": "1..2 instances, override of one and all earlier, four windows"}),
    ("across", across, {"how": "none", "days": [0, 2]}, {"bounds": "events from any hour of two days, up to 30 hours long, in a zone that goes one hour on or back on the third day, three daily instances"}),
    ("across_one", across, {"how": "one", "days": [1]}, {"bounds": "the same from any hour of one day, with one of the instances moved"}),
    ("across_future", across, {"how": "THISANDFUTURE", "days": [0]}, {"bounds": "the same from any hour of one day, with an instance and all later ones moved", "tier": "thorough"}),
    ("two_prior", two_ranges, {"rng": "THISANDPRIOR"}, {"bounds": "5 instances, any two THISANDPRIOR overrides with any shifts of -6..6 hours, the first also of 34..46"}),
    ("two_future", two_ranges, {"rng": "THISANDFUTURE"}, {"bounds": "5 instances, any two THISANDFUTURE overrides with any shifts of -6..6 hours, the first also of 34..46"}),
    ("added_utc", added, {"kind": "utc", "form": "end", "rule": False, "excluded": False}, {"bounds": "a period at any half hour of four days, of up to 30 hours" + W}),
    ("added_zone", added, {"kind": "zone", "form": "duration", "rule": True, "excluded": False, "few": True}, {"bounds": "a period at any half hour of four days, of up to 30 hours, 1..3 daily instances, four windows"}),
    ("added_out_floating", added, {"kind": "floating", "form": "end", "rule": True, "excluded": True}, {"bounds": "the same period excluded or overridden, four windows"}),
    ("added_out_utc", added, {"kind": "utc", "form": "duration", "rule": False, "excluded": True}, {"bounds": "the same period excluded or overridden, four windows"}),
    ("others", others, {}, {"bounds": "two events with any different UIDs of 1..2 characters, override of any instance of one or neither"}),
    ("singles_end", singles, {"kinds": ["floating", "date"], "how": "end"}, {"bounds": "a timed and an all day event anywhere in five days" + W}),
    ("singles_duration", singles, {"kinds": ["floating"], "how": "duration"}, {"bounds": "a timed event" + W}),
    ("singles_two", singles, {"kinds": ["floating", "floating"], "how": "duration"}, {"bounds": "two timed events" + W, "tier": "thorough"}),
    ("singles_none", singles, {"kinds": ["date", "floating"], "how": "none"}, {"bounds": "events without an end" + W}),
]
ASSUMPTIONS = ["instances are listed when the time the rule gives them lies in the window; a changed offset of the zone is tried with events that have an end, whose ends are not in the second of the hours that happen twice", "windows for all day events start and end at midnight (with others, an all day event on the day of the end of the window counts as after it)"]
