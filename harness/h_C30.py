# Busy time: of free-busy components and of calendars
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.freebusy import FreeBusy

TYPES = {"": FreeBusy.BUSY, "BUSY": FreeBusy.BUSY, "BUSY-UNAVAILABLE": FreeBusy.BUSYUNAVAILABLE, "BUSY-TENTATIVE": FreeBusy.BUSYTENTATIVE, "X-OTHER": FreeBusy.BUSY, "FREE": None,
         "free": None, "busy-tentative": FreeBusy.BUSYTENTATIVE}


def moment(mins, kind="utc"):
    d = DateTime(2024, 2, 26, 0, 0, 0, tzid=Timezone(utc=True) if kind == "utc" else None)
    d.offsetMinutes(mins)
    return d


def stamp(mins):
    d = mins // 1440
    m = mins - d * 1440
    return "202402%02dT%02d%02d00Z" % (26 + d, m // 60, m % 60)


def minutes(x):
    return (x.getDay() - 26) * 1440 + x.getHours() * 60 + x.getMinutes()


def wrap(lines):
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"] + lines + ["END:VCALENDAR", ""])


def period_text(a, n):
    """(both ways of giving a period)"""
    if a[1] % 2 == 0:
        return stamp(a[0]) + "/" + stamp(a[0] + n)
    return stamp(a[0]) + "/PT%dM" % n


def busy(got):
    return [(minutes(f.getPeriod().getStart()), minutes(f.getPeriod().getEnd()), f.getType()) for f in got]


def component(S, types, nprops, ends, wide, two=None):
    """a free-busy component: its start and end, busy times in order, and when it matters to a window"""
    TimezoneDatabase.clearTimezoneDatabase()
    lines = ["BEGIN:VFREEBUSY", "UID:a", "DTSTAMP:20240101T000000Z"]
    start = 720 if S.bool("hasstart") else None
    end = None
    how = S.choice("end", ends)
    if start is not None:
        lines.append("DTSTART:" + stamp(start))
        if how == "end":
            end = 1440 + 60 * S.int("endh", 0, 20)
            lines.append("DTEND:" + stamp(end))
        elif how == "duration":
            end = start + 600
            lines.append("DURATION:PT600M")
    else:
        S.assume(how == "none")
    want = []
    if two is None:
        two = S.bool("two")
    for k in range(nprops):
        t = S.choice("type%d" % k, types)
        a = 60 * S.int("a%d" % k, 0, wide)
        n = 45 + 30 * k
        text = period_text((a, k), n)
        items = [(a, a + n)]
        if k == 0 and two:
            text += "," + period_text((1500, 9), 60)
            items.append((1500, 1560))
        lines.append("FREEBUSY" + (";FBTYPE=" + t if t else "") + ":" + text)
        if TYPES[t] is not None:
            want += [(x, y, TYPES[t]) for x, y in items]
    lines.append("END:VFREEBUSY")
    cal = Calendar.parseText(wrap(lines))
    vfb = cal.getComponents("VFREEBUSY")[0]
    text = str(cal)
    S.check(vfb.hasStart() == (start is not None), "has a start")
    if start is not None:
        S.check(minutes(vfb.getStart()) == start, "start")
    S.check(vfb.hasEnd() == (how == "end"), "has an end")
    S.check(vfb.useDuration() == (how == "duration"), "has a duration")
    if end is not None:
        S.check(minutes(vfb.getEnd()) == end, "end")
    wa = 60 * S.int("wa", 0, 40)
    window = Period(moment(wa), moment(wa + 30))
    got = []
    vfb.expandPeriodComp(window, got)
    times = []
    vfb.expandPeriodFB(window, times)
    if not want:
        S.check(got == [] and times == [], "no busy time")
    else:
        lo = start if start is not None else min([w[0] for w in want])
        hi = end if end is not None else max([w[1] for w in want])
        hit = lo < wa + 30 and hi > wa
        S.check((len(got) == 1) == hit, "in the window")
        if hit:
            S.check(got[0] is vfb, "the component")
            S.check(sorted(busy(times)) == sorted(want), "busy times")
            b = busy(times)
            for x, y in zip(b, b[1:]):
                S.check(x[0] <= y[0], "in order")
            times[0].setType(FreeBusy.FREE)
            times[0].getPeriod().getStart().offsetDay(1)
            more = []
            vfb.duplicate(cal).expandPeriodFB(window, more)
            S.check(sorted(busy(more)) == sorted(want), "the same from a copy")
            more = []
            vfb.expandPeriodFB(window, more)
            S.check(sorted(busy(more)) == sorted(want), "what was given away is not shared")
        else:
            S.check(times == [], "no busy time in the window")
        listed = []
        cal.getVFreeBusyList(window, listed)
        S.check(len(listed) == (1 if hit else 0), "listed by the calendar")
    S.check(str(cal) == text, "nothing changed")


def edited(S, ops):
    """after an edit the component answers as its new text does"""
    TimezoneDatabase.clearTimezoneDatabase()
    cal = Calendar.parseText(wrap(["BEGIN:VFREEBUSY", "UID:a", "DTSTAMP:20240101T000000Z", "DTSTART:" + stamp(0), "DTEND:" + stamp(1440), "FREEBUSY:" + stamp(60) + "/PT30M", "END:VFREEBUSY"]))
    vfb = cal.getComponents("VFREEBUSY")[0]
    a = 60 * S.int("a", 0, 30)
    n = S.int("n", 1, 20)
    wa = 60 * S.int("wa", 0, 40)
    window = Period(moment(wa), moment(wa + 30))
    if S.bool("asked"):
        vfb.expandPeriodComp(window, [])
    for k in range(2):
        op = S.choice("op%d" % k, ops)
        if op == "end":
            vfb.editTimingStartEnd(moment(a), moment(a + 60 * n))
            lo, hi = a, a + 60 * n
        elif op == "duration":
            vfb.editTimingStartDuration(moment(a), Duration(duration=3600 * n))
            lo, hi = a, a + 60 * n
        elif op == "none":
            vfb.editTiming()
            lo, hi = 60, 90
        else:
            vfb = vfb.duplicate(cal)
            if k == 0:
                lo, hi = 0, 1440
    S.check(vfb.hasStart() == (lo != 60 or hi != 90 or vfb.countProperty("DTSTART") == 1), "start or not")
    got = []
    vfb.expandPeriodComp(window, got)
    S.check((len(got) == 1) == (lo < wa + 30 and hi > wa), "in the window")
    other = Calendar()
    other.addComponent(vfb.duplicate(other))
    again = Calendar.parseText(str(other)).getComponents("VFREEBUSY")[0]
    S.check(again == vfb, "same text")
    more = []
    again.expandPeriodComp(window, more)
    S.check(len(more) == len(got), "same answer")
    S.check(again.hasStart() == vfb.hasStart() and again.hasEnd() == vfb.hasEnd() and again.useDuration() == vfb.useDuration(), "the same kind")
    if vfb.hasStart():
        S.check(again.getStart() == vfb.getStart() and again.getEnd() == vfb.getEnd(), "the same times")


def calendar(S, statuses, transps, window):
    """the busy time of a calendar: its events that count, and what its free-busy components say"""
    TimezoneDatabase.clearTimezoneDatabase()
    lines = []
    want = []
    wa = 1440 + 60 * S.int("wa", 0, window)
    wb = wa + 1440
    for k in range(2):
        st = S.choice("status%d" % k, statuses)
        tr = S.choice("transp%d" % k, transps)
        a = 1440 + 60 * S.int("a%d" % k, 0, 23)
        n = 90
        lines += ["BEGIN:VEVENT", "UID:%d" % k, "DTSTAMP:20240101T000000Z", "DTSTART:" + stamp(a), "DURATION:PT90M"]
        if st:
            lines.append("STATUS:" + st)
        if tr:
            lines.append("TRANSP:" + tr)
        starts = [a]
        if k == 0 and S.bool("daily"):
            lines.append("RRULE:FREQ=DAILY;COUNT=2")
            # (an instance of a recurring event counts if it starts in the window)
            starts = [x for x in [a, a + 1440] if wa <= x and x < wb]
        else:
            starts = [x for x in [a] if x < wb and x + n > wa]
        lines.append("END:VEVENT")
        if st.upper() != "CANCELLED" and tr.upper() != "TRANSPARENT":
            want += [(x, x + n, FreeBusy.BUSYTENTATIVE if st.upper() == "TENTATIVE" else FreeBusy.BUSY) for x in starts]
    if S.bool("allday"):
        lines += ["BEGIN:VEVENT", "UID:d", "DTSTAMP:20240101T000000Z", "DTSTART;VALUE=DATE:20240227", "DURATION:P2D", "END:VEVENT"]
    if S.bool("vfb"):
        lines += ["BEGIN:VFREEBUSY", "UID:f", "DTSTAMP:20240101T000000Z", "FREEBUSY;FBTYPE=BUSY-UNAVAILABLE:" + stamp(1500) + "/PT2H", "END:VFREEBUSY"]
        if 1500 < wb and 1620 > wa:
            want.append((1500, 1620, FreeBusy.BUSYUNAVAILABLE))
    cal = Calendar.parseText(wrap(lines))
    text = str(cal)
    got = []
    cal.getFreeBusy(Period(moment(wa), moment(wb)), got)
    S.check(sorted(busy(got)) == sorted(want), "busy times")
    S.check(str(cal) == text, "nothing changed")


ALLT = sorted(TYPES)
HARNESSES = [
    ("component_types", component, {"types": ALLT, "nprops": 1, "ends": ["none", "end", "duration"], "wide": 30}, {"bounds": "one property of any type, any hour of 30", "tier": "quick"}),
    ("component_two", component, {"types": ["", "BUSY-TENTATIVE", "FREE"], "nprops": 2, "ends": ["none"], "wide": 30, "two": False}, {"bounds": "two properties", "tier": "quick"}),
    ("component_many", component, {"types": ["", "FREE"], "nprops": 4, "ends": ["none"], "wide": 12, "two": False}, {"bounds": "four properties", "tier": "quick"}),
    ("edited", edited, {"ops": ["end", "duration", "none", "copy"]}, {"bounds": "any two edits", "tier": "quick"}),
    ("calendar", calendar, {"statuses": ["", "CONFIRMED", "TENTATIVE", "cancelled"], "transps": ["", "TRANSPARENT"], "window": 3}, {"bounds": "two events, an all-day event and a free-busy component", "tier": "quick"}),
    ("component_deep", component, {"types": ALLT, "nprops": 2, "ends": ["none", "end", "duration"], "wide": 40}, {"bounds": "two properties of any type, any hour of 40", "tier": "thorough"}),
    ("calendar_deep", calendar, {"statuses": ["", "CONFIRMED", "TENTATIVE", "cancelled", "Confirmed"], "transps": ["", "OPAQUE", "TRANSPARENT", "transparent"], "window": 23}, {"bounds": "the same, 24 windows", "tier": "thorough"}),
]
