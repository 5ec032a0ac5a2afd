ASSUMPTIONS = ["an alarm that is 24 hours old is skipped, as the code documents; the present is a stand-in for the clock"]
# When alarms go off
import pycalendar.datetime as datetimes
from pycalendar.datetime import DateTime
from pycalendar.icalendar import definitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase

DAY = 1440


class Moment(object):
    def __init__(self, mins):
        d = mins // DAY
        m = mins - d * DAY
        self.tm_year = 2024
        self.tm_mon = 3
        self.tm_mday = d + 1
        self.tm_hour = m // 60
        self.tm_min = m % 60
        self.tm_sec = 0


class Clock(object):
    def __init__(self):
        self.now = 0

    def time(self):
        return 1

    def gmtime(self, t):
        return Moment(self.now)


clock = Clock()
datetimes.time = clock


def text(mins):
    """UTC time so many minutes after 1 March 2024"""
    d = mins // DAY
    m = mins - d * DAY
    return "202403%02dT%02d%02d00Z" % (d + 1, m // 60, m % 60)


def build(S, type, most, few=False, after=None):
    """an event with an alarm; gives the alarm, its first time, repeats and interval in minutes"""
    if few:
        start = 8 * DAY + 411
        long = 1000
    else:
        start = 8 * DAY + S.int("start", 0, 3) * 411
        long = S.int("long", 0, 2) * 1000
    lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x", "BEGIN:" + type, "UID:u", "DTSTART:" + text(start), ("DUE:" if type == "VTODO" else "DTEND:") + text(start + long), "BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:d"]
    if few:
        by = S.choice("by", [-5, 45])
        how = S.choice("how", ["absolute", "start", "end"])
        first = start + by + (long if how == "end" else 0)
        if how == "absolute":
            lines.append("TRIGGER;VALUE=DATE-TIME:" + text(first))
        else:
            lines.append("TRIGGER;RELATED=%s:%sPT%dM" % (how.upper(), "-" if by < 0 else "", abs(by)))
    elif S.bool("absolute"):
        first = start - S.int("before", -300, 300)
        lines.append("TRIGGER;VALUE=DATE-TIME:" + text(first))
    else:
        by = S.int("by", -90, 90)
        end = S.bool("end")
        lines.append("TRIGGER" + (";RELATED=END" if end else "") + (":PT%dM" % by if by >= 0 else ":-PT%dM" % -by))
        first = start + by + (long if end else 0)
    n = S.conc(S.int("repeats", 0, most))
    interval = 0
    if n:
        interval = after if after is not None else S.choice("interval", [7, 600, 2000]) if few else S.int("interval", 1, 40) * S.choice("unit", [1, 30])
        lines.extend(["REPEAT:%d" % n, "DURATION:PT%dM" % interval])
    return lines, first, n, interval


def finish(lines, type):
    TimezoneDatabase.clearTimezoneDatabase()
    cal = Calendar.parseText("\r\n".join(lines + ["END:VALARM", "END:" + type, "END:VCALENDAR"]) + "\r\n")
    return [c for c in cal.getComponents() if c.getType() == type][0].getComponents()[0]


def first(S, type):
    lines, at, n, interval = build(S, type, 0)
    a = finish(lines, type)
    dt = DateTime()
    a.getFirstTrigger(dt)
    S.check(dt.getText() == text(at), "an alarm is first due at its time, or that long after the start or end of what it is in")


def upcoming(S, type, most):
    """the time an alarm is due next, as of now"""
    lines, at, n, interval = build(S, type, most, True)
    clock.now = 8 * DAY + S.int("now", -3 * DAY, 5 * DAY)
    # which of its times it last went off at, if any
    last = S.conc(S.int("last", -1, n))
    if last >= 0:
        lines.append("X-MULBERRY-LAST-TRIGGER:" + text(at + last * interval))
        S.assume(clock.now >= at + last * interval)
    a = finish(lines, type)
    dt = DateTime(2000, 1, 1)
    a.getNextTrigger(dt)
    # the latest of its times that has passed, or the first
    i = 0
    while i < n and at + (i + 1) * interval <= clock.now:
        i += 1
    if i == last or clock.now - (at + i * interval) > DAY:
        i += 1
    if i > n:
        S.check(a.getAlarmStatus() == definitions.eAlarm_Status_Completed, "an alarm none of whose times is left is completed")
    else:
        S.check(a.getAlarmStatus() == definitions.eAlarm_Status_Pending, "an alarm with a time left is pending")
        S.check(dt.getText() == text(at + i * interval), "the next time of an alarm is the latest that has passed, unless it went off then or that is more than a day ago, and then the one after")


def running(S, type, most):
    """an alarm goes off at each of its times and then no more"""
    lines, at, n, interval = build(S, type, most, True, S.int("after", 1, 2000))
    clock.now = at
    a = finish(lines, type)
    dt = DateTime()
    a.getNextTrigger(dt)
    for i in range(n + 1):
        S.check(dt.getText() == text(at + i * interval), "an alarm repeats after its interval")
        again = a.alarmTriggered(dt)
        S.check(again == (i < n), "an alarm goes off once and as often again as it repeats")
        S.check(a.getAlarmStatus() == (definitions.eAlarm_Status_Pending if i < n else definitions.eAlarm_Status_Completed), "an alarm is pending until the last time")
        lasts = [p.getText() for p in a.getProperties("X-MULBERRY-LAST-TRIGGER")]
        S.observe(lasts[0])
        S.check(lasts == ["X-MULBERRY-LAST-TRIGGER:" + text(at + i * interval) + "\r\n"], "an alarm notes when it went off last")


HARNESSES = [
    ("first", first, {"type": "VEVENT"}, {"bounds": "events of four start times and three lengths, any absolute or relative trigger within minutes", "tier": "quick"}),
    ("next", upcoming, {"type": "VEVENT", "most": 2}, {"bounds": "up to 2 repeats after 7, 600 or 2000 minutes, now at every minute of eight days", "tier": "quick"}),
    ("next to-dos", upcoming, {"type": "VTODO", "most": 1}, {"bounds": "up to 1 repeat after 7, 600 or 2000 minutes, now at every minute of eight days", "tier": "quick"}),
    ("next more", upcoming, {"type": "VEVENT", "most": 5}, {"bounds": "up to 5 repeats after 7, 600 or 2000 minutes, now at every minute of eight days", "tier": "thorough"}),
    ("running", running, {"type": "VEVENT", "most": 2}, {"bounds": "up to 2 repeats after 1 to 2000 minutes", "tier": "quick"}),
    ("running more", running, {"type": "VTODO", "most": 4}, {"bounds": "up to 4 repeats after 1 to 2000 minutes", "tier": "thorough"}),
]
