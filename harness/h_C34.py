# What people are shown: dates, times, zones, and where a to-do stands
import pycalendar.datetime as datetime_module
from pycalendar.datetime import DateTime
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.vtodo import VToDo
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
import refcal

DAYS = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DATE_FORMS = {
    "full": DateTime.FULLDATE, "abbrev": DateTime.ABBREVDATE, "numeric": DateTime.NUMERICDATE,
    "fullno": DateTime.FULLDATENOYEAR, "abbrevno": DateTime.ABBREVDATENOYEAR, "numericno": DateTime.NUMERICDATENOYEAR,
}


def two(n):
    return "%02d" % n


def day_text(form, y, m, d):
    if form[:7] == "numeric":
        t = "%d/%d" % (m, d)
        return t if form == "numericno" else t + "/%d" % y
    day = DAYS[refcal.dow(y, m, d)]
    month = MONTHS[m - 1]
    if form[:6] == "abbrev":
        day, month = day[:3], month[:3]
    t = "%s, %s %d" % (day, month, d)
    return t if form[-2:] == "no" else t + ", %d" % y


def time_text(h, mi, s, seconds, ampm):
    t = ":" + two(mi)
    if seconds:
        t += ":" + two(s)
    if not ampm:
        return two(h) + t
    return "%d" % ((h + 11) % 12 + 1) + t + (" AM" if h < 12 else " PM")


def dates(S, forms, years):
    form = S.choice("form", forms)
    y, m = S.int("y", years[0], years[1]), S.int("m", 1, 12)
    d = S.int("d", 1, 31)
    S.assume(d <= refcal.mlen(y, m))
    kind = S.choice("kind", ["date", "float", "utc"])
    if kind == "date":
        dt = DateTime(y, m, d)
    else:
        dt = DateTime(y, m, d, S.int("h", 0, 23), 0, 0, tzid=Timezone(utc=True) if kind == "utc" else None)
    got = dt.getLocaleDate(DATE_FORMS[form])
    S.check(got == day_text(form, y, m, d), "the text of the date is another: " + form)
    S.observe(got)


def times(S, zones):
    ampm, seconds = S.bool("ampm"), S.bool("seconds")
    zone = S.choice("zone", zones)
    h, mi, s = S.int("h", 0, 23), S.int("mi", 0, 59), S.int("s", 0, 59)
    want = time_text(h, mi, s, seconds, ampm)
    tz = None
    if zone == "utc":
        tz = Timezone(utc=True)
        want += " (UTC)"
    elif zone == "offset":
        # as in +05:30
        n = S.int("off", -14 * 60, 14 * 60)
        tz = Timezone(utc=False, tzid=60 * n)
        want += " " + ("-" if n < 0 else "+") + two(abs(n) // 60) + two(abs(n) % 60)
    dt = DateTime(2024, 2, S.int("d", 1, 29), h, mi, s, tzid=tz)
    got = dt.getTime(seconds, ampm, zone in ("utc", "offset"))
    S.check(got == want, "the text of the time is another: " + zone)
    both = dt.getLocaleDateTime(DateTime.NUMERICDATE, seconds, ampm, zone in ("utc", "offset"))
    S.check(both == dt.getLocaleDate(DateTime.NUMERICDATE) + " " + want, "the text of date and time is not that of both")
    S.observe(got)


def offset_text(n):
    a = abs(n)
    return ("-" if n < 0 else "+") + two(a // 60) + two(a % 60)


def zone_text(tzid, parts):
    lines = ["BEGIN:VTIMEZONE", "TZID:" + tzid]
    for kind, start, frm, to, name, rule in parts:
        lines += ["BEGIN:" + kind, "DTSTART:" + start, "TZOFFSETFROM:" + offset_text(frm), "TZOFFSETTO:" + offset_text(to)]
        if name:
            lines.append("TZNAME:" + name)
        if rule:
            lines.append("RRULE:" + rule)
        lines.append("END:" + kind)
    return lines + ["END:VTIMEZONE"]


def zone_names(S, named, offsets, recurring):
    """the zone in force at a moment, by its name or by its offset"""
    TimezoneDatabase.clearTimezoneDatabase()
    std = S.int("std", offsets[0], offsets[1])
    std_name, dst_name = ("ST", "DT") if named else (None, None)
    if S.bool("mixed"):
        dst_name = None if named else "DT"
    flip = S.bool("flip")
    if recurring:
        parts = [("STANDARD", "20001101T020000", std + 60, std, std_name, "FREQ=YEARLY;BYMONTH=11;BYMONTHDAY=1"),
                 ("DAYLIGHT", "20000401T020000", std, std + 60, dst_name, "FREQ=YEARLY;BYMONTH=4;BYMONTHDAY=1")]
    else:
        parts = [("STANDARD", "20001101T020000", std + 60, std, std_name, None),
                 ("DAYLIGHT", "20010401T020000", std, std + 60, dst_name, None)]
    if flip:
        parts = [parts[1], parts[0]]
    Calendar.parseText("\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"] + zone_text("Z/A", parts) + ["END:VCALENDAR", ""]))
    m, d, h = S.int("m", 1, 12), S.int("d", 1, 28), S.int("h", 0, 23)
    dt = DateTime(2001 if not recurring else 2003, m, d, h, S.choice("mi", [0, 59]), 0, tzid=Timezone(tzid="Z/A"))
    day = m * 100 + d
    summer = day > 401 or (day == 401 and h >= 2)
    if recurring and (day > 1101 or (day == 1101 and h >= 2)):
        summer = False
    name, off = (dst_name, std + 60) if summer else (std_name, std)
    want = "(" + name + ")" if name else offset_text(off)
    got = dt.timeZoneDescriptor()
    S.check(got == want, "the zone in force is another")
    S.check(dt.getTime(False, False, True) == two(h) + ":" + two(dt.getMinutes()) + " " + want, "the text of the time lacks its zone")
    S.check(dt.getTime(False, False, False) == two(h) + ":" + two(dt.getMinutes()), "the text of the time holds a zone nobody asked for")
    S.check(DateTime(2001, m, d, h, 0, 0, tzid=Timezone(tzid="Z/None")).timeZoneDescriptor() == "", "a zone nobody knows has a name")
    S.observe(got)


class Clock(object):
    """the time module with the clock at a day"""

    class TM(object):
        pass

    def __init__(self, y, m, d, h=0, mi=0, s=0):
        tm = Clock.TM()
        tm.tm_year, tm.tm_mon, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec = y, m, d, h, mi, s
        self.tm = tm

    def time(self):
        return 0

    def localtime(self, t=None):
        return self.tm

    def gmtime(self, t=None):
        return self.tm


STATUS = ["NEEDS-ACTION", "IN-PROCESS", "COMPLETED", "CANCELLED", "in-process"]


def todo(S, statuses, dues):
    """where a to-do stands on a day"""
    TimezoneDatabase.clearTimezoneDatabase()
    status = S.choice("status", statuses)
    due = S.choice("due", dues)
    m, d = S.int("m", 1, 3), S.int("d", 1, 28)
    lines = ["BEGIN:VTODO", "UID:a", "DTSTAMP:20240101T000000Z", "STATUS:" + status]
    if due == "date":
        lines.append("DUE;VALUE=DATE:2024%02d%02d" % (m, d))
    elif due == "time":
        lines.append("DUE:2024%02d%02dT%02d3000" % (m, d, S.int("h", 0, 23)))
    elif due == "duration":
        lines += ["DTSTART:2024%02d%02dT000000" % (m, d), "DURATION:PT%dH" % S.int("h", 0, 23)]
    cal = Calendar.parseText("\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"] + lines + ["END:VTODO", "END:VCALENDAR", ""]))
    item = cal.getComponents("VTODO")[0]
    tm, td = S.int("tm", 1, 3), S.int("td", 1, 28)
    real = datetime_module.time
    datetime_module.time = Clock(2024, tm, td, 12, 0, 0)
    try:
        got = item.getCompletionState()
    finally:
        datetime_module.time = real
    if status == "COMPLETED":
        want = VToDo.DONE
    elif status == "CANCELLED":
        want = VToDo.CANCELLED
    elif due == "none":
        want = VToDo.DUE_NOW
    else:
        n, today = 100 * m + d, 100 * tm + td
        want = VToDo.DUE_LATER if n > today else VToDo.DUE_NOW if n == today else VToDo.OVERDUE
    S.check(got == want, "the to-do stands elsewhere: " + status + " " + due)
    S.observe("%d" % got)


def clock(S):
    """today and now, in a zone of the asker"""
    TimezoneDatabase.clearTimezoneDatabase()
    n = S.int("off", -12, 14)
    m, d, h, mi = S.int("m", 1, 12), S.int("d", 1, 28), S.int("h", 0, 23), S.int("mi", 0, 59)
    real = datetime_module.time
    datetime_module.time = Clock(2024, m, d, h, mi, 30)
    try:
        utc = DateTime.getNowUTC()
        now = DateTime.getNow(Timezone(utc=False, tzid=n * 3600))
        today = DateTime.getToday()
        again = DateTime(2000, 1, 1, 0, 0, 0, tzid=Timezone(utc=False, tzid=n * 3600))
        again.setNow()
        that = DateTime(2000, 1, 1, 5, 0, 0)
        that.setToday()
        bare = DateTime(2000, 1, 1, 5, 0, 0)
        bare.setNowUTC()
    finally:
        datetime_module.time = real
    S.check(utc.getText() == "2024%02d%02dT%02d%02d30Z" % (m, d, h, mi), "now is another moment")
    S.check(bare.getText() == utc.getText(), "now set is another moment")
    k = refcal.days(2024, m, d) * 24 + h + n
    y2, m2, d2 = refcal.from_days(k // 24)
    want = "%04d%02d%02dT%02d%02d30" % (y2, m2, d2, k % 24, mi)
    S.check(now.getText()[:15] == want, "now in another zone is another moment")
    S.check(again.getText() == now.getText(), "now set in another zone is another moment")
    S.check(today.getText() == "2024%02d%02d" % (m, d) and today.isDateOnly(), "today is another day")
    S.check(that.getText() == today.getText(), "today set is another day")
    S.observe(now.getText())


HARNESSES = [
    ("dates", dates, {"forms": sorted(DATE_FORMS), "years": (2000, 2030)}, {"bounds": "every date of 2000-2030, in six forms, as a date, a time and a UTC time", "tier": "quick"}),
    ("dates-long", dates, {"forms": sorted(DATE_FORMS), "years": (1800, 2200)}, {"bounds": "every date of 1800-2200, in six forms", "tier": "thorough"}),
    ("times", times, {"zones": ["none", "utc", "offset"]}, {"bounds": "every second of a day, 12 and 24 hours, every UTC offset of whole minutes up to 14 hours", "tier": "quick"}),
    ("names", zone_names, {"named": True, "offsets": (-720, 780), "recurring": False}, {"bounds": "every hour of a year around a change, offsets of -12:00 to +13:00, with and without names", "tier": "quick"}),
    ("offsets", zone_names, {"named": False, "offsets": (-720, 780), "recurring": False}, {"bounds": "the same, names missing", "tier": "quick"}),
    ("names-recurring", zone_names, {"named": True, "offsets": (-300, -300), "recurring": True}, {"bounds": "every hour of the fourth year of a recurring zone", "tier": "quick"}),
    ("todo", todo, {"statuses": STATUS, "dues": ["date", "time", "duration", "none"]}, {"bounds": "every status, due at every hour of three months, today every day of them", "tier": "quick"}),
    ("clock", clock, {}, {"bounds": "every minute of 2024, zones of -12 to +14 hours", "tier": "quick"}),
]
