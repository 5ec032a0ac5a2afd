# Which VTIMEZONEs the text of a calendar carries
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from fakefs import Files

# standard zones are files, others come with some calendar
HOURS = {"S": 1, "T": 2, "N": 3, "M": 4}
STD = ["S", "T"]


def zone_lines(tzid, hours):
    return ["BEGIN:VTIMEZONE", "TZID:" + tzid, "BEGIN:STANDARD", "DTSTART:20000101T000000", "TZOFFSETFROM:+0000", "TZOFFSETTO:+%02d00" % hours, "END:STANDARD", "END:VTIMEZONE"]


def wrap(lines):
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"] + lines + ["END:VCALENDAR", ""])


FILES = dict([("/zi/" + z + ".ics", wrap(zone_lines(z, HOURS[z]))) for z in STD])


def setup(others=True):
    Files(FILES).install()
    TimezoneDatabase.createTimezoneDatabase("/zi")
    if others:
        for z in sorted(HOURS):
            if z not in STD:
                Calendar.parseText(wrap(zone_lines(z, HOURS[z])))


PLACES = {
    "start": ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20110101T000000Z", "DTSTART;TZID=%s:2011010%dT%02d0000", "END:VEVENT"],
    "end": ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20110101T000000Z", "DTSTART:20101201T000000Z", "DTEND;TZID=%s:2011010%dT%02d0000", "END:VEVENT"],
    "exdate": ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20110101T000000Z", "DTSTART:20101201T000000Z", "EXDATE;TZID=%s:2011010%dT%02d0000,20110209T000000", "RRULE:FREQ=DAILY", "END:VEVENT"],
    "rdate": ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20110101T000000Z", "DTSTART:20101201T000000Z", "RDATE;TZID=%s:2011010%dT%02d0000", "END:VEVENT"],
    "period": ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20110101T000000Z", "DTSTART:20101201T000000Z", "RDATE;TZID=%s;VALUE=PERIOD:2011010%dT%02d0000/PT1H", "END:VEVENT"],
    "rid": ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20110101T000000Z", "RECURRENCE-ID;TZID=%s:2011010%dT%02d0000", "DTSTART:20101201T000000Z", "END:VEVENT"],
    "due": ["BEGIN:VTODO", "UID:1", "DTSTAMP:20110101T000000Z", "DUE;TZID=%s:2011010%dT%02d0000", "END:VTODO"],
    "journal": ["BEGIN:VJOURNAL", "UID:1", "DTSTAMP:20110101T000000Z", "DTSTART;TZID=%s:2011010%dT%02d0000", "END:VJOURNAL"],
    "available": ["BEGIN:VAVAILABILITY", "UID:1", "DTSTAMP:20110101T000000Z", "BEGIN:AVAILABLE", "UID:2", "DTSTAMP:20110101T000000Z", "DTSTART;TZID=%s:2011010%dT%02d0000",
                  "DURATION:PT1H", "END:AVAILABLE", "END:VAVAILABILITY"],
    "extra": ["BEGIN:VEVENT", "UID:1", "DTSTAMP:20110101T000000Z", "DTSTART:20101201T000000Z", "X-WHEN;VALUE=DATE-TIME;TZID=%s:2011010%dT%02d0000", "END:VEVENT"],
    "freebusy": ["BEGIN:VFREEBUSY", "UID:1", "DTSTAMP:20110101T000000Z", "DTSTART;TZID=%s:2011010%dT%02d0000", "END:VFREEBUSY"],
}


def lines_of(place, tzid, d, h):
    return [(l % (tzid, d, h) if "%" in l else l) for l in PLACES[place]]


def zones_in(cal):
    return sorted([c.getID() for c in cal.getComponents("VTIMEZONE")])


def without_zones(text):
    out = []
    skip = False
    for l in text.split("\r\n"):
        if l == "BEGIN:VTIMEZONE":
            skip = True
        if not skip:
            out.append(l)
        if l == "END:VTIMEZONE":
            skip = False
    return out


def stated(prop):
    multi = prop.getMultiValue()
    out = []
    for v in multi.getValues() if multi is not None else [prop.getValue()]:
        v = v.getValue()
        if isinstance(v, Period):
            v = v.getStart()
        if isinstance(v, DateTime):
            out.append(v.getPosixTime())
    return out


def moments(comp):
    """every moment that a component's properties state"""
    out = []
    for name in sorted(comp.getProperties()):
        for prop in comp.getProperties()[name]:
            out += [(name, t) for t in stated(prop)]
    for sub in comp.getComponents():
        out += moments(sub)
    return out


def whole(cal):
    return [(uid, moments(c)) for uid in ["1", "9"] for c in cal.getComponents() if c.getType() != "VTIMEZONE" and c.getUID() == uid]


def included(S, places, which, forms, dmax=9, hmax=23):
    """the zones used are with the calendar, once each, and nothing else changes"""
    setup()
    place = S.choice("place", places)
    tz1 = S.choice("tz1", ["S", "N", "Unknown"])
    tz2 = S.choice("tz2", ["T", "N", "Unknown"])
    # what the calendar holds of its own
    own = [z for z in ["S", "N"] if S.bool("own" + z)]
    form = S.choice("form", forms)
    mode = S.choice("mode", which)
    d = S.int("d", 1, dmax)
    h = S.int("h", 0, hmax)
    body = lines_of(place, tz1, d, h) + ["BEGIN:VEVENT", "UID:9", "DTSTAMP:20110101T000000Z", "DTSTART;TZID=%s:20110201T000000" % tz2, "END:VEVENT"]
    cal = Calendar.parseText(wrap([l for z in own for l in zone_lines(z, HOURS[z])] + body))
    want = set(own)
    for z in [tz1, tz2]:
        if z in HOURS and (mode == "ALL" or mode != "NO" and z not in STD):
            want.add(z)
    arg = {"ALL": Calendar.ALL_TIMEZONES, "NONSTD": Calendar.NONSTD_TIMEZONES, "NO": Calendar.NO_TIMEZONES, "default": None}[mode]
    plain = without_zones(str(cal))
    if form == "text":
        text = cal.getText(includeTimezones=arg)
    elif form == "json":
        text = Calendar.parseJSONData(cal.getTextJSON(includeTimezones=arg)).getText(includeTimezones=Calendar.NO_TIMEZONES)
    else:
        cal.getTextXML(includeTimezones=arg)
        text = cal.getText(includeTimezones=Calendar.NO_TIMEZONES)
    S.check(zones_in(cal) == sorted(want), "zones in the calendar")
    S.check(without_zones(text) == plain, "nothing else changed")
    S.check(zones_in(Calendar.parseText(text)) == sorted(want), "zones in the text")
    S.check(cal.getText(includeTimezones=arg) == text, "the same when written again")
    moment = DateTime(2011, 1, d, h, 0, 0, tzid=Timezone(utc=True)).getPosixTime() - HOURS.get(tz1, 0) * 3600
    first = [c for c in cal.getComponents() if c.getType() != "VTIMEZONE" and c.getUID() == "1"][0]
    S.check(any([t == moment for name, t in moments(first)]), "the moment in that zone")
    # the zones it was given are its own
    for c in list(cal.getComponents("VTIMEZONE")):
        c.removeAllComponent()
    for z in sorted(want - set(own)):
        S.check(TimezoneDatabase.getTimezoneOffsetSeconds(z, DateTime(2011, 1, 1, 0, 0, 0)) == HOURS[z] * 3600, "the zones of others stay as they were")
    cal = Calendar.parseText(text)
    # the text means the same where only the standard zones are known
    before = whole(cal)
    setup(False)
    again = Calendar.parseText(text)
    if mode != "NO":
        S.check(whole(again) == before, "the same moments elsewhere")
    S.observe(text)


def stripped(S):
    """stripping removes the standard zones and no others"""
    setup()
    own = [z for z in ["S", "N", "T", "Unknown"] if S.bool("own" + z)]
    h = S.int("h", 0, 23)
    cal = Calendar.parseText(wrap([l for z in own for l in zone_lines(z, HOURS.get(z, 9))] + lines_of("start", "S", 3, h)))
    plain = without_zones(str(cal))
    changed = cal.stripStandardTimezones()
    left = sorted([z for z in own if z not in STD])
    S.check(zones_in(cal) == left, "what is left")
    S.check(changed == (len(left) != len(own)), "told whether anything changed")
    S.check(without_zones(str(cal)) == plain, "nothing else changed")
    S.check(cal.getComponents("VEVENT")[0].getStart().getPosixTime() == DateTime(2011, 1, 3, h, 0, 0, tzid=Timezone(utc=True)).getPosixTime() - 3600, "the same moment")
    S.check(not cal.stripStandardTimezones(), "nothing left to strip")


def changed_here(S, ops):
    """zones put into or taken out of the calendar by hand are followed"""
    setup()
    d = S.int("d", 1, 9)
    cal = Calendar.parseText(wrap(lines_of("start", "N", d, 1)))
    other = Calendar.parseText(wrap(lines_of("due", "M", d, 2)))
    for k in range(2):
        op = S.choice("op%d" % k, ops)
        if op == "write":
            cal.getText()
        elif op == "add":
            for c in other.getComponents("VTODO"):
                cal.addComponent(c.duplicate(cal))
        elif op == "remove":
            for c in cal.getComponents("VEVENT"):
                cal.removeComponent(c)
        elif op == "unzone":
            for c in cal.getComponents("VTIMEZONE"):
                cal.removeComponent(c)
        elif op == "copy":
            cal = cal.duplicate()
    had = zones_in(cal)
    used = set(had)
    for c in cal.getComponents():
        if c.getType() == "VEVENT":
            used.add("N")
        elif c.getType() == "VTODO":
            used.add("M")
    cal.getText()
    S.check(zones_in(cal) == sorted(used), "zones in the calendar")
    for z in zones_in(cal):
        S.check(cal.getTimezoneOffsetSeconds(z, DateTime(2011, 1, d, 0, 0, 0)) == HOURS[z] * 3600, "its offset")


ALL = sorted(PLACES)
HARNESSES = [
    ("included", included, {"places": ALL, "which": ["NONSTD", "ALL"], "forms": ["text"]}, {"bounds": "a zone used in any of 11 places", "tier": "quick"}),
    ("included_forms", included, {"places": ["start", "exdate"], "which": ["NONSTD", "ALL", "NO", "default"], "forms": ["text", "json", "xml"], "dmax": 2, "hmax": 0}, {"bounds": "all ways of writing", "tier": "quick"}),
    ("stripped", stripped, {}, {"bounds": "any of four zones present", "tier": "quick"}),
    ("changed_here", changed_here, {"ops": ["write", "add", "remove", "unzone", "copy"]}, {"bounds": "any two changes", "tier": "quick"}),
    ("included_deep", included, {"places": ALL, "which": ["NONSTD", "ALL", "NO", "default"], "forms": ["text", "json", "xml"], "dmax": 2, "hmax": 0}, {"bounds": "any of 11 places and all ways of writing", "tier": "thorough"}),
]
