ASSUMPTIONS = ["the limits are those of RFC 5545, 6350, 7953 and the VPOLL draft for the component types and properties listed here; a problem is identified by the component type and the property names its message gives",
               "DTSTART is not before the zone's first rule and local times are not in the hour a zone change skips or repeats"]
# What validation reports and what it repairs
from pycalendar.exceptions import ValidationError
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.vcard.card import Card


MANY = 9

# for each type the number of times each property has to be there and may be there
LIMITS = {
    "VCALENDAR": ("PRODID VERSION", "CALSCALE METHOD"),
    "VEVENT": ("DTSTAMP UID", "DTSTART CLASS CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION ORGANIZER PRIORITY SEQUENCE SUMMARY TRANSP URL RECURRENCE-ID RRULE DTEND DURATION"),
    "VTODO": ("DTSTAMP UID", "CLASS COMPLETED CREATED DESCRIPTION DTSTART GEO LAST-MODIFIED LOCATION ORGANIZER PERCENT-COMPLETE PRIORITY RECURRENCE-ID SEQUENCE SUMMARY URL RRULE DUE DURATION"),
    "VJOURNAL": ("DTSTAMP UID", "CLASS CREATED DTSTART LAST-MODIFIED ORGANIZER RECURRENCE-ID SEQUENCE SUMMARY URL RRULE"),
    "VFREEBUSY": ("DTSTAMP UID", "CONTACT DTSTART DTEND ORGANIZER URL"),
    "VTIMEZONE": ("TZID", "LAST-MODIFIED TZURL"),
    "STANDARD": ("DTSTART TZOFFSETTO TZOFFSETFROM", "RRULE"),
    "DAYLIGHT": ("DTSTART TZOFFSETTO TZOFFSETFROM", "RRULE"),
    "AVAILABLE": ("DTSTAMP DTSTART UID", "CREATED DESCRIPTION GEO LAST-MODIFIED LOCATION RECURRENCE-ID RRULE SEQUENCE SUMMARY DTEND DURATION"),
    "VAVAILABILITY": ("DTSTAMP UID", "BUSYTYPE CLASS CREATED DESCRIPTION DTSTART LAST-MODIFIED ORGANIZER SEQUENCE SUMMARY URL RECURRENCE-ID DTEND DURATION"),
    "VPOLL": ("DTSTAMP UID ORGANIZER", "ACCEPT-RESPONSE CLASS CREATED COMPLETED DESCRIPTION DTSTART DTEND DURATION LAST-MODIFIED POLL-MODE POLL-PROPERTIES POLL-WINNER PRIORITY SEQUENCE STATUS SUMMARY URL"),
    "VVOTER": ("VOTER", "CREATED DESCRIPTION LAST-MODIFIED SUMMARY URL"),
    "VOTE": ("", "POLL-ITEM-ID RESPONSE"),
    "VCARD": ("VERSION N", "BDAY PRODID REV UID"),
}
ALARMS = {
    "AUDIO": ("ACTION TRIGGER", "DURATION REPEAT ATTACH ACKNOWLEDGED"),
    "DISPLAY": ("ACTION TRIGGER", "DURATION REPEAT ACKNOWLEDGED"),
    "EMAIL": ("ACTION TRIGGER", "DURATION REPEAT ACKNOWLEDGED"),
    "URI": ("ACTION TRIGGER URL", "DURATION REPEAT ACKNOWLEDGED"),
    "NONE": ("ACTION", ""),
    "X-NEW": ("ACTION TRIGGER", "DURATION REPEAT ACKNOWLEDGED"),
}
# what a repair adds when missing, and what there has to be at least one of
FILLED = {"DISPLAY": ["DESCRIPTION"], "EMAIL": ["DESCRIPTION", "SUMMARY"]}
SOME = {"EMAIL": ["ATTENDEE"], "VCARD": ["FN"]}

VALUES = {
    "PRODID": "-//x", "VERSION": "2.0", "CALSCALE": "GREGORIAN", "METHOD": "PUBLISH",
    "DTSTAMP": "20240101T000000Z", "CREATED": "20240101T000000Z", "LAST-MODIFIED": "20240101T000000Z", "COMPLETED": "20240101T000000Z", "ACKNOWLEDGED": "20240101T000000Z",
    "DTSTART": "20240301T100000Z", "DTEND": "20240301T120000Z", "DUE": "20240301T120000Z", "DURATION": "PT1H", "RECURRENCE-ID": "20240302T100000Z",
    "GEO": "1;2", "PRIORITY": "1", "SEQUENCE": "1", "PERCENT-COMPLETE": "1", "REPEAT": "1", "POLL-ITEM-ID": "1", "RESPONSE": "1", "POLL-WINNER": "1",
    "RRULE": "FREQ=DAILY;COUNT=2", "URL": "http://a/", "TZURL": "http://a/", "ORGANIZER": "mailto:a", "ATTENDEE": "mailto:b", "VOTER": "mailto:c", "ATTACH": "http://b/",
    "TZOFFSETTO": "+0100", "TZOFFSETFROM": "+0200", "TRIGGER": "PT5M", "TRANSP": "OPAQUE", "BUSYTYPE": "BUSY", "N": "a;b", "BDAY": "2000-01-01", "REV": "20240101T000000Z",
}


def value(top, name):
    if top == "VCARD" and name == "VERSION":
        return "3.0"
    return VALUES.get(name, "text")


class Comp(object):
    def __init__(self, type, props, subs=(), action=None):
        self.type = type
        self.props = [(p[0], p[1]) for p in props]
        self.subs = list(subs)
        self.action = action

    def lines(self):
        out = ["BEGIN:" + self.type]
        for name, v in self.props:
            out.append(name + (";" if v[:1] == "!" else ":") + (v[1:] if v[:1] == "!" else v))
        for sub in self.subs:
            out.extend(sub.lines())
        out.append("END:" + self.type)
        return out

    def count(self, name):
        return len([p for p in self.props if p[0] == name])

    def drop(self, name):
        self.props = [p for p in self.props if p[0] != name]

    def text(self):
        return "\r\n".join(self.lines()) + "\r\n"


def wrong(top, name, v):
    """is the value one the property may not have"""
    if top == "VCARD":
        return {"VERSION": v.lower() != "3.0", "PROFILE": v.lower() != "vcard"}.get(name, False)
    if name in ("CALSCALE", "VERSION"):
        return v.lower() != {"CALSCALE": "gregorian", "VERSION": "2.0"}[name]
    if name in ("PERCENT-COMPLETE", "PRIORITY"):
        return not 0 <= int(v) <= {"PERCENT-COMPLETE": 100, "PRIORITY": 9}[name]
    if name in ("REPEAT", "SEQUENCE"):
        return int(v) < 0
    if name in ("COMPLETED", "CREATED", "DTSTAMP", "LAST-MODIFIED", "ACKNOWLEDGED"):
        return v[-1:] != "Z"
    return False


def reference(c, fix, top, parent=None):
    """(repaired, not repaired) problems; with fix the component is changed"""
    fixed = []
    unfixed = []

    def problem(*names):
        return "[%s] %s" % (c.type, ", ".join(names))

    must, may = ALARMS[c.action] if c.type == "VALARM" else LIMITS[c.type]
    kind = c.action if c.type == "VALARM" else c.type
    for name in must.split(" "):
        if name and c.count(name) != 1:
            unfixed.append(problem(name))
    for name in FILLED.get(kind, []):
        n = c.count(name)
        if n > 1 or n == 0 and not fix:
            unfixed.append(problem(name))
        elif n == 0:
            c.props.append((name, ""))
            fixed.append(problem(name))
    for name in may.split(" "):
        if c.count(name) > 1:
            unfixed.append(problem(name))
    for name in SOME.get(kind, []):
        if c.count(name) == 0:
            unfixed.append(problem(name))
    if c.type in ("VEVENT", "VTODO", "VJOURNAL") and c.count("STATUS") > 1:
        if fix and [p for p in c.props if p[0] == "STATUS" and p[1].upper() == "CANCELLED"]:
            c.drop("STATUS")
            c.props.append(("STATUS", "CANCELLED"))
            fixed.append(problem("STATUS"))
        else:
            unfixed.append(problem("STATUS"))
    for name, v in c.props:
        if wrong(top, name, v):
            unfixed.append(problem(name))
    for sub in c.subs:
        f, u = reference(sub, fix, top, c)
        fixed.extend(f)
        unfixed.extend(u)
    if c.type == "VEVENT" and not parent.count("METHOD") and not c.count("DTSTART"):
        unfixed.append(problem("DTSTART"))
    end, other, gone = {"VTODO": ("DUE", "DURATION", "DURATION")}.get(c.type, ("DTEND", "DURATION", "DTEND"))
    if c.type in ("VEVENT", "VTODO", "AVAILABLE", "VAVAILABILITY") and c.count(end) and c.count(other):
        if fix:
            c.drop(gone)
            fixed.append(problem(end, other))
        else:
            unfixed.append(problem(end, other))
    if c.type == "VTODO" and c.count("DURATION") and not c.count("DTSTART"):
        unfixed.append(problem("DTSTART", "DURATION"))
    if c.type == "VALARM" and bool(c.count("DURATION")) != bool(c.count("REPEAT")):
        unfixed.append(problem("DURATION", "REPEAT"))
    if c.type == "VTIMEZONE" and not c.subs:
        unfixed.append(problem("STANDARD", "DAYLIGHT"))
    return fixed, unfixed


def told(messages):
    """component and property names of the messages"""
    out = []
    for m in messages:
        at = m.find("] ")
        names = m[m.rfind(": ") + 2:]
        for word in (" or ", " with "):
            names = names.replace(word, ", ")
        out.append(m[:at + 2] + names)
    return sorted(out)


def read(top, text):
    TimezoneDatabase.clearTimezoneDatabase()
    return (Card if top == "VCARD" else Calendar).parseText(text)


def state(obj, top):
    """what the object answers about itself"""
    out = []
    for c in obj.getComponents():
        if c.getType() in ("VEVENT", "VTODO", "VJOURNAL"):
            out.append((c.getType(), c.getStart().getText(), 0 if c.getType() == "VJOURNAL" else c.getStatus(), c.getEnd().getText(), c.hasEnd()))
            for a in c.getComponents():
                d = a.getActionData()
                out.append((a.getAction(), d.getDescription() if a.getAction() in (1, 2) else ""))
    return out


def examine(S, top, c):
    """c: the object as Comp"""
    text = c.text()
    obj = read(top, text)
    before = obj.getText()
    f, u = reference(c, False, top)
    fixed, unfixed = obj.validate(doFix=False)
    S.check(fixed == [], "a validation that may not repair reports a repair")
    S.check(told(unfixed) == sorted(u), "the problems reported are not those present")
    S.check(obj.getText() == before, "a validation that may not repair changed the object")
    try:
        obj.validate(doFix=False, doRaise=True)
        S.check(not u, "problems are not raised")
    except ValidationError:
        S.check(len(u) > 0, "raised although there is no problem")
    f, u = reference(c, True, top)
    fixed, unfixed = obj.validate(doFix=True)
    S.check(told(fixed) == sorted(f), "the problems repaired are not those that can be")
    S.check(told(unfixed) == sorted(u), "the problems left after repair are not those that cannot be repaired")
    want = read(top, c.text())
    S.check(obj.getText() == want.getText(), "the repair did not leave what it should")
    S.check(state(obj, top) == state(want, top), "the repaired object answers as before the repair")
    again = obj.validate(doFix=True)
    S.check(again[0] == [], "a repair is needed again")
    return obj


def place(c, method=False):
    """the calendar holding the component"""
    props = [("PRODID", "-//x"), ("VERSION", "2.0")]
    if method:
        props.append(("METHOD", "REQUEST"))
    for holder in {"STANDARD": ["VTIMEZONE"], "DAYLIGHT": ["VTIMEZONE"], "AVAILABLE": ["VAVAILABILITY"], "VVOTER": ["VPOLL"], "VOTE": ["VVOTER", "VPOLL"], "VALARM": ["VEVENT"]}.get(c.type, []):
        c = Comp(holder, [(n, value(holder, n)) for n in LIMITS[holder][0].split(" ")] + ([("DTSTART", VALUES["DTSTART"])] if holder == "VEVENT" else []), [c])
    return Comp("VCALENDAR", props, [c])


def basic(type, action=None):
    must, may = ALARMS[action] if action else LIMITS[type]
    props = [(n, action if n == "ACTION" else value(type, n)) for n in must.split(" ") if n]
    for n in FILLED.get(action, []) + SOME.get(action or type, []):
        props.append((n, value(type, n)))
    if type == "VEVENT":
        props.append(("DTSTART", VALUES["DTSTART"]))
    if type == "STANDARD" or type == "DAYLIGHT":
        props = [(n, "20200101T000000" if n == "DTSTART" else v) for n, v in props]
    subs = [basic("STANDARD")] if type == "VTIMEZONE" else []
    return Comp(type, props, subs, action)


def fill(S, c, tag, n):
    """n of one property, any of those known for the type or one that is not limited"""
    must, may = ALARMS[c.action] if c.action else LIMITS[c.type]
    names = [x for x in (must + " " + may).split(" ") if x] + FILLED.get(c.action, []) + SOME.get(c.action or c.type, []) + ["X-A", "COMMENT"]
    if c.type in ("VEVENT", "VTODO", "VJOURNAL"):
        names.append("STATUS")
    name = S.choice("name" + tag, names)
    if c.type == "VALARM" and name == "ACTION" and n == 0 or c.type == "VCARD" and name == "VERSION":
        # reading goes by the action and refuses a vCard without version
        return name
    keep = [p for p in c.props if p[0] == name]
    c.drop(name)
    v = keep[0][1] if keep else ("20200101T000000" if name == "DTSTART" and c.type in ("STANDARD", "DAYLIGHT") else value(c.type, name))
    for i in range(n):
        c.props.append((name, v))
    return name


def whole(c):
    return c if c.type in ("VCARD", "VCALENDAR") else place(c)


def top_of(c):
    return "VCARD" if c.type == "VCARD" else "VCALENDAR"


def one(S, types, most):
    t = S.choice("type", types)
    c = basic(*t)
    n = S.conc(S.int("n", 0, most))
    fill(S, c, "1", n)
    if top_of(c) == "VCALENDAR" and c.type != "VCALENDAR" and S.bool("method"):
        w = place(c, True)
    else:
        w = whole(c)
    examine(S, top_of(c), w)


def two(S, types):
    t = S.choice("type", types)
    c = basic(*t)
    n = S.choice("n", [0, 2])
    a = fill(S, c, "1", n)
    b = fill(S, c, "2", S.choice("m", [0, 1, 2]))
    S.assume(a != b)
    examine(S, top_of(c), whole(c))


def values(S, names):
    """properties with limited values"""
    name, lo, hi, holder = S.choice("name", names)
    v = S.int("value", lo, hi)
    if holder == "VALARM":
        c = basic("VALARM", "DISPLAY")
        c.props.append(("DURATION", "PT5M"))
    else:
        c = basic(holder)
    c.props.append((name, str(v)))
    examine(S, "VCALENDAR", place(c))


def stamps(S, names):
    """times that have to be UTC"""
    name, holder = S.choice("name", names)
    zone = S.choice("zone", ["", "Z", "!"])
    t = "2024%02d%02dT%02d0000" % (S.int("month", 1, 12), S.int("day", 1, 28), S.int("hour", 0, 23))
    c = basic("VALARM", "DISPLAY") if holder == "VALARM" else basic(holder)
    c.drop(name)
    c.props.append((name, "!TZID=a:" + t if zone == "!" else t + zone))
    examine(S, "VCALENDAR", place(c))


def words(S, which):
    top, name, right = S.choice("which", which)
    v = S.str("value", 1, len(right), "".join(sorted(set(right.lower() + right.upper() + "4x"))))
    S.assume(len(v) == len(right) or len(v) == 1)
    c = basic(top)
    c.drop(name)
    c.props.append((name, v))
    # reading refuses others
    c.props.pop()
    c.props.append((name, right))
    obj = read(top, c.text())
    obj.findFirstProperty(name).setValue(v)
    fixed, unfixed = obj.validate()
    S.check((fixed, told(unfixed)) == ([], ["[" + top + "] " + name] if v.lower() != right.lower() else []), "an object with another " + name + " passes, or one with this one does not")


def status(S, holder, n):
    c = basic(holder)
    c.props.append(("DTSTART", VALUES["DTSTART"])) if holder != "VEVENT" else None
    for i in range(n):
        c.props.append(("STATUS", S.choice("status%d" % i, ["CONFIRMED", "CANCELLED", "cancelled", "TENTATIVE", "COMPLETED"])))
    examine(S, "VCALENDAR", place(c))


def ends(S, holder):
    """both an end and a length"""
    end = "DUE" if holder == "VTODO" else "DTEND"
    c = basic(holder)
    c.drop("DTSTART")
    if S.bool("start"):
        c.props.append(("DTSTART", "20240301T100000Z"))
    for name in (end, "DURATION"):
        for i in range(S.conc(S.int("n" + name, 0, 2))):
            c.props.append((name, "PT%dM" % S.int("minutes%d" % i, 10, 90) if name == "DURATION" else "20240302T%02d0000Z" % S.int("hour%d" % i, 10, 20)))
    examine(S, "VCALENDAR", place(c, S.bool("method")))


ZONE = ("BEGIN:VTIMEZONE\r\nTZID:a\r\nBEGIN:STANDARD\r\nDTSTART:20200101T000000\r\nTZOFFSETFROM:%s\r\nTZOFFSETTO:%s\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n")


def until(S, kinds, other):
    """UNTIL of another kind than DTSTART"""
    kind = S.choice("kind", kinds)
    offset = S.choice("offset", ["+0000", "+1100", "-0930"]) if kind == "zone" else "+0000"
    h = S.int("hour", 0, 23)
    day = S.int("day", 1, 4)
    uday = S.int("uday", 1, 6)
    S.assume(uday >= day)
    udate = "202403%02d" % uday
    uh = S.int("uhour", 0, 23)
    if kind == "date":
        start = ";VALUE=DATE:202403%02d" % day
        u = udate + ("T%02d0000Z" % uh if other else "")
    else:
        t = "202403%02dT%02d0000" % (day, h)
        start = {"zone": ";TZID=a:" + t, "utc": ":" + t + "Z", "float": ":" + t}[kind]
        u = udate if other else udate + "T%02d0000" % uh + ("" if kind == "float" else "Z")
    freq = S.choice("freq", ["FREQ=DAILY;", "FREQ=HOURLY;INTERVAL=12;"] if kind != "date" else ["FREQ=DAILY;"])
    text = ("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//x\r\n" + (ZONE % (offset, offset) if kind == "zone" else "") + "BEGIN:VEVENT\r\nUID:u\r\nDTSTAMP:20240101T000000Z\r\nDTSTART" + start +
            "\r\nRRULE:" + freq + "UNTIL=" + u + "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n")
    obj = read("VCALENDAR", text)
    period = Period(DateTime(2024, 2, 28), DateTime(2024, 3, 10))

    def times(c):
        # of the first so many days
        items = []
        c.getVEvents(period, items)
        return [i.getInstanceStart().getText() for i in items]

    fixed, unfixed = obj.validate(doFix=False)
    S.check((fixed, told(unfixed)) == ([], ["[VEVENT] DTSTART, UNTIL"] if other else []), "an UNTIL of another kind than DTSTART is what is reported")
    was = times(read("VCALENDAR", text))
    fixed, unfixed = obj.validate(doFix=True)
    S.check((told(fixed), unfixed) == (["[VEVENT] DTSTART, UNTIL"] if other else [], []), "an UNTIL of another kind is repaired")
    now = obj.getText()
    if not other:
        S.check(now == read("VCALENDAR", text).getText(), "nothing to repair, yet changed")
    elif kind == "date":
        S.check(";UNTIL=" + udate + "\r\n" in now, "UNTIL is the date")
    else:
        at = now.find(";UNTIL=20240") + 7
        S.check(at > 7 and now[at + 8] == "T" and (now[at + 15] == "Z") == (kind != "float"), "UNTIL is a UTC time, or a local one like DTSTART")
        # every time on the days up to UNTIL's, at DTSTART's time of day at the latest
        if freq == "FREQ=DAILY;":
            S.check(times(obj) == was, "the repair changed which days the event recurs on")
    S.check(times(obj) == times(read("VCALENDAR", now)), "the repaired object does not recur as its text")


ONE = [(t,) for t in ("VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "AVAILABLE", "VAVAILABILITY", "VPOLL", "VVOTER", "VOTE", "VCARD")] + [("VALARM", a) for a in sorted(ALARMS)]
INTS = [("PERCENT-COMPLETE", -2, 102, "VTODO"), ("PRIORITY", -2, 12, "VEVENT"), ("SEQUENCE", -3, 20, "VEVENT"), ("SEQUENCE", -3, 20, "AVAILABLE"), ("REPEAT", -3, 9, "VALARM"), ("PRIORITY", -2, 12, "VPOLL")]
TIMES = [("DTSTAMP", "VEVENT"), ("DTSTAMP", "VFREEBUSY"), ("CREATED", "VTODO"), ("LAST-MODIFIED", "VTIMEZONE"), ("COMPLETED", "VTODO"), ("ACKNOWLEDGED", "VALARM"), ("LAST-MODIFIED", "AVAILABLE")]
WORDS = [("VCALENDAR", "CALSCALE", "GREGORIAN"), ("VCALENDAR", "VERSION", "2.0"), ("VCARD", "VERSION", "3.0"), ("VCARD", "PROFILE", "VCARD")]

HARNESSES = [
    ("one", one, {"types": ONE, "most": 3}, {"bounds": "every component type and alarm action; any one property 0 to 3 times", "tier": "quick"}),
    ("two events", two, {"types": [("VEVENT",), ("VTODO",)]}, {"bounds": "any two properties 0 to 2 times", "tier": "quick"}),
    ("two more", two, {"types": ONE}, {"bounds": "every component type and alarm action; any two properties 0 to 2 times", "tier": "thorough"}),
    ("two", two, {"types": [("VALARM", a) for a in sorted(ALARMS)] + [("VTIMEZONE",), ("VCARD",), ("VVOTER",)]}, {"bounds": "any two properties 0 to 2 times", "tier": "quick"}),
    ("values", values, {"names": INTS}, {"bounds": "whole numbers around the limits", "tier": "quick"}),
    ("stamps", stamps, {"names": TIMES}, {"bounds": "times of 2024 in UTC, floating or of a zone", "tier": "quick"}),
    ("words", words, {"which": WORDS}, {"bounds": "every text of the right length or of one character over the letters of the right one", "tier": "quick"}),
    ("status events", status, {"holder": "VEVENT", "n": 2}, {"bounds": "2 STATUS", "tier": "quick"}),
    ("status", status, {"holder": "VTODO", "n": 3}, {"bounds": "3 STATUS", "tier": "quick"}),
    ("status journals", status, {"holder": "VJOURNAL", "n": 2}, {"bounds": "2 STATUS", "tier": "quick"}),
    ("ends events", ends, {"holder": "VEVENT"}, {"bounds": "0 to 2 ends and lengths", "tier": "quick"}),
    ("ends to-dos", ends, {"holder": "VTODO"}, {"bounds": "0 to 2 ends and lengths", "tier": "quick"}),
    ("ends availability", ends, {"holder": "VAVAILABILITY"}, {"bounds": "0 to 2 ends and lengths", "tier": "quick"}),
    ("until other", until, {"kinds": ["date", "utc", "zone", "float"], "other": True}, {"bounds": "4 days of start, 6 of UNTIL, every hour, zones of three offsets", "tier": "quick"}),
    ("until same", until, {"kinds": ["date", "utc", "zone", "float"], "other": False}, {"bounds": "4 days of start, 6 of UNTIL, every hour, zones of three offsets", "tier": "quick"}),
]
