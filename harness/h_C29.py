# Calendars whose components come, go, and change their UID
import json
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property

ZONE = ["BEGIN:VTIMEZONE", "TZID:zone", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0200", "TZOFFSETTO:+0200", "END:STANDARD", "END:VTIMEZONE"]


def wrap(lines):
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y"] + lines + ["END:VCALENDAR", ""])


def master(uid, name):
    return ["BEGIN:VEVENT", "UID:" + uid, "DTSTAMP:20240101T000000Z", "SUMMARY:" + name, "DTSTART:20240105T100000Z", "DURATION:PT1H", "RRULE:FREQ=DAILY;COUNT=3", "END:VEVENT"]


def override(uid, name, n, hour, rng=""):
    return ["BEGIN:VEVENT", "UID:" + uid, "DTSTAMP:20240101T000000Z", "SUMMARY:" + name, "RECURRENCE-ID%s:202401%02dT100000Z" % (rng, 5 + n), "DTSTART:202401%02dT%02d0000Z" % (5 + n, hour),
            "DURATION:PT2H", "END:VEVENT"]


def todo(uid, name):
    return ["BEGIN:VTODO", "UID:" + uid, "DTSTAMP:20240101T000000Z", "SUMMARY:" + name, "DTSTART:20240105T100000Z", "DUE:20240106T100000Z", "END:VTODO"]


def one(lines, parent):
    return Calendar.parseText(wrap(lines)).getComponents()[0].duplicate(parent)


def listed(cal, lo, hi):
    got = []
    cal.getVEvents(Period(DateTime(2024, 1, lo, 0, 0, 0, tzid=Timezone(utc=True)), DateTime(2024, 1, hi, 0, 0, 0, tzid=Timezone(utc=True))), got)
    return sorted([(x.getInstanceStart().getPosixTime(), x.getInstanceEnd().getPosixTime(), x.getOwner().getSummary(), x.recurring()) for x in got])


def told(cal, uid):
    ids = []
    cal.getRecurrenceInstancesIds("VEVENT", uid, ids)
    items = []
    cal.getRecurrenceInstancesItems("VEVENT", uid, items)
    return (sorted([x.getText() for x in ids]), sorted([x.getSummary() for x in items]))


def lookups(cal):
    return sorted([(c.getUID(), c.getSummary(), cal.getComponentByKey(c.getMapKey()) is not None) for c in cal.getComponents() if c.getType() != "VTIMEZONE"])


def history(S, steps, ops, uids, lo, hi, first=()):
    """whatever was done to it, a calendar answers like one read from its own text"""
    TimezoneDatabase.clearTimezoneDatabase()
    cal = Calendar.parseText(wrap([l for f in first for l in f]))
    hour = S.int("hour", 0, 22)
    # what it should hold: [(uid, name)]
    model = sorted([(f[1][4:], f[3][8:]) for f in first])
    for k in range(steps):
        op = S.choice("op%d" % k, ops)
        u = S.choice("uid%d" % k, uids)
        name = "%s%d" % (op, k)
        if op == "master":
            cal.addComponent(one(master(u, name), cal))
            model.append((u, name))
        elif op == "override":
            cal.addComponent(one(override(u, name, S.choice("n%d" % k, [0, 2]), hour), cal))
            model.append((u, name))
        elif op == "range":
            cal.addComponent(one(override(u, name, 1, hour, ";RANGE=THISANDFUTURE"), cal))
            model.append((u, name))
        elif op == "todo":
            cal.addComponent(one(todo(u, name), cal))
            model.append((u, name))
        elif op == "remove":
            comps = [c for c in cal.getComponents() if c.getUID() == u]
            if comps:
                cal.removeComponent(comps[-1])
                model.remove((u, comps[-1].getSummary()))
        elif op == "key":
            comps = [c for c in cal.getComponents() if c.getUID() == u]
            if comps:
                cal.removeComponentByKey(comps[0].getMapKey())
                model.remove((u, comps[0].getSummary()))
        elif op == "clear":
            cal.removeAllComponent()
            model = []
        elif op == "clear_events":
            cal.removeAllComponent("VEVENT")
            model = [m for m in model if m[1][:4] == "todo"]
        elif op == "rename":
            v = S.choice("to%d" % k, uids)
            cal.changeUID(u, v)
            model = [(v if m[0] == u else m[0], m[1]) for m in model]
        elif op == "copy":
            cal = cal.duplicate()
        elif op == "look":
            listed(cal, lo, hi)
    S.check(sorted([(c.getUID(), c.getSummary()) for c in cal.getComponents()]) == sorted(model), "what the calendar holds")
    again = Calendar.parseText(cal.getText())
    S.check(sorted([(c.getUID(), c.getSummary()) for c in again.getComponents()]) == sorted(model), "what its text holds")
    S.check(listed(cal, lo, hi) == listed(again, lo, hi), "instances")
    for u in uids:
        S.check(told(cal, u) == told(again, u), "overrides of a UID")
    S.check(lookups(cal) == lookups(again), "components by key")


KINDS = {"utc": ":%sZ", "floating": ":%s", "zone": ";TZID=zone:%s", "date": ";VALUE=DATE:%s"}


def event_time(kind, day, mins):
    t = "202401%02d" % day
    if kind != "date":
        t += "T%02d%02d00" % (mins // 60, mins % 60)
    return KINDS[kind] % t


def posix(kind, day, mins):
    return DateTime(2024, 1, day, 0, 0, 0, tzid=Timezone(utc=True)).getPosixTime() + (0 if kind == "date" else mins * 60 - (7200 if kind == "zone" else 0))


def derive(S, kind, how, ctypes, ridkinds):
    """a component derived for one instance is that instance, and putting it in place changes no times"""
    TimezoneDatabase.clearTimezoneDatabase()
    ctype = S.choice("ctype", ctypes)
    mins = 0 if kind == "date" else 60 * S.int("h", 3, 18)
    size = S.int("len", 1, 3) * (1440 if kind == "date" else 45)
    n = S.conc(S.int("n", 0, 2))
    end = {"end": [("DTEND" if ctype == "VEVENT" else "DUE") + event_time(kind, 5 + (size // 1440 if kind == "date" else 0), mins + size)],
           "duration": ["DURATION:P%dD" % (size // 1440) if kind == "date" else "DURATION:PT%dM" % size], "none": []}[how]
    if ctype == "VJOURNAL":
        S.assume(how == "none")
    if ctype == "VEVENT" and how == "none":
        size = 1440 if kind == "date" else 0
    extra = ["LOCATION:here", "X-A;B=c:d"]
    cal = Calendar.parseText(wrap(ZONE + ["BEGIN:" + ctype, "UID:a", "DTSTAMP:20240101T000000Z", "DTSTART" + event_time(kind, 5, mins)] + end + extra +
                                  ["RRULE:FREQ=DAILY;COUNT=3", "EXDATE" + event_time(kind, 20, mins), "RDATE" + event_time(kind, 9, mins), "BEGIN:VALARM", "ACTION:AUDIO", "TRIGGER:-PT5M",
                                   "END:VALARM", "END:" + ctype]))
    day = [5, 6, 9][n]
    rk = S.choice("rk", ridkinds)
    if rk == "utc" and kind == "zone":
        rid = DateTime(2024, 1, day, 0, 0, 0, tzid=Timezone(utc=True))
        rid.offsetMinutes(mins - 120)
    elif kind == "date":
        rid = DateTime(2024, 1, day)
    else:
        rid = DateTime(2024, 1, day, 0, 0, 0, tzid={"utc": Timezone(utc=True), "floating": None, "zone": Timezone(utc=False, tzid="zone")}[kind])
        rid.offsetMinutes(mins)
    ridtext = rid.getText()
    before = listed(cal, 4, 15) if ctype == "VEVENT" else None
    text = str(cal)
    new = cal.deriveComponent(rid)
    S.check(str(cal) == text, "the calendar is as before")
    S.check(rid.getText() == ridtext, "and so is what was asked for")
    S.check(new.getType() == ctype, "type")
    S.check(new.getStart().getPosixTime() == posix(kind, day, mins), "start")
    S.check(new.getStart().isDateOnly() == (kind == "date"), "kind of start")
    S.check(new.getStart().getTimezoneID() == ("zone" if kind == "zone" else None), "zone of start")
    if how != "none" or ctype == "VEVENT":
        S.check(new.getEnd().getPosixTime() - new.getStart().getPosixTime() == size * 60, "length")
    S.check(new.getRecurrenceID().getPosixTime() == posix(kind, day, mins), "recurrence id")
    S.check(new.isRecurrenceInstance() and new.getRecurrenceSet() is None, "one instance")
    S.check(new.getUID() == "a" and new.getLocation() == "here" and len(new.getComponents("VALARM")) == 1, "the rest")
    names = set(new.getProperties())
    allowed = {"VEVENT": ["DTEND", "DURATION"], "VTODO": ["DUE", "DURATION"], "VJOURNAL": []}[ctype]
    S.check(names - set(allowed) == set(["UID", "DTSTAMP", "DTSTART", "LOCATION", "X-A", "RECURRENCE-ID"]), "properties")
    for p in sorted(names):
        S.check(new.countProperty(p) == 1, "each once")
    S.check(len(names & set(allowed)) <= 1, "one of end and length")
    if ctype == "VEVENT":
        cal.addComponent(new)
        after = listed(cal, 4, 15)
        S.check([x[:3] for x in after] == [x[:3] for x in before], "the same times")
        again = Calendar.parseText(cal.getText())
        S.check(listed(again, 4, 15) == after, "and in the text")


def derive_across(S):
    """a component derived in a zone whose offset changes lasts as long as the one it is derived from"""
    TimezoneDatabase.clearTimezoneDatabase()
    after = S.choice("after", [1, 3])
    ctype = S.choice("ctype", ["VEVENT", "VTODO"])

    def utc(day, hour):
        # (two hours ahead until 02:00 on the 7th)
        return day * 24 + hour - (2 if day < 7 or day == 7 and hour < 2 else after)

    h = S.int("h", 4, 23)
    e = S.int("e", 3, 30)
    S.assume(e >= h and (e < 24 or e >= 27))
    n = S.conc(S.int("n", 0, 4))
    first = S.conc(S.int("first", 5, 7))
    eday = first + (1 if e >= 24 else 0)
    ehour = e - (24 if e >= 24 else 0)
    zone = ["BEGIN:VTIMEZONE", "TZID:zone", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0200", "TZOFFSETTO:+0200", "END:STANDARD",
            "BEGIN:DAYLIGHT", "DTSTART:20240107T020000", "TZOFFSETFROM:+0200", "TZOFFSETTO:+0%d00" % after, "END:DAYLIGHT", "END:VTIMEZONE"]
    cal = Calendar.parseText(wrap(zone + ["BEGIN:" + ctype, "UID:a", "DTSTAMP:20240101T000000Z", "DTSTART" + event_time("zone", first, h * 60), ("DTEND" if ctype == "VEVENT" else "DUE") + event_time("zone", eday, ehour * 60),
                                  "RRULE:FREQ=DAILY;COUNT=5", "END:" + ctype]))
    rid = DateTime(2024, 1, first + n, h, 0, 0, tzid=Timezone(utc=False, tzid="zone"))
    size = utc(eday, ehour) - utc(first, h)
    ends = utc(first + n, h) + size
    # the second of the hours that happen twice cannot be told
    S.assume(after == 3 or ends < 7 * 24 or ends >= 7 * 24 + 1)
    new = cal.deriveComponent(rid)
    zero = DateTime(2024, 1, 1, 0, 0, 0, tzid=Timezone(utc=True)).getPosixTime() - 24 * 3600
    S.check(new.getStart().getPosixTime() - zero == utc(first + n, h) * 3600 and new.getStart().getTimezoneID() == "zone", "it starts by the clock of its zone")
    S.check(new.getEnd().getPosixTime() - zero == ends * 3600 and new.getEnd().getTimezoneID() == "zone", "it lasts exactly as long")


def no_master(S):
    """there is nothing to derive from without a master"""
    TimezoneDatabase.clearTimezoneDatabase()
    cal = Calendar.parseText(wrap(override("a", "x", 1, S.int("h", 0, 22))))
    S.check(cal.masterComponent() is None, "no master")
    S.check(cal.deriveComponent(DateTime(2024, 1, 5, 10, 0, 0, tzid=Timezone(utc=True))) is None, "nothing derived")
    cal.addComponent(one(master("a", "m"), cal))
    S.check(cal.masterComponent().getSummary() == "m", "master")


def new_uid(S):
    """generated UIDs differ and are what the component then says"""
    TimezoneDatabase.clearTimezoneDatabase()
    cal = Calendar.parseText(wrap(master("a", "m") + todo("b", "t")))
    seen = []
    h = S.int("h", 0, 22)
    cal.addComponent(one(override("a", "o", 1, h), cal))
    for c in cal.getComponents():
        c.setUID("" if S.bool("empty%d" % len(seen)) else "x%d" % len(seen))
        S.check(len(c.getUID()) > 0 and c.getUID() not in seen, "a UID of its own")
        S.check(c.getPropertyString("UID") == c.getUID() and c.countProperty("UID") == 1, "in the text")
        seen.append(c.getUID())


A = master("a", "A")
AO = override("a", "AO", 1, 12)
B = master("b", "B")
BO = override("b", "BO", 2, 3)
ALL = ["master", "override", "range", "todo", "remove", "key", "clear", "clear_events", "rename", "copy", "look"]
HARNESSES = [
    ("history", history, {"steps": 2, "ops": ALL, "uids": ["a", "b"], "lo": 4, "hi": 12, "first": [A, AO]}, {"bounds": "any two steps from a master with an override", "tier": "quick"}),
    ("history_two", history, {"steps": 2, "ops": ["override", "remove", "key", "rename", "master"], "uids": ["a", "b", "c"], "lo": 4, "hi": 12, "first": [A, AO, B, BO]},
     {"bounds": "any two steps from two masters with overrides", "tier": "quick"}),
    ("no_master", no_master, {}, {"bounds": "", "tier": "quick"}),
    ("new_uid", new_uid, {}, {"bounds": "", "tier": "quick"}),
    ("history_deep", history, {"steps": 3, "ops": ["master", "override", "range", "remove", "clear", "rename", "copy"], "uids": ["a", "b"], "lo": 4, "hi": 12, "first": [A, AO]},
     {"bounds": "any three of seven steps", "tier": "thorough"}),
]
for kind in ["utc", "floating", "zone", "date"]:
    for how in ["end", "duration", "none"]:
        HARNESSES.append(("derive_%s_%s" % (kind, how), derive, {"kind": kind, "how": how, "ctypes": ["VEVENT", "VTODO", "VJOURNAL"], "ridkinds": ["same", "utc"] if kind == "zone" else ["same"]},
                          {"bounds": "any of three instances, 16 hours, three lengths", "tier": "quick"}))
HARNESSES.append(("derive_across", derive_across, {}, {"bounds": "events and to-dos from any hour to any later one of that or the next day, five instances, in a zone that goes an hour on or back on one of the days", "tier": "quick"}))


def shown(c, names):
    return [(n, c.hasProperty(n), c.countProperty(n), [x.getText() for x in c.getProperties(n)], c.findFirstProperty(n) is None) for n in names]


def properties(S, n, on):
    """what a component says it has after properties were added and removed"""
    TimezoneDatabase.clearTimezoneDatabase()
    cal = Calendar.parseText(wrap(["X-B:0", "BEGIN:VEVENT", "UID:a", "DTSTAMP:20240101T000000Z", "x-a:1", "END:VEVENT"]))
    c = cal if on == "calendar" else cal.getComponents("VEVENT")[0]
    have = [(p.getName(), p.getValue().getValue()) for name in ("X-A", "X-B") for p in c.getProperties(name)]
    names = ["X-A", "x-a", "X-b"]
    for i in range(n):
        t = str(i)
        how = S.choice("how" + t, ["add", "remove", "removeall"])
        name = S.choice("name" + t, names)
        if how == "add":
            v = S.choice("value" + t, ["1", "2"])
            c.addProperty(Property(name, v))
            have.append((name, v))
        elif how == "remove":
            p = c.findFirstProperty(name)
            mine = [x for x in have if x[0].upper() == name.upper()]
            S.check((p is None) == (not mine), "found when it has one")
            if p is not None:
                S.check((p.getName(), p.getValue().getValue()) == mine[0], "the first one is found")
                c.removeProperty(p)
                have.remove(mine[0])
        else:
            c.removeProperties(name)
            have = [x for x in have if x[0].upper() != name.upper()]
    for name in names + ["x-B"]:
        mine = [x[0] + ":" + x[1] + "\r\n" for x in have if x[0].upper() == name.upper()]
        S.check([x.getText() for x in c.getProperties(name)] == mine and c.countProperty(name) == len(mine) and c.hasProperty(name) == (len(mine) > 0), "a component has what was added and not removed")
    S.check(sorted(c.getProperties().keys()) == sorted(set([x[0].upper() for x in have] + (["VERSION", "PRODID"] if on == "calendar" else ["UID", "DTSTAMP"]))), "and nothing else")
    again = Calendar.parseText(str(cal))
    d = again if on == "calendar" else again.getComponents("VEVENT")[0]
    S.check(shown(c, names) == shown(d, names), "as its text has")
    S.check(again == cal, "equal to its text")


for on in ("calendar", "event"):
    HARNESSES.append(("properties_" + on, properties, {"n": 3, "on": on}, {"bounds": "three additions or removals of properties of two names in either case", "tier": "quick"}))
    HARNESSES.append(("properties_more_" + on, properties, {"n": 4, "on": on}, {"bounds": "four additions or removals of properties of two names in either case", "tier": "thorough"}))
