# Copies and equality of calendars, components, vCards and properties
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.parameter import Parameter
from pycalendar.plaintextvalue import PlainTextValue
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CardProperty


def text(c):
    return c.getText(includeTimezones=Calendar.NO_TIMEZONES) if isinstance(c, Calendar) else c.getText()


def tree(c):
    props = []
    for name in c.getProperties():
        for p in c.getProperties()[name]:
            params = {}
            for key in p.getParameters():
                params[key] = [(a.getName().upper(), list(a.getValues())) for a in p.getParameters()[key]]
            props.append((p.getGroup(), p.getName(), sorted(params.items()), p.getValue().getText()))
    return (c.getType(), sorted(props), sorted([tree(x) for x in c.getComponents()]))


ICAL = {
    "text": "SUMMARY;LANGUAGE=en:%s",
    "uri": "URL:a%s",
    "integer": "SEQUENCE:1%d",
    "date": "DTSTART;VALUE=DATE:202401%02d",
    "date-time": "DTSTART;TZID=A/B:202401%02dT000000",
    "utc": "DTSTAMP:202401%02dT000000Z",
    "duration": "DURATION:P%dDT1H",
    "period": "RDATE;VALUE=PERIOD:202401%02dT000000Z/PT1H,20240203T000000Z/20240204T000000Z",
    "dates": "EXDATE;VALUE=DATE:202401%02d,20240301",
    "recur": "RRULE:FREQ=MONTHLY;COUNT=%d;BYDAY=1MO,-1TU;BYMONTH=1,2",
    "until": "RRULE:FREQ=DAILY;UNTIL=202401%02dT000000Z",
    "offset": "TZOFFSETTO:+%02d00",
    "texts": "CATEGORIES:a%s,b",
    "status": "REQUEST-STATUS:2.0;a%s;x",
    "geo": "GEO:1.5;2.5",
    "address": "ATTENDEE;CN=\"a,b\";MEMBER=x,y:mailto:%s",
    "binary": "ATTACH;VALUE=BINARY;ENCODING=BASE64:QQ%s",
    "unknown": "X-A;VALUE=BOOLEAN:T%s",
}
CARD = {
    "n": "N:a%s,b;c",
    "adr": "g.ADR;TYPE=x,y:a%s;;b,c",
    "org": "ORG:a%s;b",
    "orgone": "ORG:a%s",
    "tel": "item1.TEL;HOME:1%s",
    "photo": "PHOTO;ENCODING=b:QQ%s",
    "bday": "BDAY:200001%02d",
    "rev": "REV:200001%02dT000000Z",
    "tz": "TZ:-%02d:00",
    "nick": "NICKNAME:a%s,b",
    "uri": "URL:%s",
}


def line(S, table, kind, name):
    t = table[kind]
    if "%02d" in t:
        return t % S.int(name, 1, 20)
    if "%d" in t:
        return t % S.int(name, 1, 9)
    if "%s" in t:
        return t % S.str(name, 0, 1, "ab")
    return t


def poke(v):
    """change a value in place, as far as it can be"""
    x = v.getValue()
    if isinstance(x, (str, tuple)):
        v.setValue(x + "z" if isinstance(x, str) else x + ("z",))
    elif isinstance(x, DateTime):
        x.offsetDay(3)
        x.setTimezoneID("Other")
    elif isinstance(x, Duration):
        x.setDuration(5)
    elif isinstance(x, list):
        if x and hasattr(x[0], "getValue"):
            poke(x[0])
            x.pop()
        else:
            x.append(x[0] if x else "z")
    elif hasattr(x, "getStart"):
        x.getStart().offsetDay(3)
    elif hasattr(x, "getByMonth"):
        if x.getUseUntil():
            x.getUntil().offsetDay(2)
        x.setCount(50)
        x.setUseCount(True)
        if x.getByDay():
            x.getByDay().pop()
        if x.getByMonth():
            x.getByMonth().append(7)
    elif hasattr(x, "_setItem"):
        x._setItem(0, "changed")
    else:
        v.setValue(x + 60)


def one(S, cls, table, kind):
    """a copy of a property equals it, and neither follows changes to the other"""
    l = line(S, table, kind, "v")
    p = cls.parseText(l)
    d = p.duplicate()
    S.check(d == p and not (d != p) and hash(d) == hash(p), "copy is equal")
    t = p.getText()
    S.check(d.getText() == t, "copy has the same text")
    S.check(d.getGroup() == p.getGroup() and d.getName() == p.getName(), "group and name")
    p = cls.parseText(l)
    d = p.duplicate()
    what = S.choice("what", ["value", "new value", "parameter", "parameter value", "remove parameter", "name"])
    target, other = S.choice("which", [(0, 1), (1, 0)])
    target, other = (p, d)[target], (p, d)[other]
    if what == "value":
        poke(target.getValue())
    elif what == "new value":
        target.mValue = PlainTextValue("zz")
    elif what == "parameter":
        target.addParameter(Parameter("X-P", "1"))
    elif what == "parameter value":
        for key in sorted(target.getParameters()):
            if target.getParameters()[key][0].getValues():
                target.getParameters()[key][0].addValue("zzz")
        target.addParameter(Parameter("X-P", "1"))
    elif what == "remove parameter":
        for key in sorted(target.getParameters()):
            target.removeParameters(key)
    else:
        target.setName("X-OTHER")
    S.check(other.getText() == t, "not changed with the other one")


def differ(S, cls, table, kind):
    """two properties are equal exactly when they say the same"""
    a = line(S, table, kind, "a")
    b = line(S, table, kind, "b")
    how = S.choice("how", ["same", "name", "parameter", "value"])
    if how == "parameter":
        at = b.index(":")
        b = b[:at] + ";X-Q=" + S.str("q", 1, 1, "ab") + b[at:]
        a = a[:a.index(":")] + ";X-Q=a" + a[a.index(":"):]
    p, q = cls.parseText(a), cls.parseText(b)
    if how == "name":
        q.setName("X-N")
        b = ""
    S.check((p == q) == (a == b), "equal exactly when the same")
    S.check((p != q) == (a != b), "and different when not")
    S.check((q == p) == (p == q), "both ways")
    if p == q:
        S.check(hash(p) == hash(q), "same hash")


def holder(lines):
    return Calendar.parseText("\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"] + lines + ["END:VCALENDAR"]) + "\r\n")


EVENT = ["BEGIN:VEVENT", "UID:u", "DTSTART:20240101T100000Z", "RRULE:FREQ=DAILY;COUNT=3", "EXDATE:20240102T100000Z", "BEGIN:VALARM", "ACTION:DISPLAY", "TRIGGER:-PT5M", "END:VALARM", "END:VEVENT"]
MOVED = ["BEGIN:VEVENT", "UID:u", "RECURRENCE-ID:20240103T100000Z", "DTSTART:20240103T120000Z", "DURATION:PT1H", "END:VEVENT"]
KINDS = {
    "VEVENT": EVENT + MOVED,
    "VTODO": ["BEGIN:VTODO", "UID:u", "DUE:20240101T100000Z", "STATUS:NEEDS-ACTION", "END:VTODO"],
    "VJOURNAL": ["BEGIN:VJOURNAL", "UID:u", "DTSTART;VALUE=DATE:20240101", "END:VJOURNAL"],
    "VFREEBUSY": ["BEGIN:VFREEBUSY", "UID:u", "DTSTART:20240101T100000Z", "FREEBUSY:20240101T100000Z/PT1H", "END:VFREEBUSY"],
    "VAVAILABILITY": ["BEGIN:VAVAILABILITY", "UID:u", "BEGIN:AVAILABLE", "UID:v", "DTSTART:20240101T100000Z", "END:AVAILABLE", "END:VAVAILABILITY"],
    "VTIMEZONE": ["BEGIN:VTIMEZONE", "TZID:z", "BEGIN:STANDARD", "DTSTART:19700101T000000", "TZOFFSETFROM:+0000", "TZOFFSETTO:+0100", "END:STANDARD", "END:VTIMEZONE"],
    "VPOLL": ["BEGIN:VPOLL", "UID:u", "DTSTAMP:20240101T100000Z", "BEGIN:VVOTER", "VOTER:mailto:x", "BEGIN:VOTE", "POLL-ITEM-ID:1", "END:VOTE", "END:VVOTER", "END:VPOLL"],
    "X-THING": ["BEGIN:X-THING", "X-A:1", "BEGIN:X-PART", "X-B:2", "END:X-PART", "END:X-THING"],
}


def every(c):
    found = []
    for x in c.getComponents():
        found.append(x)
        found.extend(every(x))
    return found


def change(S, c):
    """some change to a calendar"""
    parts = every(c)
    what = S.choice("what", ["add property", "remove property", "poke", "add to part", "remove part", "uid", "new part", "clear"])
    part = parts[S.conc(S.int("part", 0, len(parts) - 1))]
    if what == "add property":
        c.addProperty(Property("X-NEW", "1"))
    elif what == "remove property":
        c.removeProperties("PRODID")
    elif what == "poke":
        for name in sorted(part.getProperties()):
            poke(part.getProperties()[name][0].getValue())
    elif what == "add to part":
        part.addProperty(Property("COMMENT", "new"))
    elif what == "remove part":
        # the part itself, or everything in it
        for x in c.getComponents():
            if x is part:
                c.removeComponent(part)
                break
        else:
            for x in parts:
                for y in x.getComponents():
                    if y is part:
                        x.removeComponent(part)
    elif what == "uid":
        c.changeUID("u", "other")
    elif what == "new part":
        c.addComponent(holder(KINDS["VJOURNAL"]).getComponents()[0])
    else:
        c.removeAllComponent()


def calendars(S, kind):
    """a copy of a calendar equals it, and neither follows changes to the other"""
    TimezoneDatabase.clearTimezoneDatabase()
    c = holder(KINDS[kind])
    d = c.duplicate()
    S.check(d == c and not (d != c), "copy is equal")
    t = text(c)
    S.check(text(d) == t and tree(d) == tree(c), "copy has the same content")
    for x in every(d):
        S.check(x.getParentComponent() is not None, "parts have parents")
    for x, y in zip(every(c), every(d)):
        S.check(type(x) is type(y) and x.getMapKey() is not None, "same types")
    for x in d.getComponents():
        S.check(x.getParentComponent() is d, "parts belong to the copy")
    target, other = S.choice("which", [(0, 1), (1, 0)])
    target, other = (c, d)[target], (c, d)[other]
    change(S, target)
    S.check(text(other) == t, "not changed with the other one")
    S.check((target == other) == (tree(target) == tree(other)), "equal exactly when the same")
    TimezoneDatabase.clearTimezoneDatabase()


def pieces(S, name):
    """up to two small components with up to one property each"""
    lines = []
    for i in range(2):
        k = S.choice(name + "k%d" % i, ["", "X-A", "VTODO"])
        if k:
            lines += ["BEGIN:" + k, "UID:" + S.choice(name + "u%d" % i, ["a", "b"])]
            v = S.str(name + "v%d" % i, 0, 1, "xy")
            if v:
                lines.append("COMMENT:" + v)
            lines.append("END:" + k)
    return lines


def equality(S):
    c, d = holder(pieces(S, "a")), holder(pieces(S, "b"))
    same = tree(c) == tree(d)
    S.check((c == d) == same and (d == c) == same, "equal exactly when they hold the same")
    S.check((c != d) == (not same), "different when not")


def order(S):
    """the order of properties, parameters and components does not matter"""
    props = ["SUMMARY:a", "COMMENT:b", "COMMENT:" + S.choice("v", ["c", "d"]), "X-A;P=1;Q=2:e"]
    a = S.conc(S.int("a", 0, 3))
    b = S.conc(S.int("b", 0, 2))
    moved = list(props)
    moved.insert(b, moved.pop(a))
    params = S.choice("params", [";Q=2;P=1", ";P=1;Q=2"])
    moved = [p.replace(";P=1;Q=2", params) for p in moved]
    first = [["BEGIN:VTODO", "UID:1"] + props + ["END:VTODO"], ["BEGIN:VTODO", "UID:2"] + ["END:VTODO"], ["BEGIN:X-A"] + props[1:] + ["END:X-A"]]
    second = [["BEGIN:VTODO", "UID:1"] + moved + ["END:VTODO"], first[1], ["BEGIN:X-A"] + props[1:][::-1] + ["END:X-A"]]
    second.insert(S.conc(S.int("c", 0, 2)), second.pop(S.conc(S.int("d", 0, 2))))
    c = holder(first[0] + first[1] + first[2])
    d = holder(second[0] + second[1] + second[2])
    S.check(c == d and d == c and not (c != d), "equal in any order")


def cards(S):
    """vCards: copies and equality"""
    k1 = S.choice("k1", sorted(CARD))
    k2 = S.choice("k2", ["tel", "n", "org"])
    l1, l2 = line(S, CARD, k1, "v1"), line(S, CARD, k2, "v2")
    S.assume(l1 != l2)
    c = Card.parseText("\r\n".join(["BEGIN:VCARD", "VERSION:3.0", l1, l2, "END:VCARD"]) + "\r\n")
    e = Card.parseText("\r\n".join(["BEGIN:VCARD", "VERSION:3.0", l2, l1, "END:VCARD"]) + "\r\n")
    d = Card()
    d = c.duplicate()
    t = text(c)
    S.check(e == c and d == c and not (d != c), "equal")
    S.check(text(d) == t, "same text")
    target, other = S.choice("which", [(0, 1), (1, 0)])
    target, other = (c, d)[target], (c, d)[other]
    what = S.choice("what", ["poke", "add", "remove", "group"])
    if what == "poke":
        for name in sorted(target.getProperties()):
            if name != "VERSION":
                poke(target.getProperties()[name][0].getValue())
    elif what == "add":
        target.addProperty(CardProperty(name="X-NEW", value="1"))
    elif what == "remove":
        target.removeProperties("VERSION")
    else:
        for name in sorted(target.getProperties()):
            target.getProperties()[name][0].setGroup("zz")
    S.check(text(other) == t, "not changed with the other one")
    S.check(target != other and not (target == other), "now different")


HARNESSES = [
    ("equality", equality, {}, {"bounds": "two calendars of 0..2 components of 2 types, 2 UIDs, comments of 0..1 characters"}),
    ("order", order, {}, {"bounds": "one of 4 properties and one of 3 components moved anywhere, 2 orders of parameters"}),
    ("cards", cards, {}, {"bounds": "vCards with one of 11 and one of 3 symbolic properties, 4 changes to either side"}),
]
for _k in sorted(ICAL):
    HARNESSES.append(("one_" + _k, one, {"cls": Property, "table": ICAL, "kind": _k}, {"bounds": "one property, symbolic value, 6 changes to either side"}))
    HARNESSES.append(("differ_" + _k, differ, {"cls": Property, "table": ICAL, "kind": _k}, {"bounds": "two properties with symbolic values, differing or not in name, parameter or value"}))
for _k in sorted(CARD):
    HARNESSES.append(("card_" + _k, one, {"cls": CardProperty, "table": CARD, "kind": _k}, {"bounds": "one vCard property, symbolic value, 6 changes to either side"}))
    HARNESSES.append(("card_differ_" + _k, differ, {"cls": CardProperty, "table": CARD, "kind": _k}, {"bounds": "two vCard properties with symbolic values, differing or not in name, parameter or value"}))
for _k in sorted(KINDS):
    HARNESSES.append(("calendar_" + _k, calendars, {"kind": _k}, {"bounds": "a calendar with " + _k + " and its parts, 8 changes to any part of either side"}))
ASSUMPTIONS = ["properties repeated with exactly the same content count once in comparisons and are not covered"]
