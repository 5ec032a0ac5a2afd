# The time zone database: which file is read for a TZID, and what is kept
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from fakefs import Files


def names(p):
    """the directories a path goes through, and whether it leaves where it started"""
    out = []
    for c in p.split("/"):
        if c == "" or c == ".":
            continue
        if c == "..":
            if len(out) == 0 and p[:1] != "/":
                return None
            if out:
                out.pop()
        else:
            out.append(c)
    return out


def contained(S, dbpath, inside, minlen, maxlen, alphabet):
    """no TZID makes the database read a file outside its directory, and every name inside it is read"""
    files = Files(None)
    files.install()
    TimezoneDatabase.createTimezoneDatabase(dbpath)
    tzid = S.str("tzid", minlen, maxlen, alphabet)
    S.check(TimezoneDatabase.getTimezone(tzid) is None, "no such zone")
    for p in files.opened:
        where = names(p)
        S.check(where is not None and where[:len(inside)] == inside and len(where) > len(inside), "the file read is inside the directory")
    plain = True
    for c in tzid.split("/"):
        if c == "" or c == "." or c == "..":
            plain = False
    if plain:
        S.check(len(files.opened) == 1, "one file read")
        S.check(names(files.opened[0]) == inside + (tzid + ".ics").split("/"), "the file of that name")
    S.observe(len(files.opened))


def zone_text(tzid, hours):
    return "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x//y", "BEGIN:VTIMEZONE", "TZID:" + tzid, "BEGIN:STANDARD", "DTSTART:20000101T000000",
                        "TZOFFSETFROM:+0000", "TZOFFSETTO:+%02d00" % hours, "END:STANDARD", "END:VTIMEZONE", "END:VCALENDAR", ""])


BROKEN = "BEGIN:VCALENDAR\nVERSION:2.0\nBEGIN:VTIMEZONE\nBEGIN:STANDARD\nDTSTART:what\nEND:VTIMEZONE\n"
FILES = {"/zi/A.ics": zone_text("A", 1), "/zi/D/B.ics": zone_text("D/B", 2), "/zi/W.ics": zone_text("Other", 3), "/zi/V.ics": zone_text("v", 3), "/zi/K.ics": BROKEN, "/zj/O.ics": zone_text("O", 4)}
HOURS = {"A": 1, "D/B": 2}
IDS = ["A", "D/B", "W", "V", "K", "N", "../zj/O"]


def at(S):
    return DateTime(2011, 2, 3, S.int("h", 0, 23), 0, 0)


def states(S, steps, ids, ops):
    """any sequence of questions, merges and clears"""
    files = Files(FILES)
    files.install()
    TimezoneDatabase.createTimezoneDatabase("/zi")
    known = {}
    std = []
    clears = 0
    for k in range(steps):
        op = S.choice("op%d" % k, ops)
        i = S.choice("id%d" % k, ids)
        if op == "clear":
            TimezoneDatabase.clearTimezoneDatabase()
            known = {}
            std = []
            clears += 1
            continue
        if i not in known and i in HOURS:
            known[i] = HOURS[i]
            std.append(i)
        if op == "merge" or op == "text":
            h = 5 + k
            cal = Calendar.parseText(zone_text(i, h))
            if i not in known:
                known[i] = h
            if op == "text":
                S.check(cal.getTimezone(i).getTimezoneOffsetSeconds(DateTime(2011, 1, 1, 0, 0, 0)) == h * 3600, "the calendar's own definition")
        elif op == "offset":
            S.check(TimezoneDatabase.getTimezoneOffsetSeconds(i, DateTime(2011, 2, 3, 4, 5, 6)) == known.get(i, 0) * 3600, "offset")
        elif op == "standard":
            S.check(TimezoneDatabase.isStandardTimezone(i) == (i in std), "standard")
        elif op == "copy":
            cal = TimezoneDatabase.getTimezoneInCalendar(i)
            S.check((cal is not None) == (i in known), "calendar of the zone")
            if cal is not None:
                cal.getTimezone(i).removeProperties("TZID")
        else:
            tz = TimezoneDatabase.getTimezone(i)
            S.check((tz is not None) == (i in known), "found")
            if tz is not None:
                S.check(tz.getID() == i, "its name")
                S.check(tz.getPropertyString("TZID") == i, "its TZID")
                S.check(TimezoneDatabase.getTimezone(i) is tz, "the same each time")
    h = S.int("h", 0, 23)
    for i in ids:
        exp = known.get(i, HOURS.get(i, 0))
        dt = DateTime(2011, 2, 3, h, 0, 0, tzid=Timezone(utc=False, tzid=i))
        S.check(dt.getPosixTime() == DateTime(2011, 2, 3, h, 0, 0, tzid=Timezone(utc=True)).getPosixTime() - exp * 3600, "times of the zone")
        S.check(TimezoneDatabase.isStandardTimezone(i) == (i in std or i not in known and i in HOURS), "standard in the end")
    for p in files.opened:
        S.check(p[:4] == "/zi/", "inside the directory")
    S.check(len(files.opened) <= len(ids) * (1 + clears), "each file read once")


def appears(S):
    """a zone whose file comes (or goes) later: clearing forgets what was known"""
    f = {"/zi/A.ics": zone_text("A", 1)}
    if S.bool("first"):
        f["/zi/N.ics"] = zone_text("N", 2)
    files = Files(f)
    files.install()
    TimezoneDatabase.createTimezoneDatabase("/zi")
    for k in range(2):
        op = S.choice("op%d" % k, ["get", "offset", "standard", "merge", "nothing"])
        if op == "get":
            TimezoneDatabase.getTimezone("N")
        elif op == "offset":
            TimezoneDatabase.getTimezoneOffsetSeconds("N", DateTime(2011, 2, 3, 4, 5, 6))
        elif op == "standard":
            TimezoneDatabase.isStandardTimezone("N")
        elif op == "merge":
            Calendar.parseText(zone_text("N", 7))
    then = S.bool("then")
    f = {"/zi/A.ics": zone_text("A", 1)}
    if then:
        f["/zi/N.ics"] = zone_text("N", 3)
    files = Files(f)
    files.install()
    TimezoneDatabase.clearTimezoneDatabase()
    if S.bool("ask"):
        S.check((TimezoneDatabase.getTimezone("N") is not None) == then, "found after clearing")
    S.check(TimezoneDatabase.isStandardTimezone("N") == then, "standard after clearing")
    S.check(TimezoneDatabase.getTimezoneOffsetSeconds("N", DateTime(2011, 2, 3, S.int("h", 0, 23), 0, 0)) == (10800 if then else 0), "offset after clearing")


ALL = ["merge", "text", "offset", "standard", "copy", "get", "clear"]

HARNESSES = [
    ("contained", contained, {"dbpath": "/a", "inside": ["a"], "minlen": 1, "maxlen": 7, "alphabet": "./a"}, {"bounds": "names of 1 to 7 characters of . / a, directory /a", "tier": "quick"}),
    ("contained_slash", contained, {"dbpath": "/b/a/", "inside": ["b", "a"], "minlen": 1, "maxlen": 6, "alphabet": "./a"}, {"bounds": "names of 1 to 6 characters of . / a, directory /b/a/", "tier": "quick"}),
    ("contained_any", contained, {"dbpath": "/a", "inside": ["a"], "minlen": 1, "maxlen": 4, "alphabet": "./a-_ :\\%\n"}, {"bounds": "names of 1 to 4 characters of ./a-_ :\\% and line feed", "tier": "quick"}),
    ("states", states, {"steps": 2, "ids": IDS, "ops": ALL}, {"bounds": "any two operations on seven names", "tier": "quick"}),
    ("states_three", states, {"steps": 3, "ids": ["A", "N"], "ops": ALL}, {"bounds": "any three operations on two names", "tier": "quick"}),
    ("appears", appears, {}, {"bounds": "any two questions before clearing, files that come, go or change", "tier": "quick"}),
    ("contained_deep", contained, {"dbpath": "/a", "inside": ["a"], "minlen": 8, "maxlen": 9, "alphabet": "./a"}, {"bounds": "names of 8 to 9 characters of . / a", "tier": "thorough"}),
    ("states_deep", states, {"steps": 3, "ids": IDS, "ops": ALL}, {"bounds": "any three operations on seven names", "tier": "thorough"}),
]
