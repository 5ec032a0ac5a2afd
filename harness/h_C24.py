ASSUMPTIONS = ["zones have one offset", "an all day event is edited to whole days; ends are after starts; a DTSTART or end that is edited is a time of the same kind as before or any other",
               "editing the recurrence set uses rules, dates and two periods; the changes to excludeFutureRecurrence, editTiming and sequence numbers of iTIP are left out"]
# What components answer about their text, and that editing keeps the two in step
import pycalendar.datetime as datetimes
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.icalendar import definitions
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase

ZONE = "BEGIN:VTIMEZONE\r\nTZID:zone\r\nBEGIN:STANDARD\r\nDTSTART:20200101T000000\r\nTZOFFSETFROM:-0500\r\nTZOFFSETTO:-0500\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n"
KINDS = ["date", "utc", "zone", "float"]


class Moment(object):
    tm_year, tm_mon, tm_mday, tm_hour, tm_min, tm_sec = 2024, 5, 6, 7, 8, 9


class Clock(object):
    """the time it is"""

    def time(self):
        return 1

    def gmtime(self, t):
        return Moment()

    localtime = gmtime


datetimes.time = Clock()


def read(text):
    TimezoneDatabase.clearTimezoneDatabase()
    return Calendar.parseText(text)


def calendar(lines, zone=True):
    return "BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//x\r\n" + (ZONE if zone else "") + "".join([l + "\r\n" for l in lines]) + "END:VCALENDAR\r\n"


def stamp(kind, mins):
    """text of a time so many minutes after 1 March 2024"""
    d = mins // 1440
    t = "202403%02d" % (d + 1)
    if kind == "date":
        return t
    m = mins - d * 1440
    return t + "T%02d%02d00" % (m // 60, m % 60) + ("Z" if kind == "utc" else "")


def prop(name, kind, mins, more=""):
    return name + more + (";VALUE=DATE" if kind == "date" else "") + (";TZID=zone" if kind == "zone" else "") + ":" + stamp(kind, mins)


def moment(kind, mins):
    d = mins // 1440
    if kind == "date":
        return DateTime(2024, 3, d + 1)
    m = mins - d * 1440
    return DateTime(2024, 3, d + 1, m // 60, m % 60, 0, tzid={"utc": Timezone(utc=True), "zone": Timezone(tzid="zone"), "float": None}[kind])


def same(x, kind, mins):
    """is the time that one of that kind"""
    return (x.getText() == stamp(kind, mins) and x.isDateOnly() == (kind == "date") and (kind == "date" or x.getTimezoneID() == {"zone": "zone", "utc": "UTC"}.get(kind)
            or kind == "utc" and x.getTimezoneUTC()))


def first(cal, name):
    return [c for c in cal.getComponents() if c.getType() == name][0]


def cased(S, v, name):
    """a word in capital, small or mixed letters"""
    how = S.choice(name, ["upper", "lower", "mixed"])
    return {"upper": v, "lower": v.lower(), "mixed": v[:1] + v[1:].lower()}[how]


STATES = {
    "VEVENT": [("", definitions.eStatus_VEvent_None), ("TENTATIVE", definitions.eStatus_VEvent_Tentative), ("CONFIRMED", definitions.eStatus_VEvent_Confirmed),
               ("CANCELLED", definitions.eStatus_VEvent_Cancelled), ("OTHER", definitions.eStatus_VEvent_None)],
    "VTODO": [("", definitions.eStatus_VToDo_None), ("NEEDS-ACTION", definitions.eStatus_VToDo_NeedsAction), ("COMPLETED", definitions.eStatus_VToDo_Completed),
              ("IN-PROCESS", definitions.eStatus_VToDo_InProcess), ("CANCELLED", definitions.eStatus_VToDo_Cancelled), ("OTHER", definitions.eStatus_VToDo_None)],
}


def times(S, type):
    """what a component answers about its times"""
    kind = S.choice("kind", KINDS)
    start = S.int("day", 0, 3) * 1440 + (0 if kind == "date" else S.int("minute", 0, 1439))
    lines = ["BEGIN:" + type, "UID:u", "DTSTAMP:20240101T000000Z"]
    lines.append(prop("DTSTART", kind, start))
    ends = S.choice("ends", ["", "end", "days", "length"] if type != "VJOURNAL" else [""])
    end = start + (1440 if kind == "date" else 0)
    okind = kind
    if ends == "end":
        okind = kind if kind == "date" else S.choice("endkind", KINDS[1:])
        end = start + S.int("extra", 1, 3) * (1440 if kind == "date" else 61)
        lines.append(prop("DUE" if type == "VTODO" else "DTEND", okind, end))
    elif ends == "days":
        n = S.int("length", 1, 9)
        lines.append("DURATION:P%dD" % n)
        end = start + n * 1440
    elif ends == "length":
        S.assume(kind != "date")
        n = S.int("length", 0, 99)
        lines.append("DURATION:PT%dM" % n)
        end = start + n
    lines.append("END:" + type)
    S.observe(lines[-2])
    c = first(read(calendar(lines)), type)
    S.check(c.hasStart() and same(c.getStart(), kind, start), "the start is DTSTART")
    if type == "VTODO":
        S.check(c.hasEnd() == (ends != ""), "a to-do has an end when it has DUE or DURATION")
    else:
        S.check(c.hasEnd() == (ends == "end"), "an event has an end of its own when it has DTEND")
    if ends or type != "VTODO":
        S.check(same(c.getEnd(), okind, end), "the end is DTEND or DUE, or the start and DURATION, or that of the day or moment of the start")
    S.check(c.getStamp().getText() == "20240101T000000Z" and c.hasStamp(), "the stamp is DTSTAMP")


def facts(S, type):
    """other things a component answers"""
    lines = ["BEGIN:" + type, "UID:" + S.str("uid", 1, 2, "aB:")]
    status, want = S.choice("status", STATES[type])
    if status:
        lines.append("STATUS:" + cased(S, status, "case"))
    seq = S.int("sequence", 0, 99)
    lines.append("SEQUENCE:%d" % seq)
    summary = S.str("summary", 0, 2, "aB:")
    lines.append("SUMMARY:" + summary)
    if type == "VTODO":
        prio = S.int("priority", 0, 9)
        lines.append("PRIORITY:%d" % prio)
        done = S.bool("completed")
        if done:
            lines.append(prop("COMPLETED", "utc", S.int("done", 0, 1439)))
    range = S.choice("range", ["", "none", "THISANDFUTURE", "THISANDPRIOR"])
    if range:
        lines.append(prop("RECURRENCE-ID", "utc", S.int("rid", 0, 1439), "" if range == "none" else ";RANGE=" + cased(S, range, "rcase")))
    lines.append("END:" + type)
    c = first(read(calendar(lines, False)), type)
    S.check(c.getUID() == lines[1][4:], "the UID is UID")
    S.check(c.getStatus() == want, "the status is that of STATUS, in letters of any case")
    S.check(c.getSeq() == seq and c.getOriginalSeq() == seq, "the sequence number is SEQUENCE")
    S.check(c.getSummary() == summary, "the summary is SUMMARY")
    S.check((c.getDescription(), c.getLocation()) == ("", ""), "no description or location")
    if type == "VTODO":
        S.check(c.getPriority() == prio, "the priority is PRIORITY")
        S.check(c.hasCompleted() == done, "a to-do is completed when it has COMPLETED")
        if done:
            S.check(c.getCompleted().getText() == [l for l in lines if l[:9] == "COMPLETED"][0][10:], "the time of completion is COMPLETED")
    S.check(c.isRecurrenceInstance() == (range != ""), "an override has RECURRENCE-ID")
    if range:
        S.check(c.getRecurrenceID().getText() == lines[-2][lines[-2].rfind(":") + 1:], "the instance overridden is RECURRENCE-ID")
    S.check((c.isAdjustFuture(), c.isAdjustPrior()) == (range == "THISANDFUTURE", range == "THISANDPRIOR"), "an override goes for later or earlier instances as its RANGE says")


ACTIONS = {"AUDIO": definitions.eAction_VAlarm_Audio, "DISPLAY": definitions.eAction_VAlarm_Display, "EMAIL": definitions.eAction_VAlarm_Email, "URI": definitions.eAction_VAlarm_URI,
           "NONE": definitions.eAction_VAlarm_None, "X-NEW": definitions.eAction_VAlarm_Unknown}


def alarm_of(cal):
    return first(cal, "VEVENT").getComponents()[0]


def describe(a):
    """what an alarm answers"""
    d = a.getActionData()
    more = ()
    if a.getAction() == definitions.eAction_VAlarm_Display:
        more = (d.getDescription(),)
    elif a.getAction() == definitions.eAction_VAlarm_Email:
        more = (d.getDescription(), d.getSummary(), tuple(d.getAttendees()))
    elif a.getAction() == definitions.eAction_VAlarm_URI:
        more = (d.getURI(),)
    if a.isTriggerAbsolute():
        trigger = (a.getTriggerOn().getText(),)
    else:
        trigger = (a.getTriggerDuration().getTotalSeconds(), a.isTriggerOnStart())
    return (a.getAction(), d.getType(), more, trigger, a.getRepeats(), a.getInterval().getTotalSeconds() if a.getRepeats() else 0, a.getAlarmStatus())


def alarms(S, actions):
    action = S.choice("action", actions)
    lines = ["BEGIN:VEVENT", "UID:u", "DTSTART:20240301T100000Z", "BEGIN:VALARM", "ACTION:" + cased(S, action, "case")]
    absolute = S.bool("absolute")
    if absolute:
        at = stamp("utc", S.int("at", 0, 1439))
        lines.append("TRIGGER;VALUE=DATE-TIME:" + at)
        trigger = (at,)
    else:
        related = S.choice("related", ["", "START", "END"])
        n = S.int("by", -99, 99)
        lines.append("TRIGGER" + (";RELATED=" + cased(S, related, "rcase") if related else "") + (":PT%dM" % n if n >= 0 else ":-PT%dM" % -n))
        trigger = (n * 60, related != "END")
    repeats = S.int("repeats", 0, 3)
    interval = 0
    if repeats > 0:
        interval = S.int("interval", 1, 60)
        unit = S.choice("unit", ["M", "S"])
        lines.extend(["REPEAT:%d" % repeats, "DURATION:PT%d%s" % (interval, unit)])
        interval = interval * (60 if unit == "M" else 1)
    d = S.str("description", 0, 2, "aB:")
    lines.append("DESCRIPTION:" + d)
    lines.extend(["SUMMARY:S", "ATTENDEE:mailto:a", "ATTENDEE:mailto:b", "URL:http://x/"])
    status = S.choice("status", ["", "PENDING", "COMPLETED", "DISABLED"])
    if status:
        lines.append("X-MULBERRY-ALARM-STATUS:" + status)
    lines.extend(["END:VALARM", "END:VEVENT"])
    more = {"DISPLAY": (d,), "EMAIL": (d, "S", ("mailto:a", "mailto:b")), "URI": ("http://x/",)}.get(action, ())
    states = {"": definitions.eAlarm_Status_Pending, "PENDING": definitions.eAlarm_Status_Pending, "COMPLETED": definitions.eAlarm_Status_Completed, "DISABLED": definitions.eAlarm_Status_Disabled}
    a = alarm_of(read(calendar(lines, False)))
    S.check(describe(a) == (ACTIONS[action], ACTIONS[action], more, trigger, repeats, interval, states[status]), "an alarm answers other than its text says")


# ---------------------------------------------------------------- edits

def answers(c):
    out = [c.getUID(), c.getSeq(), c.getSummary(), c.getDescription(), c.getLocation(), c.hasStart()]
    if c.hasStart():
        out.append((c.getStart().getText(), c.getStart().getTimezoneID()))
        if c.getType() != "VTODO" or c.hasEnd() or c.getStart().isDateOnly():
            out.append((c.getEnd().getText(), c.getEnd().getTimezoneID()))
    elif c.hasEnd():
        out.append((c.getEnd().getText(), c.getEnd().getTimezoneID()))
    if c.getType() != "VJOURNAL":
        out.append(c.getStatus())
    if c.getType() == "VTODO":
        out.append(c.hasCompleted())
        if c.hasCompleted():
            out.append(c.getCompleted().getText())
    out.append(c.isRecurring())
    if c.isRecurring() and c.hasStart():
        items = []
        c.getRecurrenceSet().expand(c.getStart(), Period(DateTime(2024, 2, 1), DateTime(2024, 4, 1)), items)
        out.append(sorted([i.getText() for i in items]))
    return out


def others(c, names):
    """the properties not of these names, as text"""
    out = []
    for name, props in sorted(c.getProperties().items()):
        if name not in names:
            out.extend([p.getText() for p in props])
    return out


TIMING = ["DTSTART", "DTEND", "DUE", "DURATION"]


def stated(c):
    """the properties that say when, by name"""
    return sorted([x.getName() for name in TIMING for x in c.getProperties().get(name, [])])


def edit(S, c, i, how):
    """one edit; gives the names of the properties it may touch and what has to hold after it"""
    t = str(i)
    if how == "summary":
        v = S.str("summary" + t, 1, 2, "aB,;")
        c.editSummary(v)
        return ["SUMMARY"], lambda x: x.getSummary() == v
    if how == "details":
        v = S.str("description" + t, 0, 1, "aB,;")
        w = S.str("location" + t, 0, 1, "aB,;")
        c.editDetails(v, w)
        return ["DESCRIPTION", "LOCATION"], lambda x: (x.getDescription(), x.getLocation()) == (v, w)
    if how == "uid":
        v = S.str("uid" + t, 1, 2, "ab")
        c.setUID(v)
        return ["UID"], lambda x: x.getUID() == v
    if how == "sequence":
        v = S.int("sequence" + t, 0, 99)
        c.setSeq(v)
        return ["SEQUENCE"], lambda x: x.getSeq() == v
    if how == "status":
        word, v = S.choice("status" + t, STATES[c.getType()][:-1])
        c.editStatus(v)
        return ["STATUS", "COMPLETED"] if c.getType() == "VTODO" else ["STATUS"], lambda x: (x.getStatus() == v and x.countProperty("STATUS") == (1 if word else 0) and
                (word != "COMPLETED" or c.getType() != "VTODO" or x.hasCompleted() and x.getCompleted().getText() == "20240506T070809Z"))
    if how == "completed":
        kind = S.choice("donekind" + t, ["utc", "zone"])
        m = S.int("done" + t, 0, 1439)
        s = S.choice("donesecond" + t, [0, 17])
        when = moment(kind, m)
        when.offsetSeconds(s)
        c.editCompleted(when)

        def holds(x):
            done = x.getCompleted().duplicate()
            done.offsetSeconds(-s)
            return x.hasCompleted() and same(done, "utc", m + (300 if kind == "zone" else 0))
        return ["COMPLETED"], holds
    if how == "exclude":
        k = S.int("exclude" + t, 0, 4)
        x = c.getStart().duplicate()
        x.offsetDay(k)
        gone = x.getText()
        was = dates(c)
        c.excludeRecurrence(x)
        return ["EXDATE"], lambda x: dates(x) == [d for d in was if d != gone]
    if how == "rules":
        recurs = RecurrenceSet()
        n = S.int("count" + t, 1, 3)
        r = Recurrence()
        r.parse("FREQ=DAILY;COUNT=%d" % n)
        recurs.addRule(r)
        start = c.getStart()
        k = S.int("more" + t, 0, 6)
        m = S.int("less" + t, 0, 6)
        want = set([start.getDay() + j for j in range(n)] + [start.getDay()])
        dt = start.duplicate()
        dt.offsetDay(k)
        recurs.addDT(dt)
        want.add(start.getDay() + k)
        if not start.isDateOnly() and S.choice("period" + t, [False, True]):
            dt = start.duplicate()
            dt.offsetDay(8)
            recurs.addPeriod(Period(dt, duration=Duration(minutes=90)))
            want.add(start.getDay() + 8)
            dt = dt.duplicate()
            dt.offsetDay(1)
            recurs.subtractPeriod(Period(dt, duration=Duration(minutes=90)))
            dt = dt.duplicate()
            recurs.addDT(dt)
        dt = start.duplicate()
        dt.offsetDay(m)
        recurs.subtractDT(dt)
        want.discard(start.getDay() + m)
        c.editRecurrenceSet(recurs)
        return ["RRULE", "RDATE", "EXDATE", "EXRULE"], lambda x: [int(d[6:8]) for d in dates(x)] == sorted(want)
    kind = S.choice("kind" + t, KINDS)
    unit = 1440 if kind == "date" else 37
    m = S.int("at" + t, 0, 3) * unit
    if how == "due":
        c.editTimingDue(moment(kind, m))
        return TIMING, lambda x: not x.hasStart() and x.hasEnd() and same(x.getEnd(), kind, m) and stated(x) == ["DUE"]
    n = S.int("length" + t, 1, 3)
    if how == "ends":
        c.editTimingStartEnd(moment(kind, m), moment(kind, m + n * unit))
        return TIMING, lambda x: x.hasStart() and same(x.getStart(), kind, m) and same(x.getEnd(), kind, m + n * unit) and len(stated(x)) <= 2 and not x.hasProperty("DURATION")
    d = Duration(days=n) if kind == "date" else Duration(minutes=37 * n)
    c.editTimingStartDuration(moment(kind, m), d)
    return TIMING, lambda x: x.hasStart() and same(x.getStart(), kind, m) and same(x.getEnd(), kind, m + n * unit) and len(stated(x)) <= 2 and not x.hasProperty("DTEND") and not x.hasProperty("DUE")


def dates(c):
    items = []
    c.getRecurrenceSet().expand(c.getStart(), Period(DateTime(2024, 2, 1), DateTime(2024, 4, 1)), items)
    return sorted([i.getText() for i in items])


def edits(S, type, hows, n, kinds):
    kind = S.choice("kind", kinds)
    lines = ["BEGIN:" + type, "UID:u", "DTSTAMP:20240101T000000Z", prop("DTSTART", kind, 3 * 1440), "RRULE:FREQ=DAILY;COUNT=4", "SUMMARY:s", "DESCRIPTION:d", "SEQUENCE:1", "X-A:1", "COMMENT:x"]
    size = S.choice("size", {"VEVENT": ["lasts", "ends"], "VTODO": ["", "ends", "lasts"], "VJOURNAL": [""]}[type])
    if size == "lasts":
        lines.append("DURATION:P1D")
    elif size == "ends":
        lines.append(prop("DUE" if type == "VTODO" else "DTEND", kind, 4 * 1440))
    if type != "VJOURNAL":
        lines.append("STATUS:CANCELLED")
    lines.append("END:" + type)
    text = calendar(lines)
    cal = read(text)
    c = first(cal, type)
    for i in range(n):
        was = answers(c)
        how = S.choice("how%d" % i, hows)
        before = [(x.getName(), x.getText()) for props in c.getProperties().values() for x in props]
        names, holds = edit(S, c, i, how)
        after = [(x.getName(), x.getText()) for props in c.getProperties().values() for x in props]
        S.check(sorted([x for x in before if x[0] not in names]) == sorted([x for x in after if x[0] not in names]), "an edit changed another property")
        S.check(holds(c), "the component does not answer as edited")
        copy = c.duplicate()
        again = first(read(calendar(["X-B:1"], True)[:-len("END:VCALENDAR\r\n")] + c.getText() + "END:VCALENDAR\r\n"), type)
        S.check(holds(again), "the text of the component does not say what was edited")
        mine = answers(c)
        S.check(mine == answers(again), "the component does not answer as its text")
        S.check(mine == answers(copy), "a copy of the edited component answers otherwise")


def calendar_name(S):
    cal = read(calendar(["X-WR-CALNAME:old", "X-WR-CALDESC:about", "X-A:1"], False))
    v = S.str("name", 0, 3, "aB,;")
    cal.editName(v)
    S.check(cal.getName() == v, "the name is the one given")
    again = read(cal.getText())
    S.check(again.getName() == v and again.getDescription() == "about", "the text has the name given")
    w = S.str("about", 0, 3, "aB,;")
    cal.editDescription(w)
    again = read(cal.getText())
    S.check((again.getName(), again.getDescription(), cal.getDescription()) == (v, w, w), "the text has the description given")
    S.check(again.countProperty("X-A") == 1 and again.countProperty("X-WR-CALNAME") == (1 if v else 0), "nothing else changed")


def alarm_edits(S, hows, n):
    lines = ["BEGIN:VEVENT", "UID:u", "DTSTART:20240301T100000Z", "BEGIN:VALARM", "ACTION:EMAIL", "TRIGGER;RELATED=END:PT5M", "DESCRIPTION:d", "SUMMARY:s", "ATTENDEE:mailto:a", "X-A:1", "END:VALARM", "END:VEVENT"]
    cal = read(calendar(lines, False))
    a = alarm_of(cal)
    for i in range(n):
        t = str(i)
        was = describe(a)
        how = S.choice("how" + t, hows)
        want = list(was)
        if how == "on":
            m = S.int("at" + t, 0, 1439)
            a.editTriggerOn(moment("utc", m))
            want[3] = (stamp("utc", m),)
        elif how == "by":
            m = S.int("by" + t, -99, 99)
            start = S.bool("start" + t)
            a.editTriggerBy(Duration(m * 60), start)
            want[3] = (m * 60, start)
        elif how == "repeats":
            k = S.int("repeats" + t, 0, 3)
            m = S.int("interval" + t, 1, 60) * S.choice("unit" + t, [1, 60])
            a.editRepeats(k, Duration(m))
            want[4] = k
            want[5] = m if k > 0 else 0
        elif how == "status":
            want[6] = S.choice("status" + t, [definitions.eAlarm_Status_Pending, definitions.eAlarm_Status_Completed, definitions.eAlarm_Status_Disabled])
            a.editStatus(want[6])
        else:
            v = S.str("word" + t, 1, 2, "aB,;")
            k = S.choice("kind" + t, ["AUDIO", "DISPLAY", "EMAIL", "URI", "NONE"])
            cls = type(a)
            data = {"AUDIO": lambda: cls.VAlarmAudio(v), "DISPLAY": lambda: cls.VAlarmDisplay(v), "EMAIL": lambda: cls.VAlarmEmail(v, "s" + v, ["mailto:x", "mailto:y"]), "URI": lambda: cls.VAlarmURI("http:" + v),
                    "NONE": lambda: cls.VAlarmNone()}[k]()
            a.editAction(ACTIONS[k], data)
            want[0] = want[1] = ACTIONS[k]
            want[2] = {"DISPLAY": (v,), "EMAIL": (v, "s" + v, ("mailto:x", "mailto:y")), "URI": ("http:" + v,)}.get(k, ())
        S.check(describe(a) == tuple(want), "an edited alarm does not answer as edited")
        S.check(describe(a.duplicate()) == tuple(want), "a copy of an edited alarm does not answer as edited")
        S.check(describe(alarm_of(read(cal.getText()))) == tuple(want), "the text of an edited alarm does not say what was edited")
    S.check(a.countProperty("X-A") == 1 and a.countProperty("TRIGGER") == 1 and a.countProperty("ACTION") == 1, "nothing else changed")


HARNESSES = [
    ("times events", times, {"type": "VEVENT"}, {"bounds": "four kinds of time, any minute of four days, any end or length listed", "tier": "quick"}),
    ("times to-dos", times, {"type": "VTODO"}, {"bounds": "four kinds of time, any minute of four days, any end or length listed", "tier": "quick"}),
    ("times journals", times, {"type": "VJOURNAL"}, {"bounds": "four kinds of time, any minute of four days", "tier": "quick"}),
    ("facts events", facts, {"type": "VEVENT"}, {"bounds": "texts of up to two letters, sequence numbers below 100, any status and range in any case", "tier": "quick"}),
    ("facts to-dos", facts, {"type": "VTODO"}, {"bounds": "texts of up to two letters, sequence numbers below 100, any status and range in any case", "tier": "quick"}),
    ("alarms", alarms, {"actions": sorted(ACTIONS)}, {"bounds": "every action, any trigger of a day or within 99 minutes, up to 3 repeats", "tier": "quick"}),
    ("edit events", edits, {"type": "VEVENT", "hows": ["summary", "details", "uid", "sequence", "status", "exclude", "rules", "ends", "lasts"], "n": 1, "kinds": KINDS}, {"bounds": "one edit of any kind", "tier": "quick"}),
    ("edit events twice", edits, {"type": "VEVENT", "hows": ["details", "status", "exclude", "rules", "ends", "lasts"], "n": 2, "kinds": ["zone", "date"]}, {"bounds": "any two edits", "tier": "thorough"}),
    ("edit to-dos", edits, {"type": "VTODO", "hows": ["status", "completed", "due", "ends", "lasts"], "n": 1, "kinds": ["utc", "zone"]}, {"bounds": "one edit of any kind", "tier": "quick"}),
    ("edit to-dos twice", edits, {"type": "VTODO", "hows": ["status", "completed", "due", "ends", "lasts"], "n": 2, "kinds": ["zone", "date"]}, {"bounds": "any two edits", "tier": "thorough"}),
    ("edit calendars", calendar_name, {}, {"bounds": "texts of up to 3 letters", "tier": "quick"}),
    ("edit alarms", alarm_edits, {"hows": ["on", "by", "repeats", "status", "action"], "n": 1}, {"bounds": "one edit of any kind", "tier": "quick"}),
    ("edit alarms twice", alarm_edits, {"hows": ["on", "by", "repeats", "status", "action"], "n": 2}, {"bounds": "any two edits", "tier": "thorough"}),
]
