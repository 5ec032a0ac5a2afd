# Component structure: nesting, delimiters, truncation, what a stream may hold
from pycalendar.exceptions import InvalidData, InvalidProperty
from pycalendar.icalendar.calendar import Calendar
from pycalendar.vcard.card import Card
from pycalendar.timezonedb import TimezoneDatabase


REFUSALS = (InvalidData, InvalidProperty, ValueError)

# what a component may hold when that is restricted
MAY_HOLD = {
    "VEVENT": ["VALARM"],
    "VTODO": ["VALARM"],
    "VAVAILABILITY": ["AVAILABLE"],
    "VVOTER": ["VOTE"],
    "VTIMEZONE": ["STANDARD", "DAYLIGHT"],
}


class Lines(object):
    """a file whose lines are decided as they are read"""

    def __init__(self, S, first, kinds, most, last, end):
        self.S = S
        self.first = first
        self.kinds = kinds
        self.most = most
        self.last = last
        self.end = end
        self.n = 0
        self.seen = []
        self.eof = False

    def readline(self):
        if self.eof:
            return ""
        i = self.n
        self.n = i + 1
        if i < len(self.first):
            line = self.first[i]
        elif i < len(self.first) + self.most:
            line = self.S.choice("line%d" % i, self.kinds)
        elif i < len(self.first) + self.most + len(self.last):
            line = self.last[i - len(self.first) - self.most]
        else:
            line = None
        if line is None:
            self.eof = True
            return ""
        if line[-1:] == "=":
            line = line[:-1] + str(i)
        self.seen.append(line)
        return line + self.end


def split(line):
    """name and value of a simple line, or None"""
    at = line.find(":")
    return None if at <= 0 else (line[:at], line[at + 1:])


def second(lines, top):
    # a second object after the end of the first
    ended = False
    for line in lines:
        if ended and line == "BEGIN:" + top:
            return True
        ended = ended or line == "END:" + top
    return False


def reference(lines, top, version, components, lax=False):
    """the objects in the lines as (type, properties, components), or None when they are malformed"""
    stack = []
    results = []
    for line in lines:
        if line == "":
            continue
        nv = split(line)
        if nv is None:
            return None
        if not stack:
            if line != "BEGIN:" + top:
                return None
            stack.append((top, [], []))
            continue
        if lax and len(stack) == 1 and nv[0] != "BEGIN" and line != "END:" + top:
            # lines outside of the components do not matter
            continue
        if nv[0] == "BEGIN":
            if not components or nv[1] == top:
                return None
            new = (nv[1], [], [])
            stack.append(new)
        elif nv[0] == "END":
            done = stack.pop()
            if done[0] != nv[1]:
                return None
            if stack:
                if stack[-1][0] in MAY_HOLD and done[0] not in MAY_HOLD[stack[-1][0]]:
                    return None
                stack[-1][2].append(done)
            else:
                if not lax and ("VERSION", version) not in done[1]:
                    return None
                results.append(done)
        else:
            if len(stack) == 1 and nv[0] == "VERSION" and nv[1] != version:
                return None
            stack[-1][1].append(nv)
    return None if stack else results


def tree(c):
    props = []
    for name in c.getProperties():
        for p in c.getProperties()[name]:
            props.append((p.getName(), p.getValue().getText()))
    return (c.getType(), props, [tree(x) for x in c.getComponents()])


def ordered(t):
    return (t[0], sorted(t[1]), [ordered(x) for x in t[2]])


def canon(t):
    return (t[0], sorted(t[1]), sorted([canon(x) for x in t[2]]))


def parents(S, c):
    for x in c.getComponents():
        S.check(x.getParentComponent() is c, "parent")
        parents(S, x)


def calendar(S, first, kinds, most, last, end="\r\n"):
    ins = Lines(S, first, kinds, most, last, end)
    try:
        cal = Calendar.parseText(ins)
        refused = False
    except REFUSALS:
        cal = None
        refused = True
    S.assume(not second(ins.seen, "VCALENDAR"))
    want = reference(ins.seen, "VCALENDAR", "2.0", True)
    S.check(refused == (want is None), "refused exactly when malformed")
    if refused:
        return
    if not want:
        S.check(cal is None, "nothing in it")
        return
    S.check(ins.eof, "read to the end")
    want = want[0]
    S.check(ordered(tree(cal)) == ordered(want), "everything in its place")
    parents(S, cal)
    text = cal.getText()
    again = Calendar.parseText(text)
    S.check(canon(tree(again)) == canon(want), "written with everything in its place")
    S.check(again == cal, "equal")


def card(S, first, kinds, most, last):
    ins = Lines(S, first, kinds, most, last, "\r\n")
    try:
        got = Card.parseText(ins)
        refused = False
    except REFUSALS:
        got = None
        refused = True
    S.assume(not second(ins.seen, "VCARD"))
    want = reference(ins.seen, "VCARD", "3.0", False)
    S.check(refused == (want is None), "refused exactly when malformed")
    if refused:
        return
    if not want:
        S.check(got is None, "nothing in it")
        return
    S.check(ordered(tree(got)) == ordered(want[0]), "all properties")
    S.check(canon(tree(Card.parseText(got.getText()))) == canon(want[0]), "written with all properties")


def cards(S, first, kinds, most, last):
    ins = Lines(S, first, kinds, most, last, "\n")
    try:
        got = Card.parseMultipleData(ins, "text/vcard")
        refused = False
    except REFUSALS:
        got = None
        refused = True
    want = reference(ins.seen, "VCARD", "3.0", False)
    S.check(refused == (want is None), "refused exactly when malformed")
    if not refused:
        S.check([ordered(tree(c)) for c in got] == [ordered(w) for w in want], "every card, in order")


def one_component(S, first, kinds, most, last):
    """parseComponent: adds the components of a stream to a calendar and gives the first"""
    ins = Lines(S, first, kinds, most, last, "\r\n")
    cal = Calendar()
    before = ordered(tree(cal))
    try:
        got = cal.parseComponent(ins)
        refused = False
    except REFUSALS:
        got = None
        refused = True
    lines = list(ins.seen)
    if "END:VCALENDAR" in lines:
        # reads no more than one line past the end of the calendar
        S.check(len(lines) <= lines.index("END:VCALENDAR") + 2, "stops at the end")
        lines = lines[:lines.index("END:VCALENDAR") + 1]
    want = reference(lines, "VCALENDAR", "2.0", True, True)
    S.check(refused == (want is None), "refused exactly when malformed")
    if refused:
        return
    top = want[0] if want else ("VCALENDAR", [], [])
    S.check((got is None) == (not top[2]), "component or none")
    if got is not None:
        S.check(ordered(tree(got)) == ordered(top[2][0]), "the first component")
    now = ordered(tree(cal))
    S.check(now[1] == before[1], "calendar's own properties kept")
    S.check(now[2] == [ordered(t) for t in top[2]], "components added")


def types(S, end):
    """every component type keeps its name, place and properties"""
    TimezoneDatabase.clearTimezoneDatabase()
    outer = S.choice("outer", ["VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "VTIMEZONE", "VPOLL", "VVOTER", "X-ANY", "vevent", "VALARM"])
    inner = S.choice("inner", ["VALARM", "AVAILABLE", "STANDARD", "DAYLIGHT", "VEVENT", "VTODO", "VVOTER", "VOTE", "X-ANY", "X:Y;Z"])
    name = S.choice("name", ["SUMMARY", "UID", "X-ANY", "COMMENT"])
    v = S.str("v", 0, 2, "ab =")
    lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "BEGIN:" + outer, "BEGIN:" + inner, name + ":" + v, "END:" + inner, "TZID:z1", "END:" + outer, "END:VCALENDAR"]
    try:
        cal = Calendar.parseText(end.join(lines) + end)
        refused = False
    except ValueError:
        cal = None
        refused = True
    S.check(refused == (outer in MAY_HOLD and inner not in MAY_HOLD[outer]), "held where allowed")
    if refused:
        return
    t = ordered(tree(cal))
    S.check(t == ("VCALENDAR", [("VERSION", "2.0")], [(outer, [("TZID", "z1")], [(inner, [(name, v)], [])])]), "as given")
    S.check(cal.getText() == "\r\n".join(lines[:3] + (["TZID:z1"] + lines[3:6]) + lines[7:]) + "\r\n", "as written")


def endings(S, n):
    """line ends and folds do not matter to structure"""
    lines = ["BEGIN:VCALENDAR", "VERSION:2.0", "BEGIN:VEVENT", "UID:a", "END:VEVENT", "END:VCALENDAR"]
    at = S.choice("at", range(len(lines)))
    pos = S.int("pos", 1, n)
    S.assume(pos < len(lines[at]))
    eol = S.choice("eol", ["\r\n", "\n"])
    ws = S.choice("ws", [" ", "\t"])
    lines[at] = lines[at][:pos] + eol + ws + lines[at][pos:]
    text = eol.join(lines) + S.choice("last", ["", eol, eol + eol])
    cal = Calendar.parseText(text)
    S.check(ordered(tree(cal)) == ("VCALENDAR", [("VERSION", "2.0")], [("VEVENT", [("UID", "a")], [])]), "folded or not")


HEAD = ["BEGIN:VCALENDAR", "VERSION:2.0"]
BODY = ["X-P:=", "BEGIN:VEVENT", "END:VEVENT", "BEGIN:VALARM", "END:VALARM", "BEGIN:X-C", "END:X-C", "", "END:VCALENDAR", "BEGIN:VCALENDAR", None]
SMALL = ["X-P:=", "BEGIN:VALARM", "END:VALARM", "BEGIN:X-C", "END:X-C", "END:VCALENDAR"]
ENVELOPE = ["BEGIN:VCALENDAR", "END:VCALENDAR", "VERSION:2.0", "VERSION:1.0", "X-P:=", "BEGIN:VEVENT", "END:VEVENT", "", "HELLO", "BEGIN:VCARD", None]
VBODY = ["X-P:=", "BEGIN:VCARD", "END:VCARD", "VERSION:3.0", "VERSION:2.1", "BEGIN:X", "END:X", "", "HELLO", None]
VSMALL = ["FN:=", "BEGIN:VCARD", "END:VCARD", "VERSION:3.0"]

B = "streams of at most %d free lines out of %d kinds"
HARNESSES = [
    ("body", calendar, {"first": HEAD, "kinds": BODY, "most": 3, "last": ["END:VCALENDAR"]}, {"bounds": B % (3, len(BODY)) + " inside a calendar"}),
    ("body_unclosed", calendar, {"first": HEAD, "kinds": SMALL, "most": 4, "last": []}, {"bounds": B % (4, len(SMALL)) + ", then the end of the file"}),
    ("nested", calendar, {"first": HEAD + ["BEGIN:VEVENT"], "kinds": SMALL, "most": 4, "last": ["END:VEVENT", "END:VCALENDAR"]}, {"bounds": B % (4, len(SMALL)) + " inside a component"}),
    ("envelope", calendar, {"first": [], "kinds": ENVELOPE, "most": 4, "last": []}, {"bounds": B % (4, len(ENVELOPE))}),
    ("card_body", card, {"first": ["BEGIN:VCARD", "VERSION:3.0"], "kinds": VBODY, "most": 3, "last": ["END:VCARD"]}, {"bounds": B % (3, len(VBODY)) + " inside a vCard"}),
    ("card_envelope", card, {"first": [], "kinds": VBODY, "most": 3, "last": []}, {"bounds": B % (3, len(VBODY))}),
    ("cards", cards, {"first": ["BEGIN:VCARD"], "kinds": VSMALL, "most": 6, "last": ["END:VCARD"]}, {"bounds": B % (6, len(VSMALL)) + " in several vCards"}),
    ("cards_envelope", cards, {"first": [], "kinds": VBODY, "most": 3, "last": []}, {"bounds": B % (3, len(VBODY))}),
    ("one", one_component, {"first": HEAD, "kinds": SMALL + [None], "most": 4, "last": ["END:VCALENDAR"]}, {"bounds": B % (4, len(SMALL) + 1) + " read by parseComponent"}),
    ("types", types, {"end": "\r\n"}, {"bounds": "11 outer and 10 inner types, 4 names, values of 0..2 characters"}),
    ("endings", endings, {"n": 14}, {"bounds": "one fold at every place of a six line calendar, either line end"}),
    ("body_deep", calendar, {"first": HEAD, "kinds": BODY, "most": 5, "last": ["END:VCALENDAR"]}, {"bounds": B % (5, len(BODY)) + " inside a calendar", "tier": "thorough"}),
    ("nested_deep", calendar, {"first": HEAD + ["BEGIN:VEVENT"], "kinds": SMALL, "most": 6, "last": ["END:VEVENT", "END:VCALENDAR"]}, {"bounds": B % (6, len(SMALL)) + " inside a component", "tier": "thorough"}),
    ("cards_deep", cards, {"first": ["BEGIN:VCARD"], "kinds": VSMALL, "most": 8, "last": ["END:VCARD"]}, {"bounds": B % (8, len(VSMALL)) + " in several vCards", "tier": "thorough"}),
]
ASSUMPTIONS = ["streams holding more than one calendar (or vCard) read by the single object parser are not covered", "lines are simple name:value lines"]
