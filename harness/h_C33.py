# Reading modes: what happens to known mistakes is what the mode says
from pycalendar.exceptions import InvalidData, InvalidProperty
from pycalendar.parser import ParserContext
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as CardProperty
from pycalendar.duration import Duration
import cStringIO as StringIO

ALLOW, IGNORE, FIX, RAISE = ParserContext.PARSER_ALLOW, ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX, ParserContext.PARSER_RAISE

DEFAULTS = {
    "INVALID_COLON_ESCAPE_SEQUENCE": FIX, "INVALID_ESCAPE_SEQUENCES": RAISE, "BLANK_LINES_IN_DATA": FIX, "VCARD_2_NO_PARAMETER_VALUES": ALLOW,
    "VCARD_2_BASE64": FIX, "INVALID_DATETIME_VALUE": FIX, "INVALID_DATETIME_LEADINGSPACE": ALLOW, "INVALID_DURATION_VALUE": FIX,
    "INVALID_ADR_N_VALUES": FIX, "INVALID_REQUEST_STATUS_VALUE": FIX, "BACKSLASH_IN_URI_VALUE": FIX, "BACKSLASH_IN_GEO_VALUE": FIX,
}


def reset():
    for k in sorted(DEFAULTS):
        setattr(ParserContext, k, DEFAULTS[k])


def mode(S, name, tag="mode", allowed=(0, 1, 2, 3)):
    m = [ALLOW, IGNORE, FIX, RAISE][S.choice(tag, list(allowed))]
    setattr(ParserContext, name, m)
    return m


def lines(ls):
    return "\r\n".join(ls) + "\r\n"


def read(S, how, text):
    """what is read, or None when it is refused"""
    try:
        return how(text)
    except (InvalidData, InvalidProperty):
        return None


def decoded(v, colon, other):
    """text with its escapes undone, None when refused"""
    r = ""
    i = 0
    while i < len(v):
        c = v[i]
        if c != "\\":
            r = r + c
            i += 1
            continue
        d = v[i + 1]
        i += 2
        if d in "nN":
            r = r + "\n"
        elif d == "r":
            r = r + "\r"
        elif d in "\\,;":
            r = r + d
        else:
            m = colon if d == ":" else other
            if m == RAISE:
                return None
            elif m == FIX:
                r = r + d
            elif m == ALLOW:
                r = r + "\\" + d
    return r


def loose(v):
    # a backslash with nothing after it
    i = 0
    while i < len(v):
        if v[i] == "\\":
            i += 1
            if i == len(v):
                return True
        i += 1
    return False


def escapes(S, hi):
    reset()
    colon = mode(S, "INVALID_COLON_ESCAPE_SEQUENCE", "colon")
    other = mode(S, "INVALID_ESCAPE_SEQUENCES", "other")
    v = S.str("v", 0, hi, "a\\:nN,")
    S.assume(not loose(v))
    kind = S.choice("kind", ["ical", "vcard"])
    P = Property if kind == "ical" else CardProperty
    p = read(S, P.parseText, ("COMMENT:" if kind == "ical" else "NOTE:") + v)
    want = decoded(v, colon, other)
    reset()
    S.check((p is None) == (want is None), "refused when the mode says so")
    if p is not None:
        S.check(p.getValue().getValue() == want, "text")
        S.observe(p.getText())


def lists(S, hi):
    # the same for each value of a list, and for the parts of a name
    reset()
    other = mode(S, "INVALID_ESCAPE_SEQUENCES", "other")
    v = S.str("v", 0, hi, "a\\n:")
    w = S.str("w", 0, 1, "a")
    S.assume(not loose(v))
    kind = S.choice("kind", ["ical", "vcard", "n"])
    colon = ParserContext.INVALID_COLON_ESCAPE_SEQUENCE
    want = decoded(v, colon, other)
    if kind == "ical":
        p = read(S, Property.parseText, "CATEGORIES:" + v + "," + w)
        got = p and [x.getValue() for x in p.getMultiValue().getValues()]
        S.check(got == (None if want is None else [want, w]), "values")
    elif kind == "vcard":
        p = read(S, CardProperty.parseText, "CATEGORIES:" + w + "," + v)
        got = p and [x.getValue() for x in p.getMultiValue().getValues()]
        S.check(got == (None if want is None else [w, want]), "values")
    else:
        p = read(S, CardProperty.parseText, "N:" + w + ";" + v)
        got = p and p.getValue().getValue().getValue()
        S.check(got == (None if want is None else (w, want, "", "", "")), "parts")
    reset()
    S.observe(want is None)


def uri(S, hi):
    reset()
    other = mode(S, "INVALID_ESCAPE_SEQUENCES", "other")
    m = mode(S, "BACKSLASH_IN_URI_VALUE")
    v = S.str("v", 0, hi, "a\\:,")
    S.assume(not loose(v))
    name = S.choice("name", ["URL", "ORGANIZER"])
    p = read(S, Property.parseText, name + ":" + v)
    if m == FIX and name == "URL":
        want = decoded(v, ParserContext.INVALID_COLON_ESCAPE_SEQUENCE, other)
    else:
        want = v
    reset()
    S.check((p is None) == (want is None), "refused when the mode says so")
    if p is not None:
        S.check(p.getValue().getValue() == want, "address")
    S.observe(want is None)


def status(S, hi):
    reset()
    m = mode(S, "INVALID_REQUEST_STATUS_VALUE")
    esc = mode(S, "INVALID_ESCAPE_SEQUENCES", "other", (3,))
    n = S.conc(S.int("n", 1, 4))
    first = S.choice("first", ["2.0", "2\\\\.0", "2.0\\;Ok", "2"])
    rest = [S.str("r%d" % i, 0, hi, "a:") for i in range(n - 1)]
    p = read(S, Property.parseText, "REQUEST-STATUS:" + ";".join([first] + rest))
    reset()
    code = {"2.0": "2.0", "2\\\\.0": "2\\.0", "2.0\\;Ok": "2.0;Ok", "2": "2"}[first]
    good = n in (2, 3) and "\\" not in code
    if m == RAISE:
        S.check((p is None) == (not good), "strict: exactly the mistakes are refused")
    else:
        S.check(p is not None, "otherwise always read")
    if p is not None:
        got = p.getValue().getValue()
        if n == 1 and ";" in code:
            want = code.split(";") 
        elif n == 1:
            want = [code, ""]
        else:
            want = [code] + rest[:2]
            if len(want) == 3 and want[2] == "":
                want = want[:2]
        if m != ALLOW:
            want[0] = want[0].replace("\\", "")
        S.check(got == want, "parts")
        S.observe(p.getText())


def geo(S):
    reset()
    m = mode(S, "BACKSLASH_IN_GEO_VALUE", "mode", (2, 3))
    a = "%d" % S.int("a", -90, 90)
    b = "%d.5" % S.int("b", 0, 179)
    sep = S.choice("sep", [";", "\\;", ",", ""])
    p = read(S, Property.parseText, "GEO:" + a + sep + b)
    reset()
    ok = sep == ";" or (sep == "\\;" and m == FIX)
    S.check((p is not None) == ok, "an escaped separator is fixed or refused")
    if p is not None:
        S.check(p.getValue().getValue() == [float(a), float(b)], "position")
    S.observe(ok)


def duration(S):
    reset()
    m = mode(S, "INVALID_DURATION_VALUE")
    n = S.int("n", 1, 99)
    sign = S.choice("sign", ["", "-", "+"])
    kind = S.choice("kind", ["week", "weekx", "weekday", "t", "dayt", "good", "goodt", "bad"])
    extra = S.str("x", 1, 2, "T1DX")
    text = {"week": "P%dW" % n, "weekx": "P%dW" % n + extra, "weekday": "P%dW3D" % n, "t": "PT", "dayt": "P%dDT" % n, "good": "P%dD" % n, "goodt": "PT%dM" % n, "bad": "P%d" % n}[kind]
    mistake = kind in ("weekx", "weekday", "t", "dayt")
    try:
        d = Duration.parseText(sign + text)
    except ValueError:
        d = None
    p = read(S, Property.parseText, "DURATION:" + sign + text)
    reset()
    ok = kind != "bad" and (not mistake or m != RAISE)
    S.check((d is not None) == ok and (p is not None) == ok, "refused when strict")
    if d is not None:
        k = {"week": 7 * 86400, "weekx": 7 * 86400, "weekday": 7 * 86400, "t": 0, "dayt": 86400, "good": 86400, "goodt": 60}[kind]
        S.check(d.getTotalSeconds() == (-1 if sign == "-" else 1) * n * k, "length")
        S.check(p.getValue().getValue() == d, "value")
    S.observe(ok)


def spaces(S):
    reset()
    m = mode(S, "INVALID_DATETIME_LEADINGSPACE")
    y, mo, d = S.int("y", 1, 9999), S.int("m", 1, 12), S.int("d", 1, 28)
    form = S.choice("form", ["%04d%02d%02d", "%4d%02d%02d", "%04d%2d%02d", "%04d%02d%2d"])
    text = form % (y, mo, d)
    tail = S.choice("tail", ["", "T101112Z"])
    p = read(S, Property.parseText, "X-A;VALUE=DATE" + ("-TIME" if tail else "") + ":" + text + tail)
    reset()
    spaced = " " in text
    S.check((p is None) == (m == RAISE and spaced), "spaces for leading zeros")
    if p is not None:
        dt = p.getValue().getValue()
        S.check(dt.getYear() == y and dt.getMonth() == mo and dt.getDay() == d, "date")
        S.check(p.getText()[:-2][-len("20200101" + tail):] == "%04d%02d%02d" % (y, mo, d) + tail, "written with zeros")
    S.observe(spaced)


def blank(S, kind):
    reset()
    m = mode(S, "BLANK_LINES_IN_DATA")
    v = "%d" % S.int("v", 1, 9)
    if kind in ("cal", "component"):
        ls = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VTODO", "UID:t", "DTSTAMP:20200101T000000Z", "PRIORITY:" + v, "END:VTODO", "END:VCALENDAR"]
    else:
        ls = ["BEGIN:VCARD", "VERSION:3.0", "N:a;b", "FN:" + v, "END:VCARD"]
    if kind == "cards":
        ls = ls + ["BEGIN:VCARD", "VERSION:3.0", "N:c;d", "FN:e", "END:VCARD"]
    hi = len(ls) - 1
    at = S.conc(S.int("at", -1, hi))
    bad = ls if at < 0 else ls[:at] + [""] + ls[at:]
    def all_of(text):
        if kind == "cal":
            return Calendar.parseText(text).getText()
        elif kind == "component":
            c = Calendar()
            comp = c.parseComponent(StringIO.StringIO(text))
            return comp.getText()
        elif kind == "card":
            return Card.parseText(text).getText()
        else:
            return "".join([c.getText() for c in Card.parseMultipleTextData(StringIO.StringIO(text))])
    got = read(S, all_of, lines(bad))
    reset()
    want = all_of(lines(ls))
    if m == RAISE and at >= 0:
        S.check(got is None, "refused when strict")
    else:
        S.check(got == want, "blank lines do not matter")
    S.observe(got is None)


def novalues(S):
    reset()
    m = mode(S, "VCARD_2_NO_PARAMETER_VALUES")
    b = mode(S, "VCARD_2_BASE64", "b64", (0, 2))
    k = S.conc(S.int("k", 0, 2))
    name = S.choice("name", ["TEL", "KEY"])
    v = S.str("v", 0, 2, "a =")
    line = name
    want = []
    strip = False
    mistake = False
    for i in range(k):
        x = S.choice("p%d" % i, ["HOME", "base64", "BASE64", "TYPE=WORK"])
        line = line + ";" + x
        if "=" in x:
            want.append(("TYPE", ["WORK"]))
            continue
        mistake = True
        if x.upper() == "BASE64" and b == FIX:
            want.append(("ENCODING", ["B"]))
            strip = True
        elif m == ALLOW:
            want.append((x.upper(), [None]))
    p = read(S, CardProperty.parseText, line + ":" + v)
    q = p and read(S, CardProperty.parseText, p.getText()[:-2])
    reset()
    S.check((p is None) == (m == RAISE and mistake), "refused when strict")
    if p is not None:
        got = []
        for key in sorted(p.getParameters()):
            for a in p.getParameters()[key]:
                got.append((key, a.getValues() if a.getValues() else [None]))
        S.check(got == sorted(want, key=lambda x: x[0]), "parameters")
        S.check(p.getValue().getValue() == (v.replace(" ", "") if strip else v), "value")
        t = p.getText()
        S.check(q.getText() == t, "reads back")
        S.observe(t)
    else:
        S.observe("refused")


def toomany(S, name, size):
    reset()
    m = mode(S, "INVALID_ADR_N_VALUES")
    n = S.conc(S.int("n", size - 1, size + 2))
    parts = [S.str("p%d" % i, 0, 1, "ab") if i % 3 == 0 else "c" for i in range(n)]
    p = read(S, CardProperty.parseText, name + ":" + ";".join(parts))
    reset()
    S.check((p is None) == (m == RAISE and n > size), "refused when strict")
    if p is not None:
        want = parts + [""] * (size - n)
        if m != ALLOW:
            want = want[:size]
        S.check(list(p.getValue().getValue().getValue()) == want, "parts")
        S.check(p.duplicate() == p and p.duplicate().getText() == p.getText(), "copy")
        S.check(p.getText() == name + ":" + ";".join(want) + "\r\n", "written")
        S.observe(p.getText())
    else:
        S.observe("refused")


def welldone(S, part):
    # data without mistakes does not depend on the modes
    v = S.str("v", 0, 1, "a:\"=")
    n = S.int("n", 1, 9)
    cal = lines(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:e", "DTSTAMP:2020010%dT000000Z" % n, "DTSTART;VALUE=DATE:2020010%d" % n,
        "DURATION:" + S.choice("dur", ["P1D", "P2W", "P%dD" % n]), "SUMMARY:" + v + "\\,\\;\\\\\\n" + v, "CATEGORIES:a\\,b," + v, "URL:http://a" + v, "GEO:1.5;-%d.5" % n,
        "REQUEST-STATUS:2.%d;" % n + v + S.choice("rs", ["", ";x"]), "X-A;Q=b:" + v, "END:VEVENT", "END:VCALENDAR"])
    card = lines(["BEGIN:VCARD", "VERSION:3.0", "N:a,b;" + v + ";;;", "FN:" + v + "\\,\\n", "ADR;TYPE=HOME:;;" + v + ";b;c;d;e", "TEL;TYPE=WORK:1", "PHOTO;ENCODING=B:aGk=", "REV:20200101T00000%dZ" % n, "END:VCARD"])
    reset()
    how = [Calendar.parseText, Card.parseText][part == "card"]
    text = card if part == "card" else cal
    want = how(text).getText()
    k = S.conc(S.int("k", 0, 4))
    if k == 4:
        ParserContext.allRaise()
    else:
        for x in sorted(DEFAULTS):
            setattr(ParserContext, x, [ALLOW, IGNORE, FIX, RAISE][k])
    c = read(S, how, text)
    got = None if c is None else c.getText()
    reset()
    S.check(got == want, "the same")
    S.observe(want)


MISTAKES = [
    (Property.parseText, "COMMENT:a\\:"), (Property.parseText, "COMMENT:a\\x"), (CardProperty.parseText, "NOTE:a\\x"), (CardProperty.parseText, "TEL;HOME:1"), (CardProperty.parseText, "KEY;BASE64:aGk="),
    (Property.parseText, "DTSTART: 9990101T000000Z"), (Property.parseText, "DTSTART;VALUE=DATE:2000 101"), (Property.parseText, "DURATION:P1W1"), (Property.parseText, "DURATION:P1DT"), (Property.parseText, "TRIGGER:-PT"),
    (CardProperty.parseText, "N:a;b;c;d;e;f"), (CardProperty.parseText, "ADR:a;b;c;d;e;f;g;h"), (Property.parseText, "REQUEST-STATUS:2.0"), (Property.parseText, "REQUEST-STATUS:2.0\\;Ok"), (Property.parseText, "REQUEST-STATUS:2.0;a;b;c"),
    (Property.parseText, "GEO:1.0\\;2.0"), (CardProperty.parseText, "GEO:1.0\\;2.0"),
    (Calendar.parseText, "BEGIN:VCALENDAR\r\n\r\nVERSION:2.0\r\nPRODID:x\r\nEND:VCALENDAR\r\n"), (Card.parseText, "BEGIN:VCARD\r\nVERSION:3.0\r\n\r\nN:a\r\nFN:a\r\nEND:VCARD\r\n"),
]


def strict(S):
    # one call makes every mode strict
    reset()
    i = S.conc(S.int("i", 0, len(MISTAKES) - 1))
    how, text = MISTAKES[i]
    before = S.choice("before", [0, 1, 2])
    for x in sorted(DEFAULTS):
        if before < 2:
            setattr(ParserContext, x, [ALLOW, IGNORE][before])
    ParserContext.allRaise()
    got = read(S, how, text)
    reset()
    S.check(got is None, "refused")
    S.observe(i)


HARNESSES = [
    ("escapes", escapes, {"hi": 4}, {"bounds": "every text of up to 4 such characters, every pair of modes"}),
    ("lists", lists, {"hi": 3}, {"bounds": "values of up to 3 characters, every mode"}),
    ("uri", uri, {"hi": 3}, {"bounds": "addresses of up to 3 characters, every pair of modes"}),
    ("status", status, {"hi": 1}, {"bounds": "1 to 4 parts of up to 1 character, four forms of the code, every mode"}),
    ("geo", geo, {}, {"bounds": "every whole latitude and half longitude, four separators"}),
    ("duration", duration, {}, {"bounds": "eight forms, numbers of up to 99, every mode"}),
    ("spaces", spaces, {}, {"bounds": "every date with days up to 28, four layouts, every mode"}),
    ("novalues", novalues, {}, {"bounds": "up to two parameters, every pair of modes"}),
    ("many_n", toomany, {"name": "N", "size": 5}, {"bounds": "4 to 7 parts, every mode"}),
    ("many_adr", toomany, {"name": "ADR", "size": 7}, {"bounds": "6 to 9 parts, every mode"}),
    ("welldone_cal", welldone, {"part": "cal"}, {"bounds": "an event with every kind of value concerned, texts of up to 1 character"}),
    ("welldone_card", welldone, {"part": "card"}, {"bounds": "a card with every kind of value concerned, texts of up to 1 character"}),
    ("strict", strict, {}, {"bounds": "19 mistakes, after three settings"}),
] + [
    ("blank_" + k, blank, {"kind": k}, {"bounds": "a blank line anywhere, every mode"}) for k in ("cal", "component", "card", "cards")
] + [
    ("escapes_long", escapes, {"hi": 6}, {"bounds": "every text of up to 6 such characters", "tier": "thorough"}),
    ("uri_long", uri, {"hi": 5}, {"bounds": "addresses of up to 5 characters", "tier": "thorough"}),
]
