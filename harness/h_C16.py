# Folding of long lines, and unfolding
from pycalendar.icalendar.property import Property
from pycalendar.icalendar.calendar import Calendar
from pycalendar.vcard.property import Property as VProperty
from pycalendar.vcard.card import Card

# bytes of a UTF-8 stream: ascii, continuation bytes, and the lead bytes of 2, 3 and 4 byte characters
BYTES = "a\x80\xbf\xc3\xe2\xf0"
PATH_TIME = 20


def utf8(S, name, size):
    # every well formed UTF-8 byte string of this length made of BYTES
    w = S.str(name, size, size, BYTES)
    need = 0
    for c in w:
        if need > 0:
            S.assume(c == "\x80" or c == "\xbf")
            need -= 1
        elif c == "\xc3":
            need = 1
        elif c == "\xe2":
            need = 2
        elif c == "\xf0":
            need = 3
        else:
            S.assume(c == "a")
    S.assume(need == 0)
    return w


def unfold(S, t, wellformed):
    # an independent reading of the folded text of one content line
    S.check(t[-2:] == "\r\n", "ends with CRLF")
    parts = t[:-2].split("\r\n")
    out = ""
    for i, part in enumerate(parts):
        S.check(len(part) <= 75, "no line longer than 75 octets")
        S.check("\n" not in part and "\r" not in part, "no stray line break")
        if i:
            S.check(part[:1] == " ", "continuation starts with a space")
            part = part[1:]
            S.check(len(part) > 0, "continuation is not empty")
        if wellformed:
            c = part[:1]
            S.check(c != "\x80" and c != "\xbf", "no character is split")
        out = out + part
    return out


def card(S, t):
    return Card.parseText("BEGIN:VCARD\r\nVERSION:3.0\r\n" + t + "N:a;b;;;\r\nEND:VCARD\r\n")


def make(cls, name, val):
    return cls.parseText(name + ":" + val)


def lengths(S, lo, hi, cls):
    # every length of an ascii line
    n = S.conc(S.int("n", lo, hi))
    c = S.str("c", 1, 1, "a \t:;,=\"")
    k = S.conc(S.int("k", 0, 3))
    v = "b" * (n - k) + c + "d" * k
    cl = Property if cls == "ical" else VProperty
    t = make(cl, "X-N", v).getText()
    S.check(unfold(S, t, True) == "X-N:" + v, "nothing lost or added")
    if cls != "ical":
        got = card(S, t)
        S.check(got.getPropertyString("X-N") == v, "read back")
    S.observe(t)


def window(S, at, size, tail):
    # characters of every UTF-8 length around a fold point
    pad = S.conc(S.int("pad", at[0], at[1]))
    w = utf8(S, "w", size)
    v = "b" * pad + w + "d" * tail
    t = make(VProperty, "X-N", v).getText()
    S.check(unfold(S, t, True) == "X-N:" + v, "nothing lost or added")
    got = card(S, t)
    S.check(got.getPropertyString("X-N") == v, "read back")
    S.observe(t)


def dense(S, size, reps):
    # lines made of nothing but multi byte characters: every fold point falls inside one
    w = utf8(S, "w", size)
    pad = S.conc(S.int("pad", 0, 3))
    v = "b" * pad + w * reps
    t = make(Property, "X-N", v).getText()
    S.check(unfold(S, t, True) == "X-N:" + v, "nothing lost or added")
    S.observe(t)


def parameter(S, lo, hi, group):
    # the fold may fall in the name, the parameters or the value
    n = S.conc(S.int("n", lo, hi))
    w = utf8(S, "w", 4)
    if group:
        line = "g1.X-N;P=" + "b" * n + w + ":e" + w
        t = VProperty.parseText(line).getText()
    else:
        line = "X-N;P=" + "b" * n + w + ":e" + w
        t = Property.parseText(line).getText()
    S.check(unfold(S, t, True) == line, "nothing lost or added")
    S.observe(t)


def broken(S, lo, hi):
    # bytes that are not UTF-8 at all still come out whole
    n = S.conc(S.int("n", lo, hi))
    c = S.str("c", 1, 1, "\x80\xbf\xc3")
    pad = S.conc(S.int("pad", 0, 2))
    v = "b" * pad + c * n
    t = make(Property, "X-N", v).getText()
    S.check(unfold(S, t, False) == "X-N:" + v, "nothing lost or added")
    S.observe(t)


def text_value(S, lo, hi):
    # text values are escaped first and folded afterwards
    n = S.conc(S.int("n", lo, hi))
    w = S.str("w", 0, 3, "a;,\\\n ")
    v = "b" * n + w + "e" * 80
    p = Property("SUMMARY", v)
    t = p.getText()
    q = Property.parseText(unfold(S, t, True))
    S.check(q.getValue().getValue() == v, "text value")
    S.observe(t)


def unfolding(S, n, hi, kind):
    # folded wherever the writer likes, with CRLF or LF, space or tab
    k = S.conc(S.int("k", 1, n))
    nl = S.choice("nl", ["\r\n", "\n"])
    text = ""
    want = ""
    for i in range(k):
        if i:
            text = text + nl + S.str("f%d" % i, 1, 1, " \t")
        s = S.str("s%d" % i, 0, hi, "a \t:")
        text = text + s
        want = want + s
    if kind == "card":
        data = nl.join(["BEGIN:VCARD", "VERSION:3.0", "X-A:" + text, "X-B:z", "END:VCARD", ""])
        got = Card.parseText(data)
    else:
        data = nl.join(["BEGIN:VCALENDAR", "VERSION:2.0", "BEGIN:VEVENT", "X-A:" + text, "X-B:z", "END:VEVENT", "END:VCALENDAR", ""])
        got = Calendar.parseText(data).getComponents()[0]
    S.check(got.getPropertyString("X-A") == want, "unfolded")
    S.check(got.getPropertyString("X-B") == "z", "next line")
    S.check(len(got.getProperties()) == (3 if kind == "card" else 2), "number of properties")
    S.observe(want)


def name_folds(S):
    # a fold may sit anywhere in the line, even inside the name or BEGIN
    at = S.conc(S.int("at", 1, 21))
    f = S.str("f", 1, 1, " \t")
    nl = S.choice("nl", ["\r\n", "\n"])
    which = S.choice("which", [1, 2])
    lines = ["BEGIN:VCALENDAR", "BEGIN:VEVENT", "X-A;P=q;LANG=en:value!", "END:VEVENT", "VERSION:2.0", "END:VCALENDAR", ""]
    S.assume(at < len(lines[which]))
    lines[which] = lines[which][:at] + nl + f + lines[which][at:]
    ev = Calendar.parseText(nl.join(lines)).getComponents()[0]
    S.check(ev.getType() == "VEVENT", "component")
    S.check(ev.getPropertyString("X-A") == "value!", "value")
    S.check(ev.getProperties("X-A")[0].getParameterValue("P") == "q", "parameter")
    S.observe(ev.getText())


def blank_lines(S, kind):
    # line breaks at the end and blank lines between properties do not matter
    nl = S.choice("nl", ["\r\n", "\n"])
    a = S.choice("a", ["", nl, nl + nl])
    b = S.choice("b", ["", nl])
    end = S.choice("end", ["", nl, nl + nl, nl + nl + nl])
    s = S.str("s", 0, 2, "a :")
    if kind == "card":
        data = "BEGIN:VCARD" + nl + a + "VERSION:3.0" + nl + b + "X-A:" + s + nl + a + "END:VCARD" + end
        got = Card.parseText(data)
        n = 2
    else:
        data = "BEGIN:VCALENDAR" + nl + "VERSION:2.0" + nl + b + "BEGIN:VEVENT" + nl + a + "X-A:" + s + nl + b + "END:VEVENT" + nl + a + "END:VCALENDAR" + end
        got = Calendar.parseText(data).getComponents()[0]
        n = 1
    S.check(got.getPropertyString("X-A") == s, "value")
    S.check(len(got.getProperties()) == n, "number of properties")
    S.observe(got.getText())


HARNESSES = [
    ("lengths", lengths, {"lo": 60, "hi": 235, "cls": "ical"}, {"bounds": "values of every length from 60 to 235, one arbitrary character near the end"}),
    ("lengths_card", lengths, {"lo": 66, "hi": 76, "cls": "vcard"}, {"bounds": "lengths 66..76, read back as part of a vCard"}),
    ("window1", window, {"at": (63, 70), "size": 6, "tail": 5}, {"bounds": "every UTF-8 string of 6 bytes at each offset around the first fold"}),
    ("window2", window, {"at": (136, 144), "size": 5, "tail": 80}, {"bounds": "every UTF-8 string of 5 bytes around the second fold, and a third fold"}),
    ("dense", dense, {"size": 6, "reps": 50}, {"bounds": "every UTF-8 string of 6 bytes repeated to 300 bytes, offsets 0..3"}),
    ("parameter", parameter, {"lo": 58, "hi": 68, "group": False}, {"bounds": "4 UTF-8 bytes in a parameter and in the value around the fold"}),
    ("parameter_group", parameter, {"lo": 56, "hi": 62, "group": True}, {"bounds": "the same in a grouped vCard property"}),
    ("broken", broken, {"lo": 60, "hi": 160}, {"bounds": "runs of 60..160 continuation or lead bytes"}),
    ("text_value", text_value, {"lo": 60, "hi": 68}, {"bounds": "escaped text of up to 3 special characters around the fold"}),
    ("unfolding_card", unfolding, {"n": 4, "hi": 1, "kind": "card"}, {"bounds": "up to 3 folds, segments of up to 1 character of a, space, tab, colon"}),
    ("unfolding_cal", unfolding, {"n": 3, "hi": 2, "kind": "cal"}, {"bounds": "up to 2 folds, segments of up to 2 such characters"}),
    ("name_folds", name_folds, {}, {"bounds": "a fold at any position of a BEGIN line or a property line"}),
    ("blank_card", blank_lines, {"kind": "card"}, {"bounds": "up to 2 blank lines, CRLF or LF, missing final line break"}),
    ("blank_cal", blank_lines, {"kind": "cal"}, {"bounds": "up to 2 blank lines, CRLF or LF, missing final line break"}),
    ("window1_long", window, {"at": (60, 74), "size": 9, "tail": 5}, {"bounds": "9 UTF-8 bytes", "tier": "thorough"}),
    ("window2_long", window, {"at": (130, 150), "size": 8, "tail": 160}, {"bounds": "8 UTF-8 bytes", "tier": "thorough"}),
    ("dense_long", dense, {"size": 9, "reps": 60}, {"bounds": "9 UTF-8 bytes repeated", "tier": "thorough"}),
    ("unfolding_long", unfolding, {"n": 5, "hi": 2, "kind": "card"}, {"bounds": "up to 4 folds, segments of up to 2 characters", "tier": "thorough"}),
]
