# Durations
from pycalendar.duration import Duration


def parts(d):
    return (d.getForward(), d.getWeeks(), d.getDays(), d.getHours(), d.getMinutes(), d.getSeconds())


def total(fwd, w, d, h, m, s):
    t = (((w * 7 + d) * 24 + h) * 60 + m) * 60 + s
    return t if fwd else -t


def construct(S, span):
    # a number of seconds is stored exactly, in the standard split
    n = S.int("n", -span, span)
    how = S.choice("how", ["init", "set"])
    if how == "init":
        d = Duration(duration=n)
    else:
        d = Duration(days=3, hours=4)
        d.setDuration(n)
    p = parts(d)
    S.check(d.getTotalSeconds() == n, "total")
    S.check(total(*p) == n, "parts add up")
    for x in p[1:]:
        S.check(x >= 0, "parts are not negative")
    S.check(p[3] < 24 and p[4] < 60 and p[5] < 60, "parts in range")
    if p[1] != 0:
        S.check(p[2] == 0 and p[3] == 0 and p[4] == 0 and p[5] == 0, "weeks stand alone")
    e = d.duplicate()
    S.check(parts(e) == p, "copy")
    d.setDuration(5)
    S.check(parts(e) == p, "copy is independent")
    S.observe(list(p))


def kwargs(S):
    w = S.int("w", 0, 99)
    d = S.int("d", 0, 99)
    h = S.int("h", 0, 99)
    m = S.int("m", 0, 99)
    s = S.int("s", 0, 99)
    x = Duration(weeks=w, days=d, hours=h, minutes=m, seconds=s)
    S.check(x.getTotalSeconds() == total(True, w, d, h, m, s), "total of the given parts")
    S.observe(x.getTotalSeconds())


def numeral(t):
    n = 0
    for c in t:
        n = n * 10 + ord(c) - 48
    return n


def read(S, text):
    """(seconds, units used) by an independent reading of the RFC 5545 grammar, or None"""
    i = 0
    fwd = True
    if text[:1] in ("+", "-") and text:
        fwd = text[0] == "+"
        i = 1
    if text[i:i + 1] != "P":
        return None
    i += 1
    tot = 0
    time = False
    units = ""
    num = ""
    for c in text[i:]:
        if c in "0123456789":
            num += c
        elif c == "T":
            if time or num:
                return None
            time = True
            units += "T"
        else:
            if not num or c not in "WDHMS":
                return None
            k = {"W": 604800, "D": 86400, "H": 3600, "M": 60, "S": 1}[c]
            if (c in "WD") == time:
                return None
            tot += numeral(num) * k
            num = ""
            units += c
    if num:
        return None
    if units not in ("W", "D", "DTH", "DTHM", "DTHMS", "DTHS", "DTM", "DTMS", "DTS", "TH", "THM", "THMS", "THS", "TM", "TMS", "TS"):
        return None
    return (tot if fwd else -tot), units


def text(S, weeks):
    # every number of seconds is days, hours, minutes and seconds in exactly one way
    if weeks:
        n = 604800 * S.int("w", 0, 9999)
    else:
        n = ((S.int("d", 0, 9999) * 24 + S.int("h", 0, 23)) * 60 + S.int("m", 0, 59)) * 60 + S.int("s", 0, 59)
    if S.bool("neg"):
        n = -n
    d = Duration(duration=n)
    t = d.getText()
    r = read(S, t)
    S.check(r is not None, "standard form")
    S.check(r[1] not in ("DTHS", "THS"), "no unit left out between others")
    S.check(r[0] == n, "text has the value")
    back = Duration.parseText(t)
    S.check(back.getTotalSeconds() == n, "reads back")
    S.check(back == d and not (back != d), "reads back equal")
    S.check(back.getText() == t, "same text again")
    j = []
    d.writeJSON(j)
    S.check(j == [t], "JSON is the text")
    b2 = Duration()
    b2.parseJSON(j[0])
    S.check(b2.getTotalSeconds() == n, "reads back from JSON")
    S.observe(t)


FORMS = ("W", "D", "DTH", "DTHM", "DTHMS", "DTM", "DTMS", "DTS", "TH", "THM", "THMS", "TM", "TMS", "TS", "DTHS", "THS")


def parse_form(S, digits):
    form = S.choice("form", FORMS)
    sign = S.choice("sign", ["", "+", "-"])
    t = sign + "P"
    tot = 0
    for i, c in enumerate(form):
        if c == "T":
            t += "T"
            continue
        num = S.str("n%d" % i, 1, digits, "0123456789")
        t += num + c
        tot += numeral(num) * {"W": 604800, "D": 86400, "H": 3600, "M": 60, "S": 1}[c]
    d = Duration.parseText(t)
    S.check(d.getTotalSeconds() == (-tot if sign == "-" else tot), "value read")
    back = Duration.parseText(d.getText())
    S.check(back.getTotalSeconds() == d.getTotalSeconds(), "written out and read back")
    S.observe(d.getTotalSeconds())


def junk(S, lo, hi, alphabet, prefix):
    t = prefix + S.str("t", lo, hi, alphabet)
    try:
        d = Duration.parseText(t)
    except ValueError:
        S.check(read(S, t) is None, "a well formed duration is accepted")
        S.observe("rejected")
        return
    n = d.getTotalSeconds()
    r = read(S, t)
    if r is not None:
        S.check(r[0] == n, "value read")
    else:
        # the tolerated deviations: text after W, nothing after T
        S.check("W" in t or t[-1] == "T", "only the documented deviations are tolerated")
    S.check(Duration.parseText(d.getText()).getTotalSeconds() == n, "written out and read back")
    S.observe(n)


def order(S, span):
    a = S.int("a", -span, span)
    b = S.int("b", -span, span)
    x = Duration(duration=a)
    if S.bool("weeks"):
        S.assume(b % 604800 == 0)
    y = Duration(duration=b)
    S.check((x == y) == (a == b), "==")
    S.check((x != y) == (a != b), "!=")
    S.check((x < y) == (a < b), "<")
    S.check((x <= y) == (a <= b), "<=")
    S.check((x > y) == (a > b), ">")
    S.check((x >= y) == (a >= b), ">=")
    if a == b:
        S.check(hash(x) == hash(y), "hash")
    S.observe([x == y, x < y])


def order_text(S):
    # the same length written differently is the same duration
    a = S.int("a", 0, 99)
    x = Duration.parseText("P%dW" % a)
    y = Duration.parseText("P%dD" % (a * 7))
    z = Duration.parseText("PT%dH" % (a * 168))
    S.check(x == y and y == z and hash(x) == hash(y) and hash(y) == hash(z), "equal")
    n = Duration.parseText("-P%dW" % a)
    S.check((n == x) == (a == 0), "sign matters")
    S.observe(x.getTotalSeconds())


HARNESSES = [
    ("construct", construct, {"span": 10 ** 9}, {"bounds": "-10^9..10^9 seconds"}),
    ("kwargs", kwargs, {}, {"bounds": "each part 0..99"}),
    ("text", text, {"weeks": False}, {"bounds": "up to 9999 days either way, every second"}),
    ("text_weeks", text, {"weeks": True}, {"bounds": "up to 9999 weeks either way"}),
    ("parse_form", parse_form, {"digits": 2}, {"bounds": "every form of the grammar, numbers of 1..2 digits", "tier": "quickonly"}),
    ("parse_form_long", parse_form, {"digits": 4}, {"bounds": "every form of the grammar, numbers of 1..4 digits", "tier": "thorough"}),
    ("junk", junk, {"lo": 0, "hi": 4, "alphabet": "+-PTWDHMS1", "prefix": ""}, {"bounds": "every text of up to 4 characters of +-PTWDHMS1"}),
    ("junk_time", junk, {"lo": 0, "hi": 6, "alphabet": "TDHMSW02", "prefix": "P1DT"}, {"bounds": "P1DT followed by up to 6 characters of TDHMSW02", "tier": "quickonly"}),
    ("junk_long", junk, {"lo": 5, "hi": 6, "alphabet": "+-PTWDHMS1", "prefix": ""}, {"bounds": "every text of 5..6 characters of +-PTWDHMS1", "tier": "thorough"}),
    ("order", order, {"span": 10 ** 7}, {"bounds": "pairs up to 10^7 seconds"}),
    ("order_text", order_text, {}, {"bounds": "0..99 weeks"}),
]
