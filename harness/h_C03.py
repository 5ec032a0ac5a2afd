# Date-time text forms
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
import refcal


def tz_of(S, kind, lo=-24 * 60 + 1, hi=24 * 60 - 1):
    if kind == "utc":
        return Timezone(utc=True)
    if kind == "offset":
        om = S.int("om", lo, hi)
        return Timezone(utc=False, tzid=om * 60)
    return None


def build(S, kind):
    y = S.int("y", 0, 9999)
    m = S.int("m", 1, 12)
    d = S.int("d", 1, 31)
    if kind == "date":
        return DateTime(y, m, d), (y, m, d, 0, 0, 0)
    h = S.int("h", 0, 23)
    mi = S.int("mi", 0, 59)
    s = S.int("s", 0, 59)
    return DateTime(y, m, d, h, mi, s, tzid=tz_of(S, kind)), (y, m, d, h, mi, s)


def fields(dt):
    return (dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds())


def same(S, a, f, kind, ref, what):
    g = fields(a)
    for i in range(6):
        S.check(g[i] == f[i], "%s: field %d" % (what, i))
    S.check(a.isDateOnly() == (kind == "date"), what + ": date only")
    S.check(bool(a.utc()) == (kind == "utc"), what + ": utc")
    if kind == "offset":
        S.check(a.getTimezoneID() == ref.getTimezoneID(), what + ": offset")
    else:
        S.check(a.getTimezoneID() is None, what + ": no timezone")


def digits(S, p, n):
    return [S.int("%s%d" % (p, i), 0, 9) for i in range(n)]


def shape(S, text, kind, iso, f, om):
    # the output is exactly the standard form of the fields
    pos = 0
    lens = (4, 2, 2, 2, 2, 2)
    seps = ("", "-", "-", "T", ":", ":") if iso else ("", "", "", "T", "", "")
    for i in range(3 if kind == "date" else 6):
        if seps[i]:
            S.check(text[pos] == seps[i], "separator")
            pos += 1
        S.check(int(text[pos:pos + lens[i]]) == f[i], "digits of field %d" % i)
        for k in range(lens[i]):
            S.check(text[pos + k].isdigit(), "only digits")
        pos += lens[i]
    if kind == "utc":
        S.check(text[pos:] == "Z", "Z suffix")
    elif kind == "offset":
        sign = -1 if text[pos] == "-" else 1
        S.check(text[pos] in "+-", "offset sign")
        S.check(int(text[pos + 1:pos + 3]) * sign * 60 + int(text[-2:]) * sign == om, "offset value")
        S.check(len(text) == pos + (6 if iso else 5), "offset length")
    else:
        S.check(len(text) == pos, "nothing after it")


def text_form(S, kind):
    dt, f = build(S, kind)
    t = dt.getText()
    shape(S, t, kind, False, f, dt.getTimezoneID() // 60 if kind == "offset" else 0)
    back = DateTime.parseText(t, fullISO=(kind == "offset"))
    same(S, back, f, kind, dt, "text")
    S.check(back.getText() == t, "same text again")
    S.observe(t)


def iso_form(S, kind):
    dt, f = build(S, kind)
    j = []
    dt.writeJSON(j)
    t = j[0]
    shape(S, t, kind, True, f, dt.getTimezoneID() // 60 if kind == "offset" else 0)
    S.check(t == dt.getXMLText(), "JSON and XML text agree")
    back = DateTime()
    back.parseJSON(t)
    same(S, back, f, kind, dt, "json")
    b2 = DateTime.parseText(t, fullISO=True)
    same(S, b2, f, kind, dt, "iso text")
    S.observe(t)


def parse_basic(S, kind, iso):
    # the standard compact form is read with every field in its place, in both modes
    y = S.int("y", 0, 9999)
    m = S.int("m", 0, 99)
    d = S.int("d", 0, 99)
    t = "%04d%02d%02d" % (y, m, d)
    f = (y, m, d, 0, 0, 0)
    if kind != "date":
        h = S.int("h", 0, 99)
        mi = S.int("mi", 0, 99)
        s = S.int("s", 0, 99)
        t += "T%02d%02d%02d" % (h, mi, s)
        f = (y, m, d, h, mi, s)
        if kind == "utc":
            t += "Z"
    dt = DateTime.parseText(t, fullISO=iso)
    same(S, dt, f, kind, None, "parsed")
    S.observe(list(fields(dt)))


def frac(S, n):
    f = (S.int("h", 0, 23), S.int("mi", 0, 59), S.int("s", 0, 59))
    z = S.choice("z", ["", "Z", "+0100", "-05:30"])
    t = S.choice("form", ["2020-05-17T%02d:%02d:%02d", "20200517T%02d%02d%02d"]) % f + "," + S.str("f", 1, n, "0123456789") + z
    dt = DateTime.parseText(t, fullISO=True)
    S.check(fields(dt) == (2020, 5, 17) + f, "fraction is dropped")
    S.check(dt.utc() == (z == "Z"), "utc")
    S.check(dt.getTimezoneID() == {"": None, "Z": None, "+0100": 3600, "-05:30": -19800}[z], "offset")
    S.check(not dt.isDateOnly(), "a time")
    S.observe(dt.getText())


def junk(S, prefix, lo, hi, iso, alphabet):
    # anything else raises ValueError, and whatever is accepted prints as a text that reads back equal
    t = prefix + S.str("t", lo, hi, alphabet)
    try:
        dt = DateTime.parseText(t, fullISO=iso)
    except ValueError:
        S.reached()
        S.observe("rejected")
        return
    n = len(prefix) + 0
    if not iso:
        S.check(len(t) <= 16, "extra text is not accepted")
        if len(t) > 8:
            S.check(t[8] == "T", "T separator")
        if len(t) == 16:
            S.check(t[15] == "Z", "only Z may follow")
        S.check(dt.utc() == (len(t) == 16), "Z means UTC")
        S.check(dt.isDateOnly() == (len(t) <= 8), "no time part means date")
    else:
        S.check(dt.isDateOnly() == ("T" not in t), "no time part means date")
    out = dt.getText()
    back = DateTime.parseText(out, fullISO=iso)
    S.check(fields(back) == fields(dt), "reads back equal")
    S.check(back.utc() == dt.utc() and back.getTimezoneID() == dt.getTimezoneID() and back.isDateOnly() == dt.isDateOnly(), "reads back in the same zone")
    S.observe(out)


KINDS = ("date", "floating", "utc", "offset")
HARNESSES = [("text_" + k, text_form, {"kind": k}, {"bounds": "every %s value, years 0..9999" % k}) for k in KINDS] + \
    [("iso_" + k, iso_form, {"kind": k}, {"bounds": "every %s value, years 0..9999" % k}) for k in KINDS] + \
    [("parse_%s_%s" % (k, "iso" if iso else "basic"), parse_basic, {"kind": k, "iso": iso}, {"bounds": "all digit texts of the form"})
     for k in KINDS[:3] for iso in (False, True)] + [
    ("fraction", frac, {"n": 4}, {"bounds": "fractions of 1..4 digits"}),
    ("junk_date", junk, {"prefix": "2020", "lo": 0, "hi": 6, "iso": False, "alphabet": "0139TZ-x"}, {"bounds": "2020 followed by 0..6 characters of 0139TZ-x"}),
    ("junk_tail", junk, {"prefix": "20200131", "lo": 0, "hi": 9, "iso": False, "alphabet": "07TZ:+"}, {"bounds": "20200131 followed by 0..9 characters of 07TZ:+"}),
    ("junk_iso", junk, {"prefix": "2020-01-31T10:11:12", "lo": 0, "hi": 7, "iso": True, "alphabet": "05+:-,Zx"}, {"bounds": "a time followed by 0..7 characters of 05+:-,Zx"}),
]
