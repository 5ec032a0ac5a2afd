# Recurrence sets: start, rules and dates, less excluded rules and dates
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet

BASE = (2020, 2, 26)


def dt(kind, mins):
    """minutes after 26 February 2020 00:00 (UTC for fixed kinds)"""
    if kind == "date":
        d = DateTime(*BASE)
        d.offsetDay(mins // 1440)
        return d
    if kind == "utc":
        d = DateTime(2020, 2, 26, 0, 0, 0, tzid=Timezone(utc=True))
    elif kind == "floating":
        d = DateTime(2020, 2, 26, 0, 0, 0)
    else:
        d = DateTime(2020, 2, 26, 0, 0, 0, tzid=Timezone(utc=False, tzid=kind * 60))
        mins = mins + kind
    d.offsetMinutes(mins)
    return d


def at(kind, x):
    """back to minutes"""
    y, m, d = x.getYear(), x.getMonth(), x.getDay()
    n = {2: 0, 3: 29}[m] + d - 26
    if kind == "date":
        return n * 1440
    t = n * 1440 + x.getHours() * 60 + x.getMinutes()
    if not x.utc() and x.getTimezoneID() is not None:
        t = t - x.getTimezoneID() // 60
    return t


def parse(text):
    r = Recurrence()
    r.parse(text)
    return r


def minutes(S, name, kind, days):
    """a moment on one of the days, at one of two times (a whole day for dates)"""
    d = S.int(name, 0, days)
    if kind == "date":
        return d * 1440
    return d * 1440 + S.int(name + "t", 540, 660)


def rule_of(S, p, kind, start, n):
    """(text, minutes of the instances) of a daily rule"""
    i = S.conc(S.int(p + "i", 1, 2))
    c = S.conc(S.int(p + "c", 1, n))
    return "FREQ=DAILY;INTERVAL=%s;COUNT=%s" % (i, c), [start + 1440 * i * k for k in range(c)]


def sets(S, kind, xkind, nrules, nex, ndates, nexdates, window):
    start = 600 if kind != "date" else 0
    rs = RecurrenceSet()
    include = [start]
    exclude = []
    for k in range(nrules):
        text, ms = rule_of(S, "r%d" % k, kind, start, 4)
        rs.addRule(parse(text))
        include += ms
    for k in range(nex):
        text, ms = rule_of(S, "x%d" % k, kind, start, 3)
        rs.subtractRule(parse(text))
        exclude += ms
    for k in range(ndates):
        m = minutes(S, "d%d" % k, kind, 3)
        rs.addDT(dt(xkind if k == 0 else kind, m))
        include.append(m)
    for k in range(nexdates):
        m = minutes(S, "e%d" % k, kind, 3)
        rs.subtractDT(dt(xkind, m))
        exclude.append(m)
    if window:
        a = minutes(S, "a", kind, 3)
        b = minutes(S, "b", kind, 5)
        S.assume(a < b)
    else:
        a, b = -1440, 20 * 1440
    before = [x.getText() for x in rs.getDates() + rs.getExdates()]
    items = []
    rs.expand(dt(kind, start), Period(dt(kind, a), dt(kind, b)), items)
    got = sorted([at(kind, x) for x in items])
    exp = []
    for m in sorted(include):
        if m in exclude or not (a <= m and m < b) or (exp and exp[-1] == m):
            continue
        exp.append(m)
    S.check(got == exp, "start, rules and dates less the excluded ones")
    again = []
    rs.expand(dt(kind, start), Period(dt(kind, a), dt(kind, b)), again)
    S.check(sorted([at(kind, x) for x in again]) == exp, "same again")
    S.check([x.getText() for x in rs.getDates() + rs.getExdates()] == before, "the dates are not changed")
    S.check(rs.hasRecurrence() == (nrules + nex + ndates + nexdates > 0), "recurs")
    S.observe(got)


def periods(S, kind, form, exclude):
    """an RDATE period counts when any of it lies in the window"""
    rs = RecurrenceSet()
    m = minutes(S, "p", kind, 3)
    n = S.choice("len", [60, 1440, 1470])
    p = Period(dt(kind, m), dt(kind, m + n)) if form == "end" else Period(dt(kind, m), duration=Duration(duration=n * 60))
    a = minutes(S, "a", kind, 3)
    b = minutes(S, "b", kind, 5)
    S.assume(a < b)
    exp = [600] if a <= 600 and 600 < b else []
    if exclude:
        rs.addRule(parse("FREQ=DAILY;COUNT=3"))
        rs.subtractPeriod(p)
        exp = [x for x in (600, 2040, 3480) if a <= x and x < b]
        if m < b and a < m + n:
            exp = [x for x in exp if x != m]
    else:
        rs.addPeriod(p)
        if m < b and a < m + n and m not in exp:
            exp.append(m)
    items = []
    rs.expand(dt(kind, 600), Period(dt(kind, a), dt(kind, b)), items)
    S.check(sorted([at(kind, x) for x in items]) == sorted(exp), "starts of the periods that overlap the window")
    S.observe(sorted(exp))


def both_periods(S, form):
    """a period that is both included and excluded, as another object or in another form"""
    m = minutes(S, "p", "utc", 3)
    n = S.choice("len", [60, 1470])
    e = m + 1440 * S.int("e", 0, 1)
    x = 30 * S.int("x", 0, 1)
    rs = RecurrenceSet()
    rs.addPeriod(Period(dt("utc", m), dt("utc", m + n)))
    if form == "date":
        rs.subtractDT(dt("utc", e))
    else:
        rs.subtractPeriod(Period(dt("utc", e), dt("utc", e + n - x)) if form == "end" else Period(dt("utc", e), duration=Duration(duration=(n - x) * 60)))
    a = minutes(S, "a", "utc", 4)
    b = a + S.choice("w", [60, 1440])
    exp = [600] if a <= 600 and 600 < b else []
    if m < b and a < m + n and m not in exp:
        exp.append(m)
    if form == "date" or e < b and a < e + n - x:
        exp = [t for t in exp if t != e]
    items = []
    rs.expand(dt("utc", 600), Period(dt("utc", a), dt("utc", b)), items)
    S.check(sorted([at("utc", t) for t in items]) == sorted(exp), "included less excluded periods")
    S.observe(sorted(exp))


def copies(S):
    """a copy has everything and is independent"""
    rs = RecurrenceSet()
    c = S.conc(S.int("c", 2, 4))
    rs.addRule(parse("FREQ=DAILY;COUNT=%s" % c))
    rs.subtractRule(parse("FREQ=DAILY;INTERVAL=3;COUNT=2"))
    m, e, p, q = [S.int(k, 0, 1) * 1440 + 600 for k in "mepq"]
    rs.addDT(dt("utc", m))
    rs.subtractDT(dt("utc", e))
    rs.addPeriod(Period(dt("utc", p), dt("utc", p + 60)))
    rs.subtractPeriod(Period(dt("utc", q), dt("utc", q + 60)))
    w = Period(dt("utc", 0), dt("utc", 30 * 1440))

    def run(x):
        items = []
        x.expand(dt("utc", 600), w, items)
        return sorted([at("utc", i) for i in items])
    d = rs.duplicate()
    exp = run(rs)
    S.check(run(d) == exp, "same instances")
    k = S.choice("what", ["date", "exdate", "rule", "exrule", "period", "experiod", "add"])
    if k == "date":
        d.getDates()[0].offsetDay(9)
    elif k == "exdate":
        d.getExdates()[0].offsetDay(9)
    elif k == "rule":
        d.getRules()[0].setCount(9)
    elif k == "exrule":
        d.getExrules()[0].setCount(9)
    elif k == "period":
        d.getPeriods()[0].getStart().offsetDay(9)
    elif k == "experiod":
        d.getExperiods()[0].getStart().offsetDay(9)
    else:
        d.addDT(dt("utc", 9 * 1440))
        d.subtractDT(dt("utc", 600))
    S.check(run(rs) == exp, "the original is not changed")
    S.observe(exp)


def rule_mix(S):
    """rules of different frequencies, instances given by more than one are given once"""
    rs = RecurrenceSet()
    wd = S.int("wd", 0, 6)
    md = S.int("md", 1, 10)
    names = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
    rs.addRule(parse("FREQ=WEEKLY;COUNT=3;BYDAY=%s" % names[S.conc(wd)]))
    rs.addRule(parse("FREQ=MONTHLY;BYMONTHDAY=%s" % md))
    xd = S.int("xd", 1, 10)
    rs.subtractRule(parse("FREQ=MONTHLY;BYMONTHDAY=%s" % xd))
    items = []
    rs.expand(dt("date", 0), Period(dt("date", 0), dt("date", 15 * 1440)), items)
    got = sorted([at("date", x) // 1440 for x in items])
    exp = []
    first = (wd - 3) % 7
    weekly = [0] + [first + 7 * k for k in range(4) if first + 7 * k > 0]
    weekly = weekly[:3]
    for n in range(15):
        if n in weekly or n == 0 or n == md + 3:
            # an excluded rule contains the start only if it falls on one of its days
            if n == xd + 3:
                continue
            exp.append(n)
    S.check(got == exp, "union less excluded")
    S.observe(got)


KINDS = ("utc", "date", "floating")
HARNESSES = [
    ("rule_exdate_%s" % k, sets, {"kind": k, "xkind": k, "nrules": 1, "nex": 0, "ndates": 0, "nexdates": 2, "window": False}, {"bounds": "a daily rule of 1..4 instances, two excluded times on 4 days"}) for k in KINDS
] + [
    ("rule_rdate_%s" % k, sets, {"kind": k, "xkind": k, "nrules": 1, "nex": 0, "ndates": 2, "nexdates": 0, "window": False}, {"bounds": "a daily rule of 1..4 instances, two added times on 4 days"}) for k in KINDS
] + [
    ("dates_%s" % k, sets, {"kind": k, "xkind": k, "nrules": 0, "nex": 0, "ndates": 2, "nexdates": 2, "window": False}, {"bounds": "two added and two excluded times on 4 days"}) for k in KINDS
] + [
    ("rules_%s" % k, sets, {"kind": k, "xkind": k, "nrules": 2, "nex": 1, "ndates": 0, "nexdates": 0, "window": False}, {"bounds": "two rules and an excluded rule"}) for k in KINDS
] + [
    ("exrule_exdate_%s" % k, sets, {"kind": k, "xkind": k, "nrules": 1, "nex": 1, "ndates": 1, "nexdates": 1, "window": False}, {"bounds": "a rule, an excluded rule, a date, an excluded date"}) for k in KINDS
] + [
    ("zones_%s" % str(x).replace("-", "m"), sets, {"kind": "utc", "xkind": x, "nrules": 1, "nex": 0, "ndates": 1, "nexdates": 1, "window": False}, {"bounds": "dates and excluded dates at offset %s min" % x}) for x in (-330, 90, 840)
] + [
    ("window_%s" % k, sets, {"kind": k, "xkind": k, "nrules": 1, "nex": 0, "ndates": 1, "nexdates": 1, "window": True}, {"bounds": "windows within 5 days", "tier": "quick" if k == "date" else "thorough"}) for k in KINDS
] + [
    ("window_%s_%s" % (n, k), sets, {"kind": k, "xkind": k, "nrules": a, "nex": 0, "ndates": b, "nexdates": c, "window": True}, {"bounds": "windows within 5 days", "tier": tier})
    for k, tier in (("utc", "quick"), ("floating", "thorough")) for n, a, b, c in (("exdate", 1, 0, 1), ("rdate", 1, 1, 0), ("dates", 0, 1, 1))
] + [
    ("window_exrule_%s" % k, sets, {"kind": k, "xkind": k, "nrules": 1, "nex": 1, "ndates": 0, "nexdates": 0, "window": True}, {"bounds": "windows within 5 days"}) for k in ("utc", "date")
] + [
    ("periods_%s%s" % (f, "_ex" if x else ""), periods, {"kind": "utc", "form": f, "exclude": x}, {"bounds": "periods of 60, 1440, 1470 minutes on 4 days, windows within 5 days"}) for f in ("end", "duration") for x in (False, True)
] + [
    ("both_periods_end", both_periods, {"form": "end"}, {"bounds": "a period on 4 days and an excluded one then or a day later, windows of an hour or a day"}),
    ("both_periods_date", both_periods, {"form": "date"}, {"bounds": "the same, excluded by its start"}),
    ("both_periods_duration", both_periods, {"form": "duration"}, {"bounds": "the same, given by duration", "tier": "thorough"}),
    ("copies", copies, {}, {"bounds": "one of each part"}),
    ("rule_mix", rule_mix, {}, {"bounds": "a weekly, a monthly and an excluded monthly rule"}),
]
