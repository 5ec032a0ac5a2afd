# Expanding a recurrence gives the same answer whatever was asked before
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.exceptions import TooManyInstancesError

UTC = True


def dt(kind, day, hour=9):
    """hour on the day-th day from 20 February 2020 (leap year)"""
    d = DateTime(2020, 2, 20, hour, 0, 0, tzid=Timezone(utc=True)) if kind == "utc" else DateTime(2020, 2, 20, hour, 0, 0) if kind == "floating" else DateTime(2020, 2, 20)
    d.offsetDay(day)
    return d


def parse(text):
    r = Recurrence()
    r.parse(text)
    return r


def rule_text(S, kind):
    if kind == "daily":
        return "FREQ=DAILY;INTERVAL=%s" % S.conc(S.int("i", 1, 3))
    if kind == "daily_count":
        return "FREQ=DAILY;COUNT=%s" % S.conc(S.int("c", 1, 4))
    if kind == "daily_until":
        return "FREQ=DAILY;INTERVAL=2;UNTIL=202002%02d" % S.int("u", 20, 28)
    if kind == "weekly":
        return "FREQ=WEEKLY;BYDAY=%s" % S.choice("wd", ["MO", "TH", "SA,SU"])
    if kind == "weekly_count":
        return "FREQ=WEEKLY;BYDAY=TU,FR;COUNT=%s" % S.conc(S.int("c", 1, 4))
    if kind == "weekly_until":
        return "FREQ=WEEKLY;BYDAY=TU,FR;UNTIL=202003%02d" % S.int("u", 1, 9)
    if kind == "monthly":
        return "FREQ=MONTHLY;BYMONTHDAY=%s" % S.int("md", 1, 28)
    return kind


def texts(items):
    return sorted([x.getText() for x in items])


def ask(S, r, start, window, how, limit):
    items = []
    try:
        if how == "rule":
            r.expand(start, window, items, maxInstances=limit)
        else:
            rs = r
            rs.expand(start, window, items, maxInstances=limit)
    except TooManyInstancesError:
        return "too many"
    return items


def fresh(S, text, how):
    r = parse(text)
    if how == "rule":
        return r
    rs = RecurrenceSet()
    rs.addRule(r)
    return rs


def shown(x):
    return x if x == "too many" else texts(x)


def history(S, rule, how, kind, n, span, starts, limits):
    """the last of n questions is answered as a fresh rule answers it"""
    text = rule_text(S, rule)
    r = fresh(S, text, how)
    for i in range(n):
        p = "q%d" % i
        s0 = S.conc(S.int(p + "s", 0, 1)) if starts else 0
        a = S.int(p + "a", -2, span)
        b = S.int(p + "b", -1, span + 1)
        S.assume(a < b)
        start = dt(kind, s0)
        window = Period(dt(kind, a), dt(kind, b))
        limit = S.choice(p + "l", limits) if limits else None
        before = start.getText()
        got = ask(S, r, start, window, how, limit)
        if i == n - 1:
            exp = ask(S, fresh(S, text, how), dt(kind, s0), Period(dt(kind, a), dt(kind, b)), how, limit)
            S.check(shown(got) == shown(exp), "same as a fresh expansion")
            S.observe(shown(got))
        S.check(start.getText() == before, "start unchanged")
        S.check(window.getStart() == dt(kind, a) and window.getEnd() == dt(kind, b), "window unchanged")


def places(S, rule, n):
    """questions of starts on the same clock in different zones"""
    text = rule_text(S, rule)
    r = fresh(S, text, "rule")
    zones = {"utc": Timezone(utc=True), "floating": Timezone(utc=False), "east": Timezone(utc=False, tzid="East"), "west": Timezone(utc=False, tzid="West")}

    def start(z, hour, day):
        if z == "date":
            return DateTime(2020, 2, 20)
        return DateTime(2020, 2, 20 + day, hour, 0, 0, tzid=zones[z])

    for i in range(n):
        p = "q%d" % i
        z = S.choice(p + "z", ["utc", "floating", "east", "west"] + ([] if "BYHOUR" in rule else ["date"]))
        hour = S.choice(p + "h", [7, 9])
        day = S.conc(S.int(p + "d", 0, 1))
        w = S.int(p + "w", 1, 4)
        off = S.choice(p + "o", [0, 3600])
        ans = []
        for x in (r, fresh(S, text, "rule")):
            items = []
            x.expand(start(z, hour, day), Period(dt("utc", -1, 0), dt("utc", w, 8)), items, float_offset=off)
            ans.append([(y.getText(), y.getTimezoneID(), bool(y.utc())) for y in items])
        S.check(ans[0] == ans[1], "same as a fresh expansion")
        S.observe(ans[0])


def parts(S, rule, how, span):
    """a window is answered as the join of its two halves"""
    text = rule_text(S, rule)
    a = S.int("a", -2, span)
    m = S.int("m", -1, span + 1)
    b = S.int("b", -1, span + 1)
    S.assume(a < m)
    S.assume(m < b)
    r = fresh(S, text, how)
    x = ask(S, r, dt("utc", 0), Period(dt("utc", m), dt("utc", b)), how, None)
    y = ask(S, r, dt("utc", 0), Period(dt("utc", a), dt("utc", m)), how, None)
    z = ask(S, fresh(S, text, how), dt("utc", 0), Period(dt("utc", a), dt("utc", b)), how, None)
    S.check(sorted(texts(x) + texts(y)) == texts(z), "the halves make the whole")
    S.observe(texts(z))


def mutate(S, rule, how, span):
    """changing the answers, the start or the window afterwards changes nothing"""
    text = rule_text(S, rule)
    r = fresh(S, text, how)
    b = S.int("b", 1, span)
    start = dt("utc", 0)
    end = dt("utc", b)
    got = ask(S, r, start, Period(dt("utc", 0), end), how, None)
    exp = texts(got)
    k = S.choice("what", ["items", "start", "end", "list"])
    if k == "items":
        for x in got:
            if x is not start:
                x.offsetHours(5)
    elif k == "start":
        start.offsetDay(1)
    elif k == "end":
        end.offsetDay(40)
    else:
        got.append(dt("utc", 3))
    again = ask(S, r, dt("utc", 0), Period(dt("utc", 0), dt("utc", b)), how, None)
    S.check(texts(again) == exp, "same again")
    c = S.int("w", 1, span + 20)
    later = ask(S, r, dt("utc", 0), Period(dt("utc", 0), dt("utc", c)), how, None)
    S.check(texts(later) == texts(ask(S, fresh(S, text, how), dt("utc", 0), Period(dt("utc", 0), dt("utc", c)), how, None)), "and in another window")
    S.observe(texts(later))


def changed(S, rule, what):
    """a rule changed through its setters answers as a fresh rule with the same text"""
    r = parse(rule_text(S, rule))
    v = S.conc(S.int("v", 1, 4))
    if what == "count_on":
        r.setCount(v)
    elif what == "count_off":
        r.setUseCount(True)
        r.setCount(v)
    elif what == "until_on":
        r.setUntil(dt("utc", v))
    elif what == "until_off":
        r.setUseUntil(True)
        r.setUntil(dt("utc", v))
    elif what == "emptied":
        r.setByDay([(0, v)])
    ask(S, r, dt("utc", 0), Period(dt("utc", 0), dt("utc", S.conc(S.int("b", 1, 12)))), "rule", None)
    if what == "count_on":
        r.setUseCount(True)
    elif what == "count_off":
        r.setUseCount(False)
    elif what == "until_on":
        r.setUseUntil(True)
    elif what == "until_off":
        r.setUseUntil(False)
    elif what == "emptied":
        r.setByDay([])
    elif what == "byyearday":
        r.setFreq(6)
        r.setByYearDay([52 + v, 54])
    elif what == "interval":
        r.setInterval(v)
    elif what == "count":
        r.setUseCount(True)
        r.setCount(v)
        r.setUseUntil(False)
    elif what == "until":
        r.setUseUntil(True)
        r.setUseCount(False)
        r.setUntil(dt("utc", v))
    elif what == "freq":
        r.setFreq([None, 3, 4, 5, 6][v])
    elif what == "byday":
        r.setByDay([(0, v)])
    elif what == "bymonthday":
        r.setByMonthDay([19 + v, 22])
    elif what == "bymonth":
        r.setByMonth([v])
    elif what == "until_kind":
        r.setUseUntil(True)
        r.setUseCount(False)
        r.setUntil(DateTime(2020, 2, 20 + v))
        ask(S, r, dt("utc", 0), Period(dt("utc", 0), dt("utc", 6)), "rule", None)
        r.setUntil(dt("utc", v, 8))
        S.check(r.getUntil().getText() == dt("utc", v, 8).getText(), "UNTIL is set")
    elif what == "parse":
        r.parse("FREQ=DAILY;INTERVAL=%s" % v)
    elif what == "bysetpos":
        r.setByDay([(0, 1), (0, 3), (0, 5)])
        r.setBySetPos([v])
    window = Period(dt("utc", 0), dt("utc", 12))
    got = ask(S, r, dt("utc", 0), window, "rule", None)
    exp = ask(S, parse(r.getText()), dt("utc", 0), window, "rule", None)
    S.check(texts(got) == texts(exp), "as a fresh rule")
    S.observe(texts(got))


def limit(S, rule, how):
    """a limit that is not exceeded changes nothing, and one that is raises"""
    text = rule_text(S, rule)
    b = S.int("b", 1, 9)
    n = S.int("n", 1, 6)
    window = Period(dt("utc", 0), dt("utc", b))
    whole = texts(ask(S, fresh(S, text, how), dt("utc", 0), window, how, None))
    got = ask(S, fresh(S, text, how), dt("utc", 0), window, how, n)
    if len(whole) <= n:
        S.check(got != "too many", "not too many")
        S.check(texts(got) == whole, "same instances")
    elif len(whole) > n + 1:
        S.check(got == "too many", "too many")
    elif got != "too many":
        S.check(texts(got) == whole, "same instances")
    S.observe(shown(got))


def copy(S, rule, how):
    """a copy of a used rule answers like the rule and on its own"""
    text = rule_text(S, rule)
    r = fresh(S, text, how)
    ask(S, r, dt("utc", 0), Period(dt("utc", 0), dt("utc", S.int("b", 1, 9))), how, None)
    d = r.duplicate()
    w = Period(dt("utc", 0), dt("utc", S.int("w", 1, 12)))
    exp = texts(ask(S, fresh(S, text, how), dt("utc", 0), w, how, None))
    got = ask(S, d, dt("utc", 0), w, how, None)
    S.check(texts(got) == exp, "the copy")
    rule = d if how == "rule" else d.getRules()[0]
    rule.setUseUntil(False)
    rule.setUseCount(True)
    rule.setCount(1)
    S.check(texts(ask(S, r, dt("utc", 0), w, how, None)) == exp, "the original")
    S.observe(exp)


RULES = ("daily", "daily_count", "daily_until", "weekly", "weekly_count", "weekly_until", "monthly")
HARNESSES = [
    ("history_%s_%s" % (k, h), history, {"rule": k, "how": h[:4].strip("_"), "kind": "utc", "n": 2, "span": sp, "starts": st, "limits": None},
     {"bounds": "two questions, starts %s, windows of whole days within -2..%d days of the start" % ("a day apart" if st else "alike", sp + 1), "tier": tier})
    for k in RULES for h, sp, st, tier in (("rule", 4, True, "quick"), ("set", 7, False, "quick"), ("rule_far", 12, True, "thorough"))
] + [
    ("history3_%s" % k, history, {"rule": k, "how": "rule", "kind": "utc", "n": 3, "span": 3, "starts": False, "limits": None},
     {"bounds": "three questions, windows within -2..4 days of the start", "tier": "quick" if k in ("daily", "weekly_count") else "thorough"}) for k in RULES
] + [
    ("history_limit_%s" % k, history, {"rule": k, "how": "rule", "kind": "utc", "n": 2, "span": 4, "starts": False, "limits": [None, 1, 3]},
     {"bounds": "two questions with limits none, 1, 3"}) for k in ("daily", "daily_count", "weekly", "weekly_count")
] + [
    ("history_%s_%s" % (k, kind), history, {"rule": k, "how": "set", "kind": kind, "n": 2, "span": 4, "starts": True, "limits": None},
     {"bounds": "two questions on %s starts" % kind}) for k in ("daily", "weekly", "weekly_count") for kind in ("date", "floating")
] + [
    ("places_%s" % k, places, {"rule": rule, "n": 2}, {"bounds": "two questions of starts of two hours and two days in UTC, floating, two zones or (but for hours) dates, with two floating offsets, windows of 1 to 4 days"})
    for k, rule in (("daily", "FREQ=DAILY;COUNT=3"), ("until", "FREQ=DAILY;UNTIL=20200222T080000Z"), ("byhour", "FREQ=DAILY;BYHOUR=7,9;COUNT=4"))
] + [
    ("parts_%s" % k, parts, {"rule": k, "how": "set", "span": 8}, {"bounds": "windows within -2..9 days of the start"}) for k in RULES
] + [
    ("mutate_%s_%s" % (k, h), mutate, {"rule": k, "how": h, "span": 9}, {"bounds": "windows up to 9 and up to 29 days"}) for k in ("daily", "weekly", "daily_count", "weekly_until") for h in ("rule", "set")
] + [
    ("changed_%s_%s" % (k, w), changed, {"rule": k, "what": w}, {"bounds": "one change of the rule after an expansion of 1..12 days"})
    for k in ("daily", "weekly") for w in ("interval", "count", "until", "freq", "byday", "bymonthday", "bymonth", "until_kind", "parse", "bysetpos", "count_on", "count_off", "until_on", "until_off", "emptied", "byyearday")
] + [
    ("limit_%s_%s" % (k, h), limit, {"rule": k, "how": h}, {"bounds": "limits 1..6, windows of 1..9 days"}) for k in ("daily", "daily_count", "weekly", "weekly_count") for h in ("rule", "set")
] + [
    ("copy_%s_%s" % (k, h), copy, {"rule": k, "how": h}, {"bounds": "windows of 1..12 days"}) for k in ("daily", "weekly_count") for h in ("rule", "set")
]
