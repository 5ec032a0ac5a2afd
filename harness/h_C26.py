# tzdata rules and zones
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from zonal.rule import Rule, RuleSet
from zonal.zone import Zone
import refcal

MONTHS = ["", "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"]

# day: ("last", weekday), (">=", weekday, n) or n ; time: (seconds, mode)


def day_text(day):
    if not isinstance(day, tuple):
        return str(day)
    if day[0] == "last":
        return "last" + DAYS[day[1]]
    return DAYS[day[1]] + ">=" + str(day[2])


def hm(secs):
    t = "%d:%02d" % (secs // 3600, secs // 60 % 60)
    return t + (":%02d" % (secs % 60) if secs % 60 else "")


def off_text(secs):
    return hm(secs) if secs >= 0 else "-" + hm(-secs)


def rule_line(r):
    """r = (name, from, to, month, day, (secs, mode), save, letter)"""
    name, frm, to, month, day, at, save, letter = r
    return "\t".join(["Rule", name, str(frm), "only" if to == frm else "max" if to is None else str(to), "-", MONTHS[month], day_text(day), hm(at[0]) + at[1],
                      off_text(save) if save else "0", letter])


def zone_text(name, lines):
    """lines = [(gmtoff, rule name or seconds or None, format, until or None)], until = (year, month, day, secs, mode)"""
    out = []
    for n, (gmtoff, rule, fmt, until) in enumerate(lines):
        r = "-" if rule is None else rule if isinstance(rule, str) else off_text(rule)
        t = ["Zone " + name if n == 0 else "\t\t", off_text(gmtoff), r, fmt]
        if until:
            t.append("%d %s %s %s" % (until[0], MONTHS[until[1]], day_text(until[2]), hm(until[3]) + until[4]))
        out.append("\t".join(t))
    return "\n".join(out)


def rules_of(data):
    out = {}
    for name in sorted(set([r[0] for r in data])):
        s = RuleSet()
        s.parse("\n".join([rule_line(r) for r in data if r[0] == name]))
        out[name] = s
    return out


def zone_of(name, lines):
    z = Zone()
    z.parse(zone_text(name, lines))
    return z


def day_number(y, month, day):
    if not isinstance(day, tuple):
        return refcal.days(y, month, day)
    if day[0] == "last":
        last = refcal.days(y, month, refcal.mlen(y, month))
        return last - ((last + 4) % 7 - day[1]) % 7
    first = refcal.days(y, month, day[2])
    return first + (day[1] - (first + 4) % 7) % 7


def local_second(y, month, day, secs):
    return day_number(y, month, day) * 86400 + (86399 if secs == 86400 else secs)


def to_utc(t, mode, std, offset):
    return t if mode in ("u", "g", "z") else t - std if mode == "s" else t - offset


def transitions(rules, lines, upto):
    """[(utc second, offset from then on)]: what the lines of the zone say, in order"""
    out = []
    start = None
    last = lines[0][0]
    for gmtoff, rule, fmt, until in lines:
        occ = []
        save = 0
        if isinstance(rule, str):
            for r in rules:
                if r[0] == rule:
                    for y in range(r[1], (upto if r[2] is None else min(r[2], upto)) + 1):
                        occ.append((local_second(y, r[3], r[4], r[5][0]), r[5][1], r[6]))
            occ.sort()
        elif rule is not None:
            save = rule
        here = []
        for t, mode, s in occ:
            u = to_utc(t, mode, gmtoff, gmtoff + save)
            if start is not None and u <= start:
                save = s
                continue
            if until is not None and u >= to_utc(local_second(*until[:4]), until[4], gmtoff, gmtoff + save):
                break
            if not here and start is not None:
                here.append((start, gmtoff + save))
            here.append((u, gmtoff + s))
            save = s
        if not here and start is not None:
            here.append((start, gmtoff + save))
        out += here
        if until is not None:
            start = to_utc(local_second(*until[:4]), until[4], gmtoff, gmtoff + save)
    return out


def offset_at(trans, t):
    found = None
    for u, off in trans:
        if u <= t:
            found = off
    return found


def first_from(trans, year):
    """the first change of the zone in or after a year: what is generated starts there"""
    return min([u for u, off in trans if u >= refcal.jan1(year) * 86400])


def instant(S, years, p=""):
    y = S.choice(p + "y", years)
    m = S.conc(S.int(p + "m", 1, 12))
    f = (y, m, S.int(p + "d", 1, refcal.mlen(y, m)), S.int(p + "h", 0, 23), S.int(p + "mi", 0, 59), S.int(p + "s", 0, 59))
    return f, refcal.days(*f[:3]) * 86400 + f[3] * 3600 + f[4] * 60 + f[5]


def fields(dt):
    return dt.getYear(), dt.getMonth(), dt.getDay(), dt.getHours(), dt.getMinutes(), dt.getSeconds()


def rule_date(S, form, lo, hi, ns=None):
    """a rule names the right day of every year"""
    month = S.conc(S.int("month", 1, 12))
    y = S.int("y", lo, hi)
    wd = S.conc(S.int("wd", 0, 6)) if form != "n" else 0
    if form == "last":
        day = ("last", wd)
    elif form == ">=":
        day = (">=", wd, S.choice("n", ns) if ns else S.conc(S.int("n", 1, refcal.mlen(2001, month) - 6)))
    else:
        day = S.conc(S.int("n", 1, refcal.mlen(2001, month)))
    secs, mode = ((7200, ""), (86400, "s"), (84600, "u"))[(month + wd) % 3]
    rule = Rule()
    rule.parse(rule_line(("X", 1990, None, month, day, (secs, mode), 0, "S")))
    dt, special = rule.datetimeForYear(y)
    n = day_number(y, month, day)
    S.check(special == mode, "mode")
    S.check(refcal.days(*fields(dt)[:3]) == n, "day")
    S.check(fields(dt)[0] == y, "year")
    t = 86399 if secs == 86400 else secs
    S.check(fields(dt)[3:] == (t // 3600, t // 60 % 60, t % 60), "time")


def converted(S, rules, lines, years, minyear, maxyear, reread=False):
    TimezoneDatabase.clearTimezoneDatabase()
    trans = transitions(rules, lines, maxyear - 1)
    f, t = instant(S, years)
    S.assume(t >= first_from(trans, minyear))
    exp = offset_at(trans, t)
    zone = zone_of("Test/Zone", lines)
    rs = rules_of(rules)
    cal = Calendar()
    vtz = zone.vtimezone(cal, rs, minyear, maxyear)
    cal.addComponent(vtz)
    if reread:
        vtz = Calendar.parseText(cal.getText()).getTimezone("Test/Zone")
    got = vtz.getTimezoneOffsetSeconds(DateTime(*f, tzid=Timezone(utc=True)), True)
    S.check(got == exp, "offset of the generated VTIMEZONE")
    S.observe(got)


def expanded(S, rules, lines, years, minyear, maxyear):
    trans = transitions(rules, lines, maxyear - 1)
    f, t = instant(S, years)
    S.assume(t >= first_from(trans, minyear))
    exp = offset_at(trans, t)
    found = None
    for dt, frm, to, zr, tr in zone_of("Test/Zone", lines).expand(rules_of(rules), minyear, maxyear):
        g = fields(dt)
        u = refcal.days(*g[:3]) * 86400 + g[3] * 3600 + g[4] * 60 + g[5] - frm
        if u <= t:
            found = to
    S.check(found == exp, "offset after the last transition")


US = [("US", 1967, 2006, 10, ("last", 0), (7200, ""), 0, "S"), ("US", 1976, 1986, 4, ("last", 0), (7200, ""), 3600, "D"),
      ("US", 1987, 2006, 4, (">=", 0, 1), (7200, ""), 3600, "D"), ("US", 2007, None, 3, (">=", 0, 8), (7200, ""), 3600, "D"),
      ("US", 2007, None, 11, (">=", 0, 1), (7200, ""), 0, "S")]
NY = [(-17762, None, "LMT", (1883, 11, 18, 43440, "")), (-18000, "US", "E%sT", None)]
MOVED = [(-17762, None, "LMT", (1883, 11, 18, 43440, "")), (-18000, "US", "E%sT", (1996, 7, 1, 0, "")), (-21600, "US", "C%sT", (2001, 10, ("last", 0), 7200, "")), (-18000, None, "EST", (2004, 1, 1, 0, "u")),
         (-18000, "US", "E%sT", None)]


def simple(S, days, times, offs, years, months=((3, 10), (10, 3)), conv=True):
    """one zone, two rules for ever"""
    m1, m2 = S.choice("months", list(months))
    d1 = S.choice("day1", days)
    d2 = S.choice("day2", days)
    at = S.choice("at", times)
    off = S.choice("off", offs)
    rules = [("R", 1999, None, m1, d1, at, 3600, "S"), ("R", 1999, None, m2, d2, at, 0, "-")]
    lines = [(off, "R", "A%sT", None)]
    if conv:
        converted(S, rules, lines, years, 1999, 2011)
    else:
        expanded(S, rules, lines, years, 1999, 2011)




def shifted(S, days, times, offs, years, months):
    """the UTC offset moves the day a rule names to the day before or after"""
    m = S.choice("month", months)
    day = S.choice("day", days)
    S.assume(not isinstance(day, tuple) and day <= refcal.mlen(2001, m) and (m, day) != (3, 1) or isinstance(day, tuple) and (m, day) != (2, (">=", 0, 22)))
    at = S.choice("at", times)
    off = S.choice("off", offs)
    other = ("R", 1999, None, 7, 15, (0, ""), 0, "-")
    rules = [("R", 1999, None, m, day, at, 3600, "S"), other]
    converted(S, rules, [(off, "R", "A%sT", None)], years, 1999, 2011)


def until(S, years, modes, days):
    """a zone line is in force until its UNTIL"""
    day = S.choice("day", days)
    mode = S.choice("mode", modes)
    secs = S.choice("at", [0, 9000])
    rules = [("R", 1999, None, 3, ("last", 0), (7200, ""), 3600, "S"), ("R", 1999, None, 10, ("last", 0), (10800, ""), 0, "-")]
    off = S.choice("off", [-19800, 3600])
    lines = [(1000, None, "LMT", (1950, 1, 1, 0, "")), (off, "R", "A%sT", (2004, S.choice("month", [2, 7, 10]), day, secs, mode)), (7200, None, "B", None)]
    converted(S, rules, lines, years, 1999, 2008)


def numeric(S, years):
    """lines that state the saved time themselves"""
    save = S.choice("save", [3600, -3600, 1800, -1800, -5400, 1200, 0])
    off = S.choice("off", [-12600, -1800, 0, 34200])
    lines = [(1000, None, "LMT", (1950, 1, 1, 0, "")), (off, None, "A", (2003, 4, 2, 7200, "")), (off, save, "B", (2004, 9, 1, 10800, "s")), (off, "R", "C/D", None)]
    rules = [("R", 2000, None, 11, 3, (7200, ""), 0, "-"), ("R", 2000, 2008, 4, 3, (7200, "s"), S.choice("rsave", [3600, -1800, -3600]), "-")]
    converted(S, rules, lines, years, 1999, 2009)


def again(S, first, second):
    """what was expanded before for fewer or more years does not matter"""
    rs = rules_of(US)
    zone = zone_of("Test/Zone", NY)
    zone.expand(rs, 1967, S.choice("first", first))
    maxyear = S.choice("second", second)
    f, t = instant(S, [maxyear - 2, maxyear - 1])
    exp = offset_at(transitions(US, NY, maxyear - 1), t)
    found = None
    for dt, frm, to, zr, tr in zone.expand(rs, 1967, maxyear):
        g = fields(dt)
        u = refcal.days(*g[:3]) * 86400 + g[3] * 3600 + g[4] * 60 + g[5] - frm
        if u <= t:
            found = to
    S.check(found == exp, "offset after the last transition")


def names(S, fmt, exp, years):
    """the name in force is the zone's format with the rule's letter"""
    f, t = instant(S, years)
    rules = [("R", 1999, None, 3, ("last", 0), (7200, ""), 3600, "S"), ("R", 1999, None, 10, ("last", 0), (10800, ""), 0, "-")]
    lines = [(3600, "R", fmt, None)]
    TimezoneDatabase.clearTimezoneDatabase()
    off = offset_at(transitions(rules, lines, 2009), t)
    cal = Calendar()
    vtz = zone_of("Test/Zone", lines).vtimezone(cal, rules_of(rules), 1999, 2010)
    loc = DateTime(*f)
    loc.offsetSeconds(off)
    S.assume(offset_at(transitions(rules, lines, 2009), t + 3601) == off)
    S.assume(offset_at(transitions(rules, lines, 2009), t - 3601) == off)
    S.check(vtz.getTimezoneDescriptor(loc) == "(" + exp[0 if off == 3600 else 1] + ")", "name")


def rule_text(S):
    """a rule line is read and written back"""
    name = S.str("name", 1, 3, "Az_-9")
    frm = S.int("from", 1900, 2100)
    k = S.conc(S.int("k", 1, 12))
    to = ["only", "max", "2005"][k % 3]
    month = MONTHS[k]
    day = ["lastSun", "Sun>=8", "31", "Fri<=1"][k % 4]
    at = ["2:00", "0", "24:00", "1:00u", "2:30s"][k % 5]
    letter = S.str("letter", 1, 2, "-DSB+")
    items = ["Rule", name, str(frm), to, "-", month, day, at, ["0", "1:00", "-1:00", "0:30"][k // 3 % 4], letter]
    sep = S.choice("sep", ["\t", " ", "\t ", "    "])
    r = Rule()
    r.parse(sep.join(items))
    S.check(r.generate() == "\t".join(items), "same text")
    r2 = Rule()
    r2.parse(r.generate())
    S.check(r2 == r, "same rule")
    S.check(not r2 != r, "not different")
    S.check(r.startYear() == frm, "first year")
    S.check(r.endYear() == (frm if to == "only" else 9999 if to == "max" else 2005), "last year")


def zone_lines(S):
    """zone lines are read and written back"""
    name = S.str("name", 1, 3, "Az_/9")
    fmt = S.str("fmt", 1, 2, "A%s/+")
    gm = S.choice("gm", ["-4:56:02", "-0:25:21", "1:00", "-3:30", "0"])
    until = S.choice("until", ["1883 Nov 18 12:03:58", "1920", "1990 Oct lastSun 2:00s"])
    t = "Zone " + name + "\t" + gm + "\t-\tLMT\t" + until + "\n\t\t\t" + S.choice("gm2", ["-5:00", "0:20"]) + "\t" + S.choice("rule", ["US", "-", "1:00", "-0:30"]) + "\t" + fmt
    z = Zone()
    z.parse(t)
    S.check(z.generate() == t, "same text")
    z2 = Zone()
    z2.parse(z.generate())
    S.check(z2 == z, "same zone")
    S.check(z.name == name, "name")
    S.check(z.rules[0].getUTCOffset() == {"-4:56:02": -17762, "-0:25:21": -1521, "1:00": 3600, "-3:30": -12600, "0": 0}[gm], "offset")


ALL_SUN = [("last", 0), (">=", 0, 1), (">=", 0, 2), (">=", 0, 8), (">=", 0, 22)]
ALL_DAYS = ALL_SUN + [("last", 6), ("last", 1), (">=", 6, 1), (">=", 1, 9), (">=", 3, 15), 1, 14, 30]
BACK = [(3600, "u"), (0, "z")]
AHEAD = [(82800, "u"), (84600, "g")]

HARNESSES = [
    ("rule_last", rule_date, {"form": "last", "lo": 1970, "hi": 2099}, {"bounds": "every month and weekday, years 1970..2099", "tier": "quickonly"}),
    ("rule_after", rule_date, {"form": ">=", "lo": 2000, "hi": 2019, "ns": [1, 2, 8, 9, 15, 22]}, {"bounds": "every month and weekday, n in 1, 2, 8, 9, 15, 22, years 2000..2019", "tier": "quickonly"}),
    ("rule_day", rule_date, {"form": "n", "lo": 1900, "hi": 2099}, {"bounds": "every month and day, years 1900..2099", "tier": "quick"}),
    ("us", converted, {"rules": US, "lines": NY, "years": [1988, 2006, 2007, 2008], "minyear": 1967, "maxyear": 2011}, {"bounds": "New York 1967.., every second of 1988, 2006..2008", "tier": "quick"}),
    ("us_text", converted, {"rules": US, "lines": NY, "years": [1986, 2007], "minyear": 1967, "maxyear": 2011, "reread": True}, {"bounds": "the same, written and read back", "tier": "quick"}),
    ("us_expand", expanded, {"rules": US, "lines": NY, "years": [1988, 2006, 2007, 2008], "minyear": 1967, "maxyear": 2011}, {"bounds": "the same, as transitions", "tier": "quick"}),
    ("moved", converted, {"rules": US, "lines": MOVED, "years": [1995, 1996, 1997, 2001, 2002, 2003, 2004, 2008], "minyear": 1967, "maxyear": 2011},
     {"bounds": "a zone of five lines, every second of eight years", "tier": "quick"}),
    ("moved_expand", expanded, {"rules": US, "lines": MOVED, "years": [1995, 1996, 1997, 2001, 2002, 2003, 2004, 2008], "minyear": 1967, "maxyear": 2011},
     {"bounds": "the same, as transitions", "tier": "quick"}),
    ("simple", simple, {"days": [("last", 0), (">=", 0, 8), 15], "times": [(7200, ""), (86400, ""), (7200, "s")], "offs": [-18000, 12600], "years": [2004, 2009], "months": [(3, 10)]},
     {"bounds": "two rules for ever, every second of 2004 and 2009", "tier": "quickonly"}),
    ("simple_deep", simple, {"days": ALL_DAYS, "times": [(7200, ""), (86400, ""), (7200, "s"), (3600, "u"), (82800, "w")], "offs": [-18000, 0, 12600], "years": [2004, 2009]},
     {"bounds": "13 forms of the day, five times, three zones, every second of 2004 and 2009", "tier": "thorough"}),
    ("simple_expand", simple, {"days": [("last", 0), (">=", 0, 1), 15], "times": [(7200, ""), (3600, "u"), (7200, "s")], "offs": [-18000, 0, 12600], "years": [2004], "conv": False, "months": [(10, 3)]},
     {"bounds": "two rules for ever, every second of 2004, as transitions", "tier": "quick"}),
    ("back", shifted, {"days": [("last", 0), (">=", 0, 1), (">=", 1, 1), (">=", 0, 8), 1], "times": BACK, "offs": [-18000], "years": [2004, 2009], "months": [4, 11]},
     {"bounds": "rules in UTC moved to the day before", "tier": "quickonly"}),
    ("ahead", shifted, {"days": [("last", 0), ("last", 6), (">=", 0, 1), (">=", 5, 8), 31], "times": AHEAD, "offs": [12600], "years": [2004, 2009], "months": [3, 10]},
     {"bounds": "rules in UTC moved to the day after", "tier": "quickonly"}),
    ("back_deep", shifted, {"days": ALL_DAYS, "times": BACK, "offs": [-18000, -3600], "years": [2001, 2004, 2009, 2010], "months": [3, 4, 5, 6, 8, 9, 10, 11, 12]},
     {"bounds": "rules in UTC moved to the day before, nine months", "tier": "thorough"}),
    ("ahead_deep", shifted, {"days": ALL_DAYS, "times": AHEAD, "offs": [12600, 36000], "years": [2001, 2004, 2009, 2010], "months": [2, 3, 4, 5, 6, 8, 9, 10, 11]},
     {"bounds": "rules in UTC moved to the day after, nine months", "tier": "thorough"}),
    ("until", until, {"years": [2003, 2004, 2005], "modes": ["", "u"], "days": [1, ("last", 5), (">=", 3, 9)]}, {"bounds": "a line until one of 3 days, 2 modes", "tier": "quickonly"}),
    ("until_deep", until, {"years": [2003, 2004, 2005], "modes": ["", "s", "u", "g", "z"], "days": [1, 27, ("last", 0), ("last", 6), ("last", 5), (">=", 0, 1), (">=", 3, 9)]},
     {"bounds": "a line until one of 7 days, 5 modes", "tier": "thorough"}),
    ("numeric", numeric, {"years": [2003, 2004, 2005]}, {"bounds": "lines and rules with saved time -1:30..1:00", "tier": "quick"}),
    ("again", again, {"first": [1990, 2006, 2030], "second": [2010, 1989]}, {"bounds": "two expansions of one zone", "tier": "quick"}),
    ("names_letter", names, {"fmt": "A%sT", "exp": ("AT", "AST"), "years": [2004]}, {"bounds": "", "tier": "quick"}),
    ("names_pair", names, {"fmt": "GMT/BST", "exp": ("GMT", "BST"), "years": [2004]}, {"bounds": "", "tier": "quick"}),
    ("rule_text", rule_text, {}, {"bounds": "name up to 3, letter up to 2 characters", "tier": "quick"}),
    ("zone_lines", zone_lines, {}, {"bounds": "name up to 3, format up to 2 characters", "tier": "quick"}),
    ("rule_last_deep", rule_date, {"form": "last", "lo": 1800, "hi": 2199}, {"bounds": "every month and weekday, years 1800..2199", "tier": "thorough"}),
    ("rule_after_deep", rule_date, {"form": ">=", "lo": 1900, "hi": 2099}, {"bounds": "every month, weekday and first day, years 1900..2099", "tier": "thorough"}),
]
