# Recurrence rules with BYxxx parts, against the reference of RFC 5545
from pycalendar.datetime import DateTime
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
import refcal
import refrule

WD = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
PATH_TIME = 120


def point(dt):
    n = refcal.days(dt.getYear(), dt.getMonth(), dt.getDay())
    if dt.isDateOnly():
        return n, 0
    return n, dt.getHours() * 3600 + dt.getMinutes() * 60 + dt.getSeconds()


def signed(S, name, lo, hi):
    """-hi..-lo or lo..hi"""
    v = S.int(name, lo, hi)
    return v if S.bool(name + "+") else -v


def rule(S, freq, parts):
    """a rule with symbolic parts; parts: name -> number of values (and range)"""
    r = {"freq": freq}
    for name, arg in sorted(parts.items()):
        if name == "until":
            continue
        if name in ("interval", "count"):
            r[name] = S.conc(S.int(name, arg[0], arg[1]))
        elif name == "wkst":
            r[name] = S.conc(S.int(name, 0, 6))
        elif name == "byday":
            r[name] = [(0, S.int("wd%d" % i, 0, 6)) for i in range(arg)]
        elif name == "bydaynth":
            r["byday"] = [(signed(S, "n%d" % i, 1, arg[1]), S.int("wd%d" % i, 0, 6)) for i in range(arg[0])]
        elif name in ("bymonthday", "byyearday", "byweekno", "bysetpos"):
            r[name] = [signed(S, name + str(i), arg[1], arg[2]) for i in range(arg[0])]
        else:
            r[name] = [S.int(name + str(i), arg[1], arg[2]) for i in range(arg[0])]
    return r


def text(r):
    out = ["FREQ=" + r["freq"]]
    for k in ("interval", "count", "bymonth", "byweekno", "byyearday", "bymonthday", "byhour", "byminute", "bysecond", "bysetpos"):
        if k in r:
            v = r[k]
            out.append(k.upper() + "=" + (",".join([str(x) for x in v]) if isinstance(v, list) else str(v)))
    if "byday" in r:
        out.append("BYDAY=" + ",".join([(str(n) if n != 0 else "") + WD[w] for n, w in r["byday"]]))
    if "wkst" in r:
        out.append("WKST=" + WD[r["wkst"]])
    return ";".join(out)


def by(S, freq, parts, months, dlo, dhi, horizon, buckets, time=None, kind="date"):
    y, m = S.choice("ym", months)
    d = S.int("d", dlo, min(dhi, refcal.mlen(y, m)))
    r = rule(S, freq, parts)
    if time is None:
        start, dt = (y, m, d, 0, 0, 0), DateTime(y, m, d)
        tz = None
    else:
        start = (y, m, d) + tuple(time)
        dt = DateTime(*start, tzid=Timezone(utc=True)) if kind == "utc" else DateTime(*start)
    # the window ends horizon days after the beginning of the start's month
    ey, em, ed = refrule.roll(y, m, 1 + horizon)
    end = (refcal.days(ey, em, ed), 0)
    rec = Recurrence()
    rec.parse(text(r))
    if "until" in parts:
        # UNTIL some days after the beginning of the start's month, in the form of the start
        u = S.int("u", parts["until"][0], parts["until"][1])
        uy, um, ud = refrule.roll(y, m, 1 + u)
        if time is None:
            udt = DateTime(uy, um, ud)
            r["until"] = (refcal.days(uy, um, ud), 0)
        else:
            udt = DateTime(uy, um, ud, time[0], time[1], time[2], tzid=Timezone(utc=True)) if kind == "utc" else DateTime(uy, um, ud, time[0], time[1], time[2])
            r["until"] = (refcal.days(uy, um, ud), time[0] * 3600 + time[1] * 60 + time[2])
        rec.setUseUntil(True)
        rec.setUntil(udt)
    rs = RecurrenceSet()
    rs.addRule(rec)
    items = []
    rs.expand(dt, Period(DateTime(y - 1, 1, 1), DateTime(ey, em, ed)), items)
    exp = refrule.expand(r, start, end, buckets)
    S.check(len(items) == len(exp), "number of instances")
    items = sorted(items, key=lambda x: x.getPosixTime())
    for i in range(len(exp)):
        p = point(items[i])
        S.check(p[0] == exp[i][0], "date of instance %d" % i)
        S.check(p[1] == exp[i][1], "time of instance %d" % i)
    S.observe([x.getText() for x in items])


M1 = [(2019, 1), (2020, 1)]
M2 = [(2019, 2), (2020, 2)]
ENDS = [(2018, 12), (2019, 12), (2020, 12), (2021, 1), (2021, 12)]

# name, freq, parts, months, day range, window in days, intervals for the reference, time of day, kind, tier
SHAPES = [
    ("monthly_monthday", "MONTHLY", {"bymonthday": (1, 1, 31), "interval": (1, 2)}, M1, 1, 31, 100, 5, None, "quick"),
    ("monthly_monthday2", "MONTHLY", {"bymonthday": (2, 26, 31)}, M1, 31, 31, 70, 5, None, "quick"),
    ("monthly_monthday_count", "MONTHLY", {"bymonthday": (2, 29, 31), "count": (1, 4)}, M1, 29, 31, 200, 9, None, "quick"),
    ("monthly_nth", "MONTHLY", {"bydaynth": (1, 6), "interval": (1, 2)}, M2, 1, 1, 65, 4, None, "quick"),
    ("monthly_nth_count", "MONTHLY", {"bydaynth": (1, 5), "count": (1, 3)}, [(2020, 1)], 1, 31, 300, 12, None, "quick"),
    ("monthly_nth2", "MONTHLY", {"bydaynth": (2, 5)}, [(2020, 2)], 1, 1, 32, 3, None, "thorough"),
    ("monthly_day", "MONTHLY", {"byday": 2}, M2, 1, 1, 32, 3, None, "quick"),
    ("monthly_friday13", "MONTHLY", {"byday": 1, "bymonthday": (1, 1, 31)}, [(2020, 1)], 1, 1, 61, 4, None, "quick"),
    ("monthly_nth_monthday", "MONTHLY", {"bydaynth": (1, 5), "bymonthday": (1, 1, 7)}, [(2020, 2)], 1, 1, 32, 3, None, "quick"),
    ("monthly_month", "MONTHLY", {"bymonth": (2, 1, 12)}, [(2020, 1)], 28, 31, 400, 15, None, "quick"),
    ("monthly_setpos", "MONTHLY", {"byday": 2, "bysetpos": (1, 1, 11)}, [(2020, 2)], 1, 1, 32, 3, None, "quick"),
    ("monthly_setpos2", "MONTHLY", {"bymonthday": (2, 27, 31), "bysetpos": (1, 1, 3)}, [(2019, 2)], 1, 1, 32, 3, None, "quick"),
    ("monthly_setpos_two", "MONTHLY", {"byday": 1, "bysetpos": (2, 1, 5)}, [(2020, 2)], 1, 1, 32, 3, None, "quick"),
    ("monthly_time", "MONTHLY", {"bymonthday": (1, 28, 31), "byhour": (2, 0, 23)}, M1, 30, 31, 62, 4, (9, 30, 0), "quick"),
    ("weekly", "WEEKLY", {"byday": 2, "wkst": 1, "interval": (1, 2)}, [(2020, 2)], 10, 16, 36, 8, None, "quickonly"),
    ("weekly_long", "WEEKLY", {"byday": 2, "wkst": 1, "interval": (1, 3)}, [(2020, 2)], 10, 16, 46, 9, None, "thorough"),
    ("weekly_three", "WEEKLY", {"byday": 3, "wkst": 1, "interval": (2, 2)}, [(2019, 12)], 30, 30, 46, 9, None, "thorough"),
    ("weekly_count", "WEEKLY", {"byday": 2, "wkst": 1, "interval": (2, 2), "count": (3, 3)}, [(2020, 2)], 24, 29, 200, 9, None, "quick"),
    ("weekly_month", "WEEKLY", {"byday": 1, "bymonth": (1, 1, 12)}, [(2019, 12), (2020, 1)], 22, 31, 40, 9, None, "quick"),
    ("weekly_month_only", "WEEKLY", {"bymonth": (2, 1, 4)}, [(2020, 1)], 20, 31, 100, 17, None, "quick"),
    ("weekly_setpos", "WEEKLY", {"byday": 3, "bysetpos": (1, 1, 4)}, [(2020, 2)], 24, 24, 36, 5, None, "quick"),
    ("daily_month", "DAILY", {"bymonth": (1, 1, 12), "interval": (1, 4)}, [(2019, 12), (2020, 2)], 20, 31, 70, 70, None, "quick"),
    ("daily_monthday", "DAILY", {"bymonthday": (2, 1, 31)}, [(2020, 2)], 20, 20, 60, 65, None, "quick"),
    ("daily_day", "DAILY", {"byday": 2, "interval": (1, 3)}, [(2020, 2)], 20, 26, 45, 45, None, "quick"),
    ("daily_day_count", "DAILY", {"byday": 1, "count": (1, 3), "interval": (1, 2)}, [(2020, 2)], 20, 26, 200, 100, None, "quick"),
    ("daily_hours", "DAILY", {"byhour": (2, 0, 23), "byminute": (2, 0, 59)}, [(2020, 2)], 28, 28, 29, 3, (9, 30, 0), "quick"),
    ("daily_seconds", "DAILY", {"bysecond": (2, 0, 59), "byminute": (1, 0, 59), "count": (1, 3)}, [(2020, 2)], 28, 28, 40, 5, (9, 30, 15), "quick"),
    ("daily_setpos", "DAILY", {"byhour": (2, 0, 23), "byminute": (1, 0, 59), "bysetpos": (1, 1, 3)}, [(2020, 2)], 28, 28, 29, 3, (9, 30, 0), "quick"),
    ("hourly_minutes", "HOURLY", {"byminute": (2, 0, 59), "interval": (5, 7)}, [(2020, 2)], 28, 28, 28, 10, (9, 30, 0), "quick"),
    ("hourly_hours", "HOURLY", {"byhour": (2, 0, 23), "interval": (1, 3)}, [(2020, 2)], 28, 28, 28, 40, (21, 30, 0), "quick"),
    ("hourly_day", "HOURLY", {"byday": 1, "interval": (7, 7)}, [(2020, 2)], 28, 28, 35, 60, (21, 30, 0), "quick"),
    ("hourly_setpos", "HOURLY", {"byminute": (2, 0, 59), "bysetpos": (1, 1, 2), "interval": (6, 6)}, [(2020, 2)], 28, 28, 28, 10, (9, 30, 0), "quick"),
    ("minutely_minutes", "MINUTELY", {"byminute": (1, 0, 59), "interval": (25, 26)}, [(2020, 2)], 28, 28, 28, 70, (19, 30, 0), "quick"),
    ("minutely_hours", "MINUTELY", {"byhour": (1, 0, 23), "bysecond": (2, 0, 59), "interval": (120, 120)}, [(2020, 2)], 28, 28, 28, 30, (19, 30, 0), "quick"),
    ("secondly", "SECONDLY", {"byminute": (1, 0, 59), "bysecond": (2, 0, 59), "interval": (901, 901)}, [(2020, 2)], 28, 28, 28, 30, (21, 30, 0), "quick"),
    ("yearly_month", "YEARLY", {"bymonth": (2, 1, 12)}, M1, 28, 31, 500, 4, None, "quick"),
    ("yearly_month_monthday", "YEARLY", {"bymonth": (1, 1, 12), "bymonthday": (1, 1, 31), "interval": (1, 2)}, [(2020, 1)], 1, 1, 400, 3, None, "quick"),
    ("yearly_month_nth", "YEARLY", {"bymonth": (1, 1, 12), "bydaynth": (1, 5)}, [(2020, 1)], 1, 1, 370, 3, None, "quick"),
    ("yearly_month2_nth", "YEARLY", {"bymonth": (2, 1, 4), "bydaynth": (1, 5)}, [(2020, 1)], 1, 1, 150, 2, None, "quick"),
    ("yearly_month2_monthday", "YEARLY", {"bymonth": (2, 1, 4), "bymonthday": (2, 27, 31)}, [(2019, 1)], 1, 1, 150, 2, None, "quick"),
    ("yearly_month2_setpos", "YEARLY", {"bymonth": (2, 1, 4), "bydaynth": (1, 5), "bysetpos": (1, 1, 2)}, [(2020, 1)], 1, 1, 150, 2, None, "quick"),
    ("yearly_weekno2", "YEARLY", {"byweekno": (2, 1, 3), "byday": 1}, [(2019, 1)], 1, 1, 400, 3, None, "quick"),
    ("yearly_yearday_hours", "YEARLY", {"byyearday": (2, 58, 61), "byhour": (2, 0, 23)}, [(2019, 1)], 1, 1, 200, 2, (9, 30, 0), "quick"),
    ("monthly_nth_hours", "MONTHLY", {"bydaynth": (1, 5), "byhour": (2, 0, 23), "bysetpos": (1, 1, 2)}, [(2020, 2)], 1, 1, 32, 3, (9, 30, 0), "quick"),
    ("yearly_month_day", "YEARLY", {"bymonth": (1, 1, 12), "byday": 1}, [(2020, 1)], 1, 1, 400, 3, None, "quick"),
    ("yearly_monthday", "YEARLY", {"bymonthday": (1, 1, 31)}, [(2020, 1)], 28, 31, 400, 3, None, "quick"),
    ("yearly_monthday_day", "YEARLY", {"bymonthday": (1, 1, 31), "byday": 1}, [(2020, 1)], 1, 1, 370, 3, None, "quick"),
    ("yearly_day", "YEARLY", {"byday": 1, "count": (50, 54)}, [(2020, 1)], 1, 1, 500, 3, None, "quick"),
    ("yearly_nth", "YEARLY", {"bydaynth": (1, 53), "interval": (1, 2)}, [(2019, 1), (2020, 1)], 1, 1, 740, 4, None, "quick"),
    ("yearly_yearday", "YEARLY", {"byyearday": (1, 1, 366)}, [(2019, 1)], 1, 1, 740, 4, None, "quick"),
    ("yearly_yearday2", "YEARLY", {"byyearday": (2, 364, 366), "count": (1, 5)}, [(2019, 1), (2019, 12)], 1, 31, 1200, 6, None, "quick"),
    ("yearly_yearday_month", "YEARLY", {"byyearday": (1, 58, 61), "bymonth": (1, 1, 12)}, [(2019, 1)], 1, 1, 740, 4, None, "quick"),
    ("yearly_yearday_day", "YEARLY", {"byyearday": (1, 1, 20), "byday": 1}, [(2019, 1)], 1, 1, 740, 4, None, "quick"),
    ("yearly_weekno", "YEARLY", {"byweekno": (1, 1, 53), "byday": 1}, [(2019, 1), (2020, 1)], 1, 1, 740, 4, None, "quick"),
    ("yearly_weekno_ends", "YEARLY", {"byweekno": (1, 51, 53), "byday": 2}, ENDS, 1, 31, 400, 4, None, "quick"),
    ("yearly_weekno_starts", "YEARLY", {"byweekno": (1, 1, 2), "byday": 1}, ENDS, 1, 31, 400, 4, None, "quick"),
    ("yearly_weekno_window", "YEARLY", {"byweekno": (1, 1, 1), "byday": 1}, ENDS, 28, 31, 30, 4, None, "quick"),
    ("yearly_setpos", "YEARLY", {"bymonth": (1, 1, 12), "byday": 1, "bysetpos": (1, 1, 5)}, [(2020, 1)], 1, 1, 370, 3, None, "quick"),
    ("monthly_until", "MONTHLY", {"bymonthday": (1, 1, 31), "until": (5, 70)}, [(2020, 1)], 5, 5, 100, 5, None, "quick"),
    ("weekly_until", "WEEKLY", {"byday": 2, "until": (14, 30)}, [(2020, 2)], 10, 10, 46, 9, (9, 30, 0), "quick"),
    ("daily_until", "DAILY", {"byhour": (2, 8, 10), "until": (27, 32)}, [(2020, 2)], 28, 28, 40, 9, (9, 30, 0), "quick"),
    ("yearly_until", "YEARLY", {"bymonth": (1, 1, 12), "byday": 1, "until": (0, 400)}, [(2020, 1)], 1, 1, 450, 4, None, "thorough"),
    ("yearly_month_monthday_two", "YEARLY", {"bymonth": (2, 1, 12), "bymonthday": (1, 27, 31)}, [(2019, 1)], 1, 1, 366, 3, None, "thorough"),
    ("yearly_yearday_far", "YEARLY", {"byyearday": (1, 1, 366)}, [(2096, 1)], 1, 1, 1900, 7, None, "thorough"),
    ("yearly_nth_far", "YEARLY", {"bydaynth": (1, 53)}, [(2096, 1)], 1, 1, 1900, 7, None, "thorough"),
    ("yearly_weekno_far", "YEARLY", {"byweekno": (1, 1, 53), "byday": 1}, [(2096, 1)], 1, 1, 1900, 7, None, "thorough"),
    ("monthly_nth_setpos", "MONTHLY", {"bydaynth": (2, 5), "bysetpos": (1, 1, 2)}, [(2020, 2)], 1, 1, 32, 3, None, "thorough"),
]

# limits one after another: each pair in every frequency where both limit
LIMITS = [("bymonth", (1, 2, 3)), ("bymonthday", (1, 27, 31)), ("byday", 1), ("byhour", (1, 0, 23)), ("byminute", (1, 28, 38)), ("bysecond", (1, 0, 9))]
EVERY = {"DAILY": (1, (28, 33, 6), 3), "HOURLY": (11, (28, 32, 12), 4), "MINUTELY": (661, (28, 32, 12), 5), "SECONDLY": (39661, (28, 32, 12), 6)}
for _f in sorted(EVERY):
    _i, (_d, _h, _b), _n = EVERY[_f]
    for _j in range(6):
        for _k in range(_j + 1, 6):
            _p = {"interval": (_i, _i), LIMITS[_j][0]: LIMITS[_j][1], LIMITS[_k][0]: LIMITS[_k][1]}
            # beyond the frequency a part adds times
            if _k >= _n and _j >= _n:
                continue
            SHAPES.append(("pair_%s_%s_%s" % (_f.lower(), LIMITS[_j][0], LIMITS[_k][0]), _f, _p, [(2020, 2)], _d, _d, _h, _b, (9, 30, 0), "quick" if _k == _j + 1 or _f == "MINUTELY" and _k == 5 else "thorough"))


def bounds(freq, parts, months, dlo, dhi, horizon):
    return "FREQ=%s with %s; starts %s day %d..%d; instances of %d days" % (
        freq, ", ".join(["%s %s" % kv for kv in sorted(parts.items())]), "/".join(["%d-%02d" % ym for ym in months]), dlo, dhi, horizon)


HARNESSES = [
    (n, by, {"freq": f, "parts": p, "months": ms, "dlo": lo, "dhi": hi, "horizon": hz, "buckets": b, "time": t, "kind": "utc" if n[0] in "dh" else "floating"},
     {"bounds": bounds(f, p, ms, lo, hi, hz), "tier": tier})
    for n, f, p, ms, lo, hi, hz, b, t, tier in SHAPES
]
