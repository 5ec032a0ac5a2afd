# Civil date arithmetic
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.timezone import Timezone
from pycalendar.icalendar import definitions
import refcal


def mk(y, m, d, t=None):
    if t is None:
        return DateTime(y, m, d)
    return DateTime(y, m, d, t[0], t[1], t[2], tzid=Timezone(utc=True))


def ymd(dt):
    return (dt.getYear(), dt.getMonth(), dt.getDay())


def daynumber(S, lo, hi):
    y, m, d = refcal.date(S, lo, hi)
    dt = mk(y, m, d)
    n = mk(y, m, d, (0, 0, 0)).getPosixTime()
    S.check(n == refcal.days(y, m, d) * 86400, "posix day number")
    S.check(dt.getDayOfWeek() == (n // 86400 + 4) % 7, "day of week follows the day number")
    S.check(dt.getDayOfWeek() == refcal.dow(y, m, d), "day of week")
    S.check(dt.getYearDay() == refcal.yday(y, m, d), "day of year")
    S.observe(dt.getDayOfWeek())


def posix(S, lo, hi):
    y, m, d = refcal.date(S, lo, hi)
    h = S.int("h", 0, 23)
    mi = S.int("mi", 0, 59)
    s = S.int("s", 0, 59)
    dt = mk(y, m, d, (h, mi, s))
    S.check(dt.getPosixTime() == refcal.days(y, m, d) * 86400 + h * 3600 + mi * 60 + s, "posix seconds")
    S.observe(dt.getPosixTime())


def offset_day(S, lo, hi, span):
    y, m, d = refcal.date(S, lo, hi)
    n = S.int("n", -span, span)
    dt = mk(y, m, d)
    dt.offsetDay(n)
    y2, m2, d2 = ymd(dt)
    S.check(m2 >= 1 and m2 <= 12, "month in range")
    S.check(d2 >= 1 and d2 <= refcal.mlen(y2, m2), "valid day of month")
    S.check(refcal.days(y2, m2, d2) == refcal.days(y, m, d) + n, "moved by exactly n days")
    S.observe([y2, m2, d2])


def offset_years(S, lo, hi, neg):
    # whole years at a time, across century years that are not leap years
    y, m = S.choice("ym", [(1896, 1), (1896, 3), (1999, 12), (2096, 2), (2096, 3), (2104, 1), (2108, 2)])
    d = S.int("d", 1, refcal.mlen(y, m))
    n = S.int("n", lo, hi)
    dt = mk(y, m, d)
    dt.offsetDay(-n if neg else n)
    y2, m2, d2 = ymd(dt)
    S.check(m2 >= 1 and m2 <= 12, "month in range")
    S.check(d2 >= 1 and d2 <= refcal.mlen(y2, m2), "valid day of month")
    S.check(refcal.days(y2, m2, d2) == refcal.days(y, m, d) + (-n if neg else n), "moved by exactly n days")
    S.observe([y2, m2, d2])


def offset_secs(S, lo, hi, unit, span):
    y, m, d = refcal.date(S, lo, hi)
    h = S.int("h", 0, 23)
    mi = S.int("mi", 0, 59)
    s = S.int("s", 0, 59)
    n = S.int("n", -span, span)
    dt = mk(y, m, d, (h, mi, s))
    if unit == 1:
        dt.offsetSeconds(n)
    elif unit == 60:
        dt.offsetMinutes(n)
    else:
        dt.offsetHours(n)
    y2, m2, d2 = ymd(dt)
    S.check(m2 >= 1 and m2 <= 12 and d2 >= 1 and d2 <= refcal.mlen(y2, m2), "valid date")
    S.check(dt.getHours() >= 0 and dt.getHours() <= 23 and dt.getMinutes() >= 0 and dt.getMinutes() <= 59 and dt.getSeconds() >= 0 and dt.getSeconds() <= 59, "valid time")
    S.check(refcal.days(y2, m2, d2) * 86400 + dt.getHours() * 3600 + dt.getMinutes() * 60 + dt.getSeconds() ==
            refcal.days(y, m, d) * 86400 + h * 3600 + mi * 60 + s + n * unit, "moved by exactly n units")
    S.observe([y2, m2, d2, dt.getHours(), dt.getMinutes(), dt.getSeconds()])


def offset_month(S, lo, hi, span):
    y, m, d = refcal.date(S, lo, hi)
    S.assume(d <= 28)
    n = S.int("n", -span, span)
    dt = mk(y, m, d)
    dt.offsetMonth(n)
    t = y * 12 + m - 1 + n
    S.check(dt.getYear() == t // 12 and dt.getMonth() == t % 12 + 1 and dt.getDay() == d, "moved by n months")
    S.observe(list(ymd(dt)))


def dt_sym(S, p, lo, hi):
    y, m, d = refcal.date(S, lo, hi, p)
    h = S.int(p + "h", 0, 23)
    mi = S.int(p + "mi", 0, 59)
    s = S.int(p + "s", 0, 59)
    return mk(y, m, d, (h, mi, s)), refcal.days(y, m, d) * 86400 + h * 3600 + mi * 60 + s


def abstime(dt):
    return refcal.days(dt.getYear(), dt.getMonth(), dt.getDay()) * 86400 + dt.getHours() * 3600 + dt.getMinutes() * 60 + dt.getSeconds()


def plus_duration(S, lo, hi, span, minus):
    dt, t = dt_sym(S, "", lo, hi)
    n = S.int("n", -span, span)
    dur = Duration(duration=n)
    if minus:
        r = dt - dur
        e = t - n
    else:
        r = dt + dur
        e = t + n
    S.check(r.getMonth() >= 1 and r.getMonth() <= 12 and r.getDay() >= 1 and r.getDay() <= refcal.mlen(r.getYear(), r.getMonth()), "valid date")
    S.check(r.getHours() >= 0 and r.getHours() <= 23 and r.getMinutes() >= 0 and r.getMinutes() <= 59 and r.getSeconds() >= 0 and r.getSeconds() <= 59, "valid time")
    S.check(abstime(r) == e, "exactly that many seconds later")
    S.check(r.getTimezoneUTC(), "keeps its timezone")
    S.check(abstime(dt) == t, "operand unchanged")
    S.observe(r.getText())


def difference(S, lo, hi):
    a, ta = dt_sym(S, "a", lo, hi)
    b, tb = dt_sym(S, "b", lo, hi)
    pa = a.getPosixTime()
    pb = b.getPosixTime()
    dur = a - b
    S.check(dur.getTotalSeconds() == pa - pb, "difference in seconds")
    S.observe(dur.getTotalSeconds())


def offset_year(S, lo, hi, span):
    y, m, d = refcal.date(S, lo, hi)
    n = S.int("n", -span, span)
    S.assume(y + n >= 1753)
    dt = mk(y, m, d)
    dt.offsetYear(n)
    if m == 2 and d == 29 and not refcal.leap(y + n):
        S.check(dt.getYear() == y + n and dt.getMonth() == 3 and dt.getDay() == 1, "29 February carries into March")
    else:
        S.check(dt.getYear() == y + n and dt.getMonth() == m and dt.getDay() == d, "moved by n years")
    S.observe(list(ymd(dt)))


HARNESSES = [
    ("daynumber", daynumber, {"lo": 1753, "hi": 9999}, {"bounds": "every date 1753-01-01..9999-12-31"}),
    ("posix", posix, {"lo": 1753, "hi": 9999}, {"bounds": "every UTC second 1753..9999"}),
    ("offset_day", offset_day, {"lo": 1754, "hi": 9998, "span": 62}, {"bounds": "every date 1754..9998, offsets -62..62 days", "tier": "quickonly"}),
    ("offset_day_far", offset_day, {"lo": 1755, "hi": 9996, "span": 750}, {"bounds": "every date 1755..9996, offsets -750..750 days", "tier": "thorough"}),
    ("offset_years", offset_years, {"lo": 0, "hi": 3000, "neg": False}, {"bounds": "7 months around century years, offsets 0..3000 days"}),
    ("offset_years_back", offset_years, {"lo": 0, "hi": 3000, "neg": True}, {"bounds": "7 months around century years, offsets 0..-3000 days"}),
    ("offset_century", offset_years, {"lo": 30000, "hi": 37000, "neg": False}, {"bounds": "7 months around century years, offsets 30000..37000 days", "tier": "thorough"}),
    ("offset_secs", offset_secs, {"lo": 1754, "hi": 9998, "unit": 1, "span": 90000}, {"bounds": "1754..9998, offsets up to 90000 s"}),
    ("offset_mins", offset_secs, {"lo": 1754, "hi": 9998, "unit": 60, "span": 1500}, {"bounds": "1754..9998, offsets up to 1500 min"}),
    ("offset_hours", offset_secs, {"lo": 1754, "hi": 9998, "unit": 3600, "span": 50}, {"bounds": "1754..9998, offsets up to 50 h"}),
    ("offset_month", offset_month, {"lo": 1800, "hi": 9000, "span": 5000}, {"bounds": "years 1800..9000, days 1..28, offsets -5000..5000 months"}),
    ("offset_year", offset_year, {"lo": 1753, "hi": 9000, "span": 900}, {"bounds": "every date 1753..9000, offsets -900..900 years"}),
    ("plus_duration", plus_duration, {"lo": 1754, "hi": 9998, "span": 86400 * 35, "minus": False}, {"bounds": "every UTC second 1754..9998, durations up to 35 days either way"}),
    ("minus_duration", plus_duration, {"lo": 1754, "hi": 9998, "span": 86400 * 35, "minus": True}, {"bounds": "every UTC second 1754..9998, durations up to 35 days either way"}),
    ("difference", difference, {"lo": 1753, "hi": 9999}, {"bounds": "every pair of UTC seconds 1753..9999"}),
]
