# Week numbers and ordinal positions
from pycalendar.datetime import DateTime
import refcal


def ymd(dt):
    return (dt.getYear(), dt.getMonth(), dt.getDay())


def num(dt):
    return refcal.days(dt.getYear(), dt.getMonth(), dt.getDay())


def anchor(S, y, m, d):
    """lemma: the day number and weekday of this date are the reference ones (C01); later queries build on it"""
    n = refcal.days(y, m, d)
    p = DateTime(y, m, d, 0, 0, 0).getPosixTime()
    S.check(p == n * 86400, "day number")
    S.check(DateTime(y, m, d).getDayOfWeek() == (n + 4) % 7, "day of week")
    return n


def okdate(S, dt):
    S.check(dt.getMonth() >= 1 and dt.getMonth() <= 12, "month in range")
    S.check(dt.getDay() >= 1 and dt.getDay() <= refcal.mlen(dt.getYear(), dt.getMonth()), "day in range")


def week_of(y, n):
    """ISO 8601 week of day number n in or next to year y: week 1 is the week (Monday first) with 4 January"""
    mon = n - (n + 3) % 7
    if mon < refcal.week1(y):
        return (mon - refcal.week1(y - 1)) // 7 + 1
    if mon >= refcal.week1(y + 1):
        return 1
    return (mon - refcal.week1(y)) // 7 + 1


def weekno(S):
    y, m, d = refcal.cdate(S)
    dt = DateTime(y, m, d)
    w = dt.getWeekNo()
    S.check(w == week_of(y, refcal.days(y, m, d)), "ISO 8601 week")
    S.observe(w)


def set_weekno(S, rhi, rlo=0):
    y, m, d = refcal.cdate(S, "", rlo, rhi)
    w = S.int("w", 1, 53)
    S.assume(refcal.week1(y) + 7 * w <= refcal.week1(y + 1))
    dt = DateTime(y, m, d)
    n = refcal.days(y, m, d)
    was = week_of(y, n)
    dt.setWeekNo(w)
    okdate(S, dt)
    if was == w:
        S.check(num(dt) == n, "already in the week: unchanged")
    else:
        S.check(num(dt) == refcal.week1(y) + (w - 1) * 7 + (n + 3) % 7, "same weekday in that ISO week of the year")
    S.observe(list(ymd(dt)))


def year_day(S, lo, hi, neg):
    y, m, d = refcal.date(S, lo, hi)
    dt = DateTime(y, m, d)
    if neg:
        k = S.int("k", -366, -1)
        S.assume(-k <= refcal.ylen(y))
    else:
        k = S.int("k", 1, 366)
        S.assume(k <= refcal.ylen(y))
    dt.setYearDay(k)
    okdate(S, dt)
    S.check(dt.getYear() == y, "stays in the year")
    if neg:
        S.check(num(dt) == refcal.jan1(y + 1) + k, "k-th day from the end of the year")
    else:
        S.check(num(dt) == refcal.jan1(y) + k - 1, "k-th day of the year")
        S.check(dt.getYearDay() == k, "year day reads back")
    S.observe(list(ymd(dt)))


def year_day_366(S, lo, hi):
    # the 366th day is reported as invalid in a year that does not have it
    y, m, d = refcal.date(S, lo, hi)
    k = S.choice("k", [366, -366])
    dt = DateTime(y, m, d)
    dt.setYearDay(k, allow_invalid=True)
    if refcal.leap(y):
        S.check(not dt.invalid(), "exists in a leap year")
        S.check(ymd(dt) == ((y, 12, 31) if k > 0 else (y, 1, 1)), "last or first day")
    else:
        S.check(dt.invalid(), "no such day: invalid")
    S.observe(dt.invalid())


def month_day(S, lo, hi):
    y, m, d = refcal.date(S, lo, hi)
    k = S.int("k", -31, 31)
    S.assume(k != 0)
    L = refcal.mlen(y, m)
    dt = DateTime(y, m, d)
    is_k = dt.isMonthDay(k)
    if k > 0:
        S.check(is_k == (d == k), "isMonthDay from the start")
    else:
        S.check(is_k == (d == L + 1 + k), "isMonthDay from the end")
    S.assume(k <= L)
    S.assume(k >= -L)
    dt.setMonthDay(k)
    okdate(S, dt)
    S.check(dt.getYear() == y and dt.getMonth() == m, "stays in the month")
    if k > 0:
        S.check(dt.getDay() == k, "k-th day of the month")
    else:
        S.check(dt.getDay() == L + 1 + k, "k-th day from the end of the month")
    S.observe(list(ymd(dt)))


def month_day_invalid(S, lo, hi):
    # a day the month does not have is reported as invalid, and is not moved
    y, m, d = refcal.date(S, lo, hi)
    k = S.int("k", -31, 31)
    S.assume(k != 0)
    L = refcal.mlen(y, m)
    dt = DateTime(y, m, d)
    dt.setMonthDay(k, allow_invalid=True)
    S.check(dt.getYear() == y and dt.getMonth() == m, "same month")
    if k > L or -k > L:
        S.check(dt.invalid(), "no such day: invalid")
    else:
        S.check(not dt.invalid(), "valid")
        S.check(dt.getDay() == (k if k > 0 else L + 1 + k), "k-th day")
    S.observe(dt.invalid())


def nth_in_month(S, lo, hi, neg):
    y, m, d = refcal.date(S, lo, hi)
    w = S.int("w", 0, 6)
    dt = DateTime(y, m, d)
    L = refcal.mlen(y, m)
    first = anchor(S, y, m, 1)
    if neg:
        k = S.int("k", -5, -1)
        dt.setDayOfWeekInMonth(k, w)
        last = first + L - 1
        exp = last - ((last + 4) % 7 - w) % 7 + 7 * (k + 1)
    else:
        k = S.int("k", 1, 5)
        dt.setDayOfWeekInMonth(k, w)
        exp = first + (w - (first + 4) % 7) % 7 + 7 * (k - 1)
    okdate(S, dt)
    S.check(num(dt) == exp, "k-th such weekday of the month")
    S.observe(list(ymd(dt)))


def is_nth_in_month(S, lo, hi, k):
    y, m, d = refcal.date(S, lo, hi)
    w = S.int("w", 0, 6)
    dt = DateTime(y, m, d)
    L = refcal.mlen(y, m)
    n = anchor(S, y, m, d)
    anchor(S, y, m, 1)
    r = dt.isDayOfWeekInMonth(k, w)
    exp = (n + 4) % 7 == w
    if exp:
        if k > 0:
            exp = (d - 1) // 7 + 1 == k
        elif k < 0:
            exp = (L - d) // 7 + 1 == -k
    S.check(bool(r) == bool(exp), "isDayOfWeekInMonth")
    S.observe(bool(r))


def nth_in_year(S, rhi, neg, rlo=0):
    y, m, d = refcal.cdate(S, "", rlo, rhi)
    w = S.int("w", 0, 6)
    dt = DateTime(y, m, d)
    if neg:
        k = S.int("k", -53, -1)
        anchor(S, y, 1, 1)
        last = anchor(S, y, 12, 31)
        exp = last - ((last + 4) % 7 - w) % 7 + 7 * (k + 1)
        S.assume(exp >= refcal.jan1(y))
    else:
        k = S.int("k", 1, 53)
        first = anchor(S, y, 1, 1)
        anchor(S, y + 1, 1, 1)
        exp = first + (w - (first + 4) % 7) % 7 + 7 * (k - 1)
        S.assume(exp < refcal.jan1(y + 1))
    dt.setDayOfWeekInYear(k, w)
    okdate(S, dt)
    S.check(num(dt) == exp, "k-th such weekday of the year")
    S.observe(list(ymd(dt)))


def next_dow(S, lo, hi):
    y, m, d = refcal.date(S, lo, hi)
    st = S.int("st", 1, 31)
    S.assume(st <= refcal.mlen(y, m))
    w = S.int("w", 0, 6)
    n = anchor(S, y, m, st)
    dt = DateTime(y, m, d)
    dt.setNextDayOfWeek(st, w)
    okdate(S, dt)
    S.check(num(dt) == n + (w - (n + 4) % 7) % 7, "first such weekday on or after the start day")
    S.observe(list(ymd(dt)))


B = {"lo": 1753, "hi": 9998}


def o(**kw):
    r = dict(B)
    r.update(kw)
    return r


HARNESSES = [
    ("weekno", weekno, {}, {"bounds": "every date 1753-01-01..9999-12-31"}),
    ("set_weekno", set_weekno, {"rhi": 27}, {"bounds": "every date of years 400*q+r, r 0..27 (all 14 kinds of year), 2000..9627; weeks 1..53 that the year has", "tier": "quickonly"}),
    ("set_weekno_century", set_weekno, {"rlo": 97, "rhi": 104}, {"bounds": "the same, r 97..104 (around a century year that is no leap year)", "tier": "quickonly"}),
    ("set_weekno_all", set_weekno, {"rhi": 399}, {"bounds": "every date 1753-01-01..9999-12-31, weeks 1..53 that the year has", "tier": "thorough"}),
    ("year_day", year_day, o(neg=False), {"bounds": "every date 1753..9998, days 1..366"}),
    ("year_day_neg", year_day, o(neg=True), {"bounds": "every date 1753..9998, days -1..-366"}),
    ("year_day_366", year_day_366, o(), {"bounds": "every date 1753..9998"}),
    ("month_day", month_day, o(), {"bounds": "every date 1753..9998, days -31..31"}),
    ("month_day_invalid", month_day_invalid, o(), {"bounds": "every date 1753..9998, days -31..31"}),
    ("nth_in_month", nth_in_month, o(neg=False), {"bounds": "every month 1753..9998"}),
    ("nth_in_month_neg", nth_in_month, o(neg=True), {"bounds": "every month 1753..9998"}),
    ("next_dow", next_dow, o(), {"bounds": "every date 1753..9998"}),
    ("nth_in_year", nth_in_year, {"rhi": 27, "neg": False}, {"bounds": "every year 400*q+r, r 0..27 (all 14 kinds of year), 2000..9627; weekdays 1st..53rd that the year has", "tier": "quickonly"}),
    ("nth_in_year_neg", nth_in_year, {"rhi": 27, "neg": True}, {"bounds": "as nth_in_year, -1st..-53rd", "tier": "quickonly"}),
    ("nth_in_year_century", nth_in_year, {"rlo": 98, "rhi": 102, "neg": False}, {"bounds": "as nth_in_year, r 98..102 (around a century year that is no leap year)", "tier": "quickonly"}),
    ("nth_in_year_neg_century", nth_in_year, {"rlo": 98, "rhi": 102, "neg": True}, {"bounds": "as nth_in_year_neg, r 98..102", "tier": "quickonly"}),
    ("nth_in_year_all", nth_in_year, {"rhi": 399, "neg": False}, {"bounds": "every year 1753..9999, 1..53", "tier": "thorough"}),
    ("nth_in_year_neg_all", nth_in_year, {"rhi": 399, "neg": True}, {"bounds": "every year 1753..9999, -1..-53", "tier": "thorough"}),
] + [("is_nth_%d" % k, is_nth_in_month, o(k=k), {"bounds": "every date 1753..9998, offset %d" % k}) for k in range(-5, 6)]
