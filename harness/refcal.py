"""
Reference model of the civil calendar, written from the definitions (Gregorian rule, ISO 8601 weeks) and
independent of the code under test.  Works on plain and on symbolic integers.
"""

MLEN = (0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    if m == 2:
        return 29 if leap(y) else 28
    if m == 4 or m == 6 or m == 9 or m == 11:
        return 30
    return 31


def ylen(y):
    return 366 if leap(y) else 365


def days(y, m, d):
    """days since 1970-01-01 (m and d need not be normalised in d)"""
    if m <= 2:
        y = y - 1
        mp = m + 9
    else:
        mp = m - 3
    return y * 365 + y // 4 - y // 100 + y // 400 + (153 * mp + 2) // 5 + d - 1 - 719468


def jan1(y):
    y = y - 1
    return y * 365 + y // 4 - y // 100 + y // 400 - 719162


def dow(y, m, d):
    """0 = Sunday"""
    return (days(y, m, d) + 4) % 7


def yday(y, m, d):
    """1..366"""
    return days(y, m, d) - jan1(y) + 1


def from_days(n):
    """(y, m, d) of a day number"""
    z = n + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    if mp < 10:
        return y, mp + 3, d
    return y + 1, mp - 9, d


def week1(y):
    """day number of the Monday that starts ISO week 1 of y: the week containing 4 January"""
    j4 = jan1(y) + 3
    return j4 - (j4 + 3) % 7


def iso_week(n):
    """(iso year, week) of day number n: from the Thursday of its week"""
    th = n - (n + 3) % 7 + 3
    y = from_days(th)[0]
    return y, (th - jan1(y)) // 7 + 1


def valid(S, y, m, d):
    S.assume(d <= mlen(y, m))


def date(S, ylo, yhi, p=""):
    """a valid civil date with symbolic fields"""
    y = S.int(p + "y", ylo, yhi)
    m = S.int(p + "m", 1, 12)
    d = S.int(p + "d", 1, 31)
    S.assume(d <= mlen(y, m))
    return y, m, d


def cyear(S, p="", rlo=0, rhi=399):
    """a year 1753..9999 as 400*q + r: q symbolic, every r of the Gregorian cycle as a case of its own, which
    makes leapness and weekdays constants (400 years are a whole number of weeks)"""
    r = S.conc(S.int(p + "yr", rlo, rhi))
    q = S.int(p + "yq", 5 if r < 153 else 4, 24)
    return 400 * q + r


def cdate(S, p="", rlo=0, rhi=399):
    y = cyear(S, p, rlo, rhi)
    m = S.int(p + "m", 1, 12)
    d = S.int(p + "d", 1, 31)
    S.assume(d <= mlen(y, m))
    return y, m, d
