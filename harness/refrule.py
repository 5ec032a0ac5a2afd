"""
Reference model of RFC 5545 recurrence rules, written from section 3.3.10 as a filter over days and independent of
the code under test. A point in time is (day number since 1970, second of the day). Works on symbolic integers.

rule: dict with freq, interval, and optional count, until (point), bymonth, bymonthday, byyearday, byweekno,
byday [(n, wd)] (wd 0 = Sunday), byhour, byminute, bysecond, bysetpos, wkst (default 1 = Monday)
start: (y, m, d, h, mi, s); y and m should be plain numbers
"""
import refcal


def roll(y, m, d):
    """normalise a day that lies after the end of its month"""
    while d > refcal.mlen(y, m):
        d = d - refcal.mlen(y, m)
        m = m + 1
        if m > 12:
            m = 1
            y = y + 1
    return y, m, d


def has(xs, v):
    for x in xs:
        if x == v:
            return True
    return False


def has_signed(xs, v, size):
    """v is the v-th of size; xs count from the start or (negative) from the end"""
    for x in xs:
        if x == v:
            return True
        if x == v - size - 1:
            return True
    return False


def wd_plain(byday, wd):
    for n, w in byday:
        if n == 0:
            if w == wd:
                return True
    return False


def wd_nth(byday, wd, pos, size):
    """the pos-th day (1..size) of a month or year, on weekday wd, matches"""
    for n, w in byday:
        if w == wd:
            if n == 0:
                return True
            if n == (pos - 1) // 7 + 1:
                return True
            if n == -((size - pos) // 7 + 1):
                return True
    return False


def days_of(rule, start, k):
    """day numbers of the k-th interval of a rule with FREQ of at least a day, in order"""
    y, m, d = start[:3]
    n0 = refcal.days(y, m, d)
    freq = rule["freq"]
    bymonth = rule.get("bymonth")
    bymonthday = rule.get("bymonthday")
    byyearday = rule.get("byyearday")
    byweekno = rule.get("byweekno")
    byday = rule.get("byday")
    step = rule.get("interval", 1) * k
    out = []
    if freq == "DAILY":
        yy, mm, dd = roll(y, m, d + step)
        n = n0 + step
        if bymonth and not has(bymonth, mm):
            return out
        if bymonthday and not has_signed(bymonthday, dd, refcal.mlen(yy, mm)):
            return out
        if byday and not wd_plain(byday, (n + 4) % 7):
            return out
        return [n]
    if freq == "WEEKLY":
        if not byday:
            yy, mm, dd = roll(y, m, d + 7 * step)
            if bymonth and not has(bymonth, mm):
                return out
            return [n0 + 7 * step]
        back = ((n0 + 4) % 7 - rule.get("wkst", 1)) % 7
        for i in range(7):
            n = n0 + 7 * step - back + i
            if wd_plain(byday, (n + 4) % 7):
                if bymonth:
                    off = d + 7 * step - back + i
                    if off >= 1:
                        yy, mm, dd = roll(y, m, off)
                    else:
                        mm = m - 1 if m > 1 else 12
                    if not has(bymonth, mm):
                        continue
                out.append(n)
        return out
    if freq == "MONTHLY":
        t = (m - 1) + step
        yy = y + t // 12
        mm = t % 12 + 1
        if bymonth and not has(bymonth, mm):
            return out
        months = [mm]
    else:
        yy = y + step
        months = range(1, 13)
        if byweekno:
            # the weeks of ISO year yy; BYDAY is required
            w1 = refcal.week1(yy)
            size = (refcal.week1(yy + 1) - w1) // 7
            for w in range(1, size + 1):
                if has_signed(byweekno, w, size):
                    for i in range(7):
                        if wd_plain(byday, (i + 1) % 7):
                            out.append(w1 + (w - 1) * 7 + i)
            return out
    for mm in months:
        if freq == "YEARLY":
            if bymonth:
                if not has(bymonth, mm):
                    continue
            elif not bymonthday and not byyearday and not byday:
                if mm != m:
                    continue
        size = refcal.mlen(yy, mm)
        base = refcal.days(yy, mm, 1)
        if not bymonthday and not byyearday and not byday:
            if d <= size:
                out.append(base + d - 1)
            continue
        for dd in range(1, size + 1):
            n = base + dd - 1
            if bymonthday and not has_signed(bymonthday, dd, size):
                continue
            if byyearday and not has_signed(byyearday, refcal.yday(yy, mm, dd), refcal.ylen(yy)):
                continue
            if byday:
                if freq == "YEARLY" and not bymonth:
                    if not wd_nth(byday, (n + 4) % 7, refcal.yday(yy, mm, dd), refcal.ylen(yy)):
                        continue
                elif not wd_nth(byday, (n + 4) % 7, dd, size):
                    continue
            out.append(n)
    return out


def uniq(xs):
    """in order, each value once"""
    out = []
    for x in xs:
        i = len(out)
        while i > 0 and x < out[i - 1]:
            i = i - 1
        if i > 0 and out[i - 1] == x:
            continue
        out.insert(i, x)
    return out


def bucket(rule, start, k):
    """points of the k-th interval as (day, second) in order, BYSETPOS applied"""
    h, mi, s = start[3:]
    if rule["freq"] in ("DAILY", "WEEKLY", "MONTHLY", "YEARLY"):
        days = days_of(rule, start, k)
        hours = uniq(rule.get("byhour") or [h])
        mins = uniq(rule.get("byminute") or [mi])
    else:
        unit = {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[rule["freq"]]
        tod = h * 3600 + mi * 60 + s + unit * rule.get("interval", 1) * k
        day = 0
        while tod >= 86400:
            tod = tod - 86400
            day = day + 1
        days = days_of({"freq": "DAILY", "interval": 1, "bymonth": rule.get("bymonth"), "bymonthday": rule.get("bymonthday"), "byday": rule.get("byday")},
                       start, day)
        hh = tod // 3600
        if rule.get("byhour") and not has(rule["byhour"], hh):
            return []
        hours = [hh]
        mm = tod // 60 % 60
        if rule["freq"] == "HOURLY":
            mins = uniq(rule.get("byminute") or [mm])
        else:
            if rule.get("byminute") and not has(rule["byminute"], mm):
                return []
            mins = [mm]
        if rule["freq"] == "SECONDLY":
            s = tod % 60
            if rule.get("bysecond") and not has(rule["bysecond"], s):
                return []
    secs = [s] if rule["freq"] == "SECONDLY" else uniq(rule.get("bysecond") or [s])
    out = []
    for n in days:
        for a in hours:
            for b in mins:
                for c in secs:
                    out.append((n, a * 3600 + b * 60 + c))
    if rule.get("bysetpos"):
        keep = []
        for i in range(len(out)):
            if has_signed(rule["bysetpos"], i + 1, len(out)):
                keep.append(out[i])
        out = keep
    return out


def before(a, b):
    if a[0] < b[0]:
        return True
    return a[0] == b[0] and a[1] < b[1]


def expand(rule, start, end, buckets):
    """the start and the instances after it, up to (not including) the point end, looking at that many intervals"""
    st = (refcal.days(*start[:3]), start[3] * 3600 + start[4] * 60 + start[5])
    if not before(st, end):
        return []
    out = [st]
    count = rule.get("count")
    until = rule.get("until")
    for k in range(buckets):
        for p in bucket(rule, start, k):
            if not before(st, p):
                continue
            if count is not None and len(out) >= count:
                return out
            if until is not None and before(until, p):
                return out
            if not before(p, end):
                return out
            out.append(p)
    return out
