# Zone files made from tzdata files
import zonal.tzconvert as tzconvert_module
from zonal.rule import Rule
from zonal.zone import Zone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.timezonedb import TimezoneDatabase
import fakefs

ASSUMPTIONS = ["the files, the directories and the XML of the Windows aliases are stand-ins in memory"]


class Text(object):
    """an open file: its lines, or what is written to it"""

    def __init__(self, fs, name, lines):
        self.fs = fs
        self.name = name
        self.lines = lines
        self.at = 0
        self.out = []

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False

    def __iter__(self):
        return self

    def next(self):
        if self.at >= len(self.lines):
            raise StopIteration()
        self.at += 1
        return self.lines[self.at - 1]

    __next__ = next

    def readline(self, *args):
        if self.at >= len(self.lines):
            return ""
        return self.next()

    def readlines(self, *args):
        r = self.lines[self.at:]
        self.at = len(self.lines)
        return r

    def read(self, *args):
        return "".join(self.readlines())

    def write(self, t):
        self.out.append(t)

    def writelines(self, ts):
        for t in ts:
            self.out.append(t)

    def close(self):
        if self.lines is None:
            self.fs.files[self.name] = "".join(self.out)


class Paths(fakefs.Path):

    def isdir(self, p):
        return p in self.files.dirs or p == "/"


class OS(fakefs.OS):

    def __init__(self, fs):
        self.path = Paths(fs)
        self.files = fs
        self.fs = fs

    def makedirs(self, p, mode=0):
        if self.fs.has(p):
            raise OSError("exists")
        while p != "/" and p != "" and p not in self.fs.dirs:
            self.fs.dirs.append(p)
            p = self.path.dirname(p)

    def mkdir(self, p, mode=0):
        self.makedirs(p)

    def remove(self, p):
        if p not in self.fs.files:
            raise OSError("no file")
        del self.fs.files[p]

    unlink = remove

    def rmdir(self, p):
        if p not in self.fs.dirs or self.listdir(p):
            raise OSError("not an empty directory")
        self.fs.dirs.remove(p)

    def listdir(self, p):
        return sorted([n[len(p) + 1:] for n in list(self.fs.files) + self.fs.dirs if self.path.dirname(n) == p])

    def walk(self, p, topdown=True, onerror=None, followlinks=False):
        if p not in self.fs.dirs:
            return []
        names = self.listdir(p)
        dirs = [n for n in names if p + "/" + n in self.fs.dirs]
        below = []
        for n in dirs:
            below += self.walk(p + "/" + n, topdown)
        here = [(p, dirs, [n for n in names if n not in dirs])]
        return here + below if topdown else below + here


class Elem(object):

    def __init__(self, attrs):
        self.attrs = attrs

    def get(self, name, default=None):
        return self.attrs.get(name, default)


class Aliases(object):
    """the XML of Windows aliases"""

    def __init__(self, items):
        self.items = items

    def ElementTree(self, file=None):
        return self

    def getroot(self):
        return self

    def findall(self, path):
        return [Elem(a) for a in self.items] if path == "./windowsZones/mapTimezones/mapZone" else []


class Files(object):

    def __init__(self, files, dirs, aliases=()):
        self.files = files
        self.dirs = list(dirs)
        self.aliases = aliases

    def has(self, p):
        return p in self.files or p in self.dirs

    def open(self, p, mode="r", *args):
        if "w" in mode:
            if tzconvert_module.os.path.dirname(p) not in self.dirs:
                raise IOError("no directory")
            self.files[p] = ""
            return Text(self, p, None)
        if p not in self.files:
            raise IOError("no file")
        t = self.files[p]
        return Text(self, p, t if isinstance(t, list) else [l + "\n" for l in t.split("\n")[:-1]])

    def install(self):
        tzconvert_module.os = OS(self)
        tzconvert_module.open = self.open
        tzconvert_module.print = print_nothing
        tzconvert_module.XML = Aliases(self.aliases)


def print_nothing(*args, **kw):
    pass


RULES = ["Rule\tR%d\t1990\tmax\t-\tApr\tlastSun\t2:00\t1:00\tD", "Rule R%d 1990 max - Oct lastSun 2:00 0 S"]


def reading(S, pieces, length, places):
    """what is read from files with a comment or an empty line anywhere"""
    lines = []
    rules, zones, links = {}, {}, {}
    deco = S.str("deco", 0, length, " \t#ZR")
    S.assume(deco.strip() == "" or deco.strip()[:1] == "#")
    at = S.choice("at", list(range(places)))
    count = [0]

    def line(t):
        # the comment or space stands before or after a line
        if at == 2 * count[0]:
            lines.append(deco)
        if at == 2 * count[0] + 1:
            S.assume(deco == "" or deco[:1] in " \t#")
            t = t + deco
        count[0] += 1
        lines.append(t)

    for i, p in enumerate(pieces):
        if p == "rule":
            t = RULES[i % 2] % (i // 2)
            line(t)
            rules.setdefault("R%d" % (i // 2), []).append(t)
        elif p == "link":
            line("Link\tZ/%d L%d" % (i, i))
            links["L%d" % i] = "Z/%d" % i
        else:
            first = "Zone Z/%d -1:00\t-\tLMT\t1950 Jan 1" % i
            rest = ["\t\t\t-1:00\tR0\tA%sT\t1980 Feb", "\t\t\t-2:00\tR0\tB%sT"][3 - p:]
            if p == 1:
                first = "Zone\tZ/%d\t5:00\t-\tXT" % i
            line(first)
            for r in rest:
                line(r)
            zones["Z/%d" % i] = "\n".join([first] + rest)
    if at == 2 * count[0]:
        lines.append(deco)
    S.assume(at <= 2 * count[0])
    end = S.choice("end", ["\n", "", "\r\n"])
    text = [t + "\n" for t in lines]
    text[-1] = lines[-1] + end
    if text[-1] == "":
        text = text[:-1]
    real = (tzconvert_module.os, tzconvert_module.XML)
    Files({"/d/f": text}, ["/d"]).install()
    try:
        p = tzconvert_module.tzconvert()
        p.parse("/d/f")
    finally:
        tzconvert_module.os, tzconvert_module.XML = real
    S.check(p.getZoneNames() == set(zones), "other zones were read")
    S.check(p.links == links, "other links were read")
    S.check(sorted(p.rules) == sorted(rules), "rules of other names were read")
    for name in rules:
        S.check([str(r) for r in p.rules[name].rules] == [rule_text(t) for t in rules[name]], "other rules were read")
    for name in zones:
        z = Zone()
        z.parse(zones[name])
        got = p.zones[name]
        S.check(got.name == name and len(got.rules) == len(z.rules), "a zone has other lines")
        for a, b in zip(got.rules, z.rules):
            S.check((a.gmtoff, a.rule, a.format) == (b.gmtoff, b.rule, b.format), "a line of a zone is another")
            S.check(str(a.getUntilDate()) == str(b.getUntilDate()), "a line of a zone ends at another time")
    S.observe(" ".join(sorted(p.getZoneNames())))


def rule_text(t):
    r = Rule()
    r.parse(t)
    return str(r)


def block(name, letter, offset):
    """the lines of the zone in a file"""
    return ["BEGIN:VTIMEZONE", "TZID:" + name], "TZNAME:" + letter, "TZOFFSETTO:" + offset


def good(name):
    return name[:1] != "/" and name[-1:] != "/" and "//" not in name


def writing(S, nlinks, length, filtered, stale, aliases=0):
    """the files written for zones and links"""
    TimezoneDatabase.clearTimezoneDatabase()
    names = []

    def name(v):
        t = S.str(v, 1, length, "GM/")
        S.assume(good(t))
        for o in names:
            S.assume(t != o)
        names.append(t)
        return t

    z1, z2 = name("z1"), name("z2")
    p = tzconvert_module.tzconvert()
    lines = ["Zone %s -1:00 - G\n" % z1, "Zone %s 2:00 - M\n" % z2]
    target = {z1: z1, z2: z2}
    links = {}
    for i in range(nlinks):
        to = name("l%d" % i)
        frm = S.choice("from%d" % i, list(range(3 + i)))
        frm = "None" if frm == 2 else names[frm] if frm < 2 else names[frm - 1]
        lines.append("Link %s %s\n" % (frm, to))
        links[to] = frm
        target[to] = target.get(frm)
    wanted = None
    if filtered:
        wanted = S.choice("wanted", [None, (z1,), (z2,), (z1, z2)])
    windows = []
    for i in range(aliases):
        other = "W %d" % S.choice("w%d" % i, [0, 1])
        territory = S.choice("terr%d" % i, ["001", "US"])
        typ = S.choice("type%d" % i, [z1, z2])
        windows.append({"other": other, "territory": territory, "type": typ})
        if territory == "001" and other not in links:
            links[other] = typ
            target[other] = typ
    files = {"/d/f": lines, "/other/x.ics": "keep\n", "/w.xml": "\n"}
    dirs = ["/d", "/other"]
    if stale:
        files.update({"/out/Old/x.ics": "old\n", "/out/y.ics": "old\n"})
        dirs += ["/out", "/out/Old", "/out/Old/Empty"]
    fs = Files(files, dirs, windows)
    real = (tzconvert_module.os, tzconvert_module.XML)
    fs.install()
    try:
        p.parse("/d/f")
        kw = {} if wanted is None else {"filterzones": wanted}
        if aliases:
            kw["windowsAliases"] = "/w.xml"
        with_links = S.bool("links") if filtered else True
        p.generateZoneinfoFiles("/out", 1800, 1810, links=with_links, **kw)
    finally:
        tzconvert_module.os, tzconvert_module.XML = real
    expect = {}
    for z in (z1, z2):
        if wanted is None or z in wanted:
            expect[z] = z
    written = list(expect)
    told = []
    if with_links:
        for to in links:
            if target[to] in written:
                expect[to] = target[to]
                told.append("%s\t%s" % (to, links[to]))
    got = sorted([f for f in fs.files if f[:5] == "/out/"])
    want = sorted(["/out/%s.ics" % n for n in expect] + (["/out/links.txt"] if with_links else []))
    S.check(got == want, "the files written are others")
    S.check(sorted([f for f in fs.files if f[:5] != "/out/"]) == ["/d/f", "/other/x.ics", "/w.xml"], "files elsewhere were changed")
    S.check(fs.files["/other/x.ics"] == "keep\n" and fs.files["/w.xml"] == "\n", "a file elsewhere was changed")
    if stale:
        S.check("/out/Old" not in fs.dirs or "Old" in [n[:3] for n in names], "an old directory is left")
    for n in expect:
        letter, offset = ("G", "-0100") if expect[n] == z1 else ("M", "+0200")
        cal = Calendar.parseText(fs.files["/out/%s.ics" % n])
        zones = cal.getComponents("VTIMEZONE")
        S.check(len(zones) == 1 and zones[0].getID() == n, "the file holds another zone")
        parts = zones[0].getComponents()
        S.check(len(parts) == 1 and parts[0].getTZName() == letter, "the zone has another name in force")
        S.check(parts[0].getUTCOffset() == (-3600 if letter == "G" else 7200), "the zone has another offset")
    if with_links:
        S.check(sorted(fs.files["/out/links.txt"].split("\n")) == sorted(told or [""]), "the list of links is another")
    if filtered and with_links:
        cal = Calendar.parseText(p.vtimezones(1800, 1810, **({} if wanted is None else {"filterzones": wanted})))
        S.check(sorted([z.getID() for z in cal.getComponents("VTIMEZONE")]) == sorted(written), "the text of all zones has others")
        for z in (z1, z2):
            items = p.expandZone(z, 1800, 1810)
            off = -3600 if z == z1 else 7200
            S.check([(i[0].getText(), i[1], i[2]) for i in items] == [("18000101T000000" if z == z1 else "18000101T020000", off, off)], "the changes of a zone are others")
    S.observe("\n".join(got))


HARNESSES = [
    ("reading-long", reading, {"pieces": ["rule", "rule", 3, "link", 2], "length": 6, "places": 17}, {"bounds": "the same with comments of up to 6 characters", "tier": "thorough"}),
    ("reading-three", reading, {"pieces": [3, 1, "rule", "link"], "length": 4, "places": 13}, {"bounds": "two zones, a rule and a link with a comment or space of up to 4 characters before or after any line, three ends of the file", "tier": "quick"}),
    ("reading-two", reading, {"pieces": ["rule", "rule", 2], "length": 4, "places": 9}, {"bounds": "two rules and a zone at the end", "tier": "quick"}),
    ("reading-links", reading, {"pieces": ["link", 2, 2, "link"], "length": 4, "places": 13}, {"bounds": "links around two zones", "tier": "quick"}),
    ("writing", writing, {"nlinks": 1, "length": 3, "filtered": True, "stale": True}, {"bounds": "two zones and a link with names of up to 3 characters that share directories, wanted or not", "tier": "quick"}),
    ("writing-links", writing, {"nlinks": 2, "length": 2, "filtered": False, "stale": False}, {"bounds": "two links to zones, to each other or to nothing", "tier": "quick"}),
    ("writing-aliases", writing, {"nlinks": 1, "length": 2, "filtered": False, "stale": False, "aliases": 2}, {"bounds": "two Windows aliases", "tier": "quick"}),
    ("writing-long", writing, {"nlinks": 2, "length": 3, "filtered": True, "stale": True}, {"bounds": "two links, names of up to 3 characters", "tier": "thorough"}),
]
