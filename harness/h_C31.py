# Output filters: text, JSON and XML hold exactly what the filter names
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar
from pycalendar.outputfilter import OutputFilter
from pycalendar.vcard.card import Card
import cStringIO as StringIO
import xml.etree.cElementTree as XML

NS = "urn:ietf:params:xml:ns:icalendar-2.0"


# Each form of output as [type, [[name, description, value]...], [components...]]

def tree_text(t):
    stack = [["", [], []]]
    for line in t.split("\r\n")[:-1]:
        head, value = line.split(":", 1)
        if head == "BEGIN":
            stack.append([value, [], []])
        elif head == "END":
            c = stack.pop()
            assert c[0] == value
            stack[-1][2].append(c)
        else:
            stack[-1][1].append([head.split(";")[0].upper(), [head], [value]])
    assert len(stack) == 1
    return stack[0][2]


def tree_json(jlist):
    r = []
    for j in jlist:
        r.append([j[0].upper(), [[p[0].upper(), p[:2], p[2:]] for p in j[1]], tree_json(j[2])])
    return r


def xml_plain(e):
    return [e.tag, e.text, [xml_plain(c) for c in e.getchildren()]]


def tag(e):
    assert e.tag.startswith("{" + NS + "}")
    return e.tag[len(NS) + 2:]


def tree_xml(nodes):
    r = []
    for n in nodes:
        props = []
        comps = []
        for part in n.getchildren():
            if tag(part) == "properties":
                for p in part.getchildren():
                    kids = p.getchildren()
                    pars = [xml_plain(k) for k in kids if tag(k) == "parameters"]
                    vals = [xml_plain(k) for k in kids if tag(k) != "parameters"]
                    props.append([tag(p).upper(), [pars, p.text], vals])
            else:
                assert tag(part) == "components"
                comps = tree_xml(part.getchildren())
        r.append([tag(n).upper(), props, comps])
    return r


def write(form, comp, filter):
    if form == "text":
        s = StringIO.StringIO()
        if filter is None:
            comp.generate(s)
        else:
            comp.generateFiltered(s, filter)
        return tree_text(s.getvalue())
    elif form == "json":
        j = []
        if filter is None:
            comp.writeJSON(j)
        else:
            comp.writeJSONFiltered(j, filter)
        return tree_json(j)
    else:
        root = XML.Element("root")
        if filter is None:
            if isinstance(comp, Calendar):
                root = comp.writeXML()
            else:
                comp.writeXML(root, NS)
        else:
            comp.writeXMLFiltered(root, NS, filter)
        return tree_xml(root.getchildren())


# What a filter lets through

def through(tree, spec, form):
    allprops, names, allsubs, subs = spec
    props = []
    for name, desc, value in tree[1]:
        if allprops:
            props.append([name, desc, value])
        elif name in names:
            if names[name]:
                value = [""] if form == "text" else []
            props.append([name, desc, value])
    comps = []
    for c in tree[2]:
        if allsubs:
            comps.append(c)
        elif c[0] in subs:
            comps.append(through(c, subs[c[0]], form))
    return [tree[0], props, comps]


def build(type, spec):
    allprops, names, allsubs, subs = spec
    f = OutputFilter(type)
    if allprops:
        f.setAllProperties()
    for n in sorted(names):
        f.addProperty(n, names[n])
    if allsubs:
        f.setAllSubComponents()
    for s in sorted(subs):
        f.addSubComponent(build(s, subs[s]))
    return f


def pick_props(S, tagname, names):
    if S.bool(tagname + "_all"):
        return True, {}
    r = {}
    for n in names:
        k = S.conc(S.int(tagname + "_" + n, 0, 2))
        if k:
            r[n] = k == 2
    return False, r


def compare(S, comp, type, spec, forms):
    for form in forms:
        whole = write(form, comp, None)
        f = build(type, spec)
        got = write(form, comp, f)
        S.check(len(whole) == 1 and len(got) == 1, "one component")
        S.check(got[0] == through(whole[0], spec, form), "exactly what the filter allows")
        everything = OutputFilter(type)
        everything.setAllProperties()
        everything.setAllSubComponents()
        S.check(write(form, comp, everything) == whole, "everything")
        S.check(write(form, comp, None) == whole, "nothing changed")
    S.observe(flat(got))


def flat(x):
    # all the text in nested lists
    if isinstance(x, list) or isinstance(x, tuple):
        r = ""
        for y in x:
            r = r + flat(y) + "|"
        return r
    return x if isinstance(x, basestring) else ""


def lines(ls):
    return "\r\n".join(ls) + "\r\n"


def properties(S, form):
    v = S.str("v", 0, 2, "a:;")
    low = S.choice("case", ["SUMMARY", "summary"])
    cal = Calendar.parseText(lines([
        "BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:u1", "DTSTAMP:20200101T000000Z",
        "DTSTART;VALUE=DATE:202001%02d" % S.int("d", 1, 28), "X-A;Q=1:" + v, low + ":s", "X-A:2", "END:VEVENT", "END:VCALENDAR",
    ]))
    event = cal.getComponents("VEVENT")[0]
    allprops, names = pick_props(S, "p", ["DTSTART", "X-A", "SUMMARY", "LOCATION"])
    compare(S, event, "VEVENT", (allprops, names, S.bool("subs"), {}), [form])


def components(S, form):
    n = S.int("n", 1, 9)
    cal = Calendar.parseText(lines([
        "BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x",
        "BEGIN:VTODO", "UID:t", "DTSTAMP:20200101T000000Z", "PRIORITY:%d" % n, "END:VTODO",
        "BEGIN:VEVENT", "UID:e", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T000000Z",
        "BEGIN:VALARM", "ACTION:AUDIO", "TRIGGER:-PT%dM" % n, "END:VALARM",
        "BEGIN:VALARM", "ACTION:DISPLAY", "TRIGGER:-PT9M", "DESCRIPTION:x", "END:VALARM", "END:VEVENT",
        "BEGIN:VEVENT", "UID:f", "DTSTAMP:20200101T000000Z", "DTSTART:20200101T000000Z", "END:VEVENT",
        "END:VCALENDAR",
    ]))
    def sub(name, props, inner):
        allp, names = pick_props(S, name, props)
        alls, subs = False, {}
        if inner:
            if S.bool(name + "_subs"):
                alls = True
            else:
                for i in inner:
                    if S.bool(name + "_" + i):
                        subs[i] = sub(i, ["ACTION"], [])
        return (allp, names, alls, subs)
    allp = S.bool("props")
    names = {} if allp else {"VERSION": False}
    alls, subs = False, {}
    if S.bool("all"):
        alls = True
    else:
        if S.bool("todo"):
            subs["VTODO"] = sub("T", ["PRIORITY"], [])
        if S.bool("event"):
            subs["VEVENT"] = sub("E", ["UID"], ["VALARM"])
    compare(S, cal, "VCALENDAR", (allp, names, alls, subs), [form])


def cards(S, form):
    g = S.choice("group", ["", "g1."])
    card = Card.parseText(lines(["BEGIN:VCARD", "VERSION:3.0", "N:a;b", "FN:" + S.str("v", 0, 2, "a:;"), g + "TEL;TYPE=HOME:1", g + "tel:2", "X-P:x", "END:VCARD"]))
    allp, names = pick_props(S, "p", ["FN", "TEL", "N"])
    for one in [form]:
        if one == "text":
            whole = tree_card(card.getText())
            s = StringIO.StringIO()
            card.generateFiltered(s, build("VCARD", (allp, names, False, {})))
            got = tree_card(s.getvalue())
        else:
            whole = write(one, card, None)[0]
            got = write(one, card, build("VCARD", (allp, names, False, {})))[0]
        S.check(got == through(whole, (allp, names, False, {}), one), "exactly what the filter allows")
    S.observe(flat(got))


def tree_card(t):
    tree = tree_text(t)[0]
    for p in tree[1]:
        p[0] = p[0].split(".")[-1]
    return tree


def questions(S):
    # what a filter answers about names
    f = OutputFilter("VEVENT")
    S.check(f.testComponent("VEVENT") and not f.testComponent("VTODO") and f.getType() == "VEVENT", "its own type")
    S.check(not f.isAllProperties() and not f.hasPropertyFilters() and not f.isAllSubComponents() and not f.hasSubComponentFilters(), "empty")
    S.check(f.testPropertyValue("UID") == (False, False) and not f.testSubComponent("VALARM"), "nothing allowed")
    name = S.str("n", 1, 2, "AB-")
    nov = S.bool("nov")
    other = S.str("o", 1, 2, "AB-")
    f.addProperty(name, nov)
    S.check(f.hasPropertyFilters(), "has filters")
    got = f.testPropertyValue(other)
    if other == name:
        S.check(got[0] is True and got[1] == nov, "named")
    else:
        S.check(got[0] is False, "not named")
    sub = OutputFilter(name)
    f.addSubComponent(sub)
    S.check(f.testSubComponent(other) == (other == name), "sub-component")
    S.check((f.getSubComponentFilter(other) is sub) == (other == name), "its filter")
    f.setAllProperties()
    S.check(f.isAllProperties() and not f.hasPropertyFilters() and f.testPropertyValue(other) == (True, False), "all")
    f.setAllSubComponents()
    S.check(f.isAllSubComponents() and not f.hasSubComponentFilters() and f.testSubComponent(other), "all")
    S.observe(got[0])


HARNESSES = [("questions", questions, {}, {"bounds": "names of up to 2 characters"})]
for form in ("text", "json", "xml"):
    HARNESSES.append(("properties_" + form, properties, {"form": form}, {"bounds": "one event with 6 properties, each of 4 names absent, with or without value; symbolic values"}))
    HARNESSES.append(("components_" + form, components, {"form": form}, {"bounds": "a calendar of two events, one with two alarms, and a to-do; every nesting of filters, one property name each"}))
for form in ("text", "json"):
    HARNESSES.append(("cards_" + form, cards, {"form": form}, {"bounds": "a card with 6 properties, each of 3 names absent, with or without value"}))
