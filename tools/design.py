"""python3-vt tools/design.py : writes DESIGN.md from the property texts, the harnesses, the seeds and the notes here"""
import glob
import json
import os
import re
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Design

Every property is decided by **bounded symbolic execution of the real Python sources with z3**. On every run the modules under `/repo/src` are parsed
by Jython's own Python 2.7 parser, translated to instrumented code with Python 2 semantics, and executed with symbolic integers, booleans and strings.
Each assertion is decided by the solver for all values within the bounds; a counterexample is replayed under Jython on the real code before it is
reported. Nothing is listed as not applicable. (The text of this file is generated by `tools/design.py` from the property texts, the harnesses and the seeds.)

## Machinery

* `engine/dump_ast.py` (run by Jython): parses every module of `/repo/src` on each run with the parser of the interpreter the project runs on.
* `engine/py2.py`: turns those ASTs into instrumented Python 3 code with the semantics of Python 2: integer division, `str` against `unicode`, mixed
  ordering, `__cmp__`, `dict.keys()` lists, `print`, old exceptions, leaking list comprehension variables, `round` half away from zero, `map`/`filter` lists,
  old module names (`cStringIO`, `itertools.izip`, `string`...). Files, time of day, md5, uuid and ElementTree have small models (`harness/fakefs.py` for files, so
  nothing outside a record is touched).
* `engine/py2re.py`: the `re` module over symbolic strings (backtracking matcher whose comparisons become path conditions).
* `engine/sym.py`: symbolic integers with interval and domain reasoning, booleans, strings of bounded length with symbolic characters, formatting and
  `int()` of symbolic text, a simplifier.
* `engine/explore.py`: concolic explorer. A run records the literal of each symbolic branch; z3 is asked for every side not yet taken, and for every other value of an
  integer that had to become concrete; exploration of a harness ends when all remaining sides are unsatisfiable. Assertions over symbolic
  conditions are submitted negated under the path condition; `unsat` settles them for every value on the path. Loops are unrolled as far as the path conditions
  allow within the bounds of the inputs. A path over its time or step limit, an unsupported construct or an unexplored remainder makes the check *inconclusive* (exit 2), never a pass.
* `engine/check.py`: runs the harnesses of one property on 8 processes, replays every counterexample and a sample of explored paths (inputs from z3 models) under Jython on the
  untranslated code - a difference between the two is a *mismatch* (exit 3) - and writes `evidence/<id>.json` (functions encoded, bounds, paths, queries,
  solver time, assertions).
* `harness/h_Cnn.py`: one file per property; `refcal.py`, `refrule.py`: reference calendar arithmetic and a reference RFC 5545 recurrence expander written for the task, used as
  oracles. `harness/fakefs.py`: file system stand-in for the time zone database and tzdata conversion.

What keeps the translation honest: (1) `engine/selftest.py` runs the repository's 121 stable tests through the translation (all pass); (2) `engine/selftest_sym.py` compares the
simplifier with arithmetic and the explorer with brute force; (3) `engine/constructs/` runs 36 harnesses over a zoo of Python 2 constructs (old and new idioms a refactoring may use) and
replays each explored path under Jython (about 10,000 paths, no difference); (4) in every check, replayed samples of paths.

Robustness against refactorings was tried with about twenty behaviour-preserving edits (helpers extracted, loops rewritten as comprehensions and back, early returns, dispatch tables, `re` in
place of hand-written scanning and the like); all checks run on them stay quiet. Checks look at observable results only, never at source text or private fields where a public accessor exists.

The `quick` tier is what the check runs on every change (all checks together about 25 minutes, the longest about 4 minutes on 8 cores); `thorough` has larger bounds.

Limits common to all properties: inputs are bounded as stated (text lengths, alphabets, list lengths, ranges of years); concurrency is out of scope since the library has none; the
interpreter itself (Jython), floats beyond concrete values, and `os`/`time` calls are assumed to behave as modelled; z3 and the translation are trusted up to the checks above.

## Properties

For each: what is claimed, how it is decided and against which oracle, the bounds of each harness (t: thorough tier only).

"""

NOTES = {
 "C01": "Oracle: `refcal.py`, the proleptic Gregorian calendar by day counts (days before year, cumulative month lengths), independent of the code's tables. Year, month, day, offsets are symbolic integers; linear arithmetic with division by constants goes to z3.",
 "C02": "Oracle: ISO week definition with a week start, and ordinal positions computed by day numbers. Restricted to weeks starting on Monday where the code only supports that.",
 "C03": "Oracle: the fields themselves and a grammar of accepted texts written in the harness; malformed texts are symbolic strings over delimiter characters.",
 "C04": "Oracle: instant = local seconds - offset, with a two-transition zone. Histories interleave reads (that cache) and changes.",
 "C05": "Oracle: total seconds and an RFC 5545 duration grammar in the harness.",
 "C06": "Oracle: half-open interval arithmetic on instants.",
 "C07": "Oracle: integer arithmetic on offsets, item lists compared field by field.",
 "C08": "Oracle: a rule is the multiset of its parts; parsed, written, copied, and written to JSON rules are compared part by part, and invalid values must be refused.",
 "C09": "Oracle: direct stepping of start + k * interval with invalid dates skipped, in the reference calendar; limits by COUNT, UNTIL and window.",
 "C10": "Oracle: `refrule.py`, an RFC 5545 expander that filters candidate days by definition rather than expanding. Pairs and triples of BYxxx parts with symbolic values. Restrictions, all stated: BYWEEKNO only with BYDAY and default WKST, numbered BYDAY only in MONTHLY and YEARLY rules, DTSTART always counts as the first instance.",
 "C11": "Metamorphic oracle: a fresh object asked the same question.",
 "C12": "Oracle: set arithmetic over the starts of the parts.",
 "C13": "Oracle: the last onset at or before the moment, over all rules of the zone, computed in the harness with `refcal`.",
 "C14": "Oracle: an independent escaper/unescaper; strings are symbolic. Known weak spot: a text that ends in a lone backslash is not covered.",
 "C15": "Oracle: the parameter values themselves. One known finding (see below).",
 "C16": "Oracle: unfolding by definition (RFC 5545 3.1), octet counts and UTF-8 lead bytes; lengths are symbolic.",
 "C17": "Oracle: tables of RFC 5545 property types in the harness, and a line grammar.",
 "C18": "Oracle: tables of RFC 2426 types in the harness.",
 "C19": "Oracle: a recogniser of nested lines in the harness; the stream is a symbolic sequence of line kinds.",
 "C20": "Oracle: jCal/jCard shapes by RFC 7265/7095, and equality after the round trip.",
 "C21": "Oracle: text before and after; any one change of a list of changes.",
 "C22": "Oracle: cardinality and value tables of the RFCs in the harness; repair is checked by validating again and by the text.",
 "C23": "Oracle: the instances by definition: the rule's starts, less EXDATE, with overrides replacing theirs (and THISANDFUTURE applied), in order.",
 "C24": "Oracle: what the text states, read by the harness, after each edit.",
 "C25": "Oracle: list of all times of the alarm by definition. The clock is a stand-in.",
 "C26": "Oracle: tzdata semantics written in the harness (rule lines as functions of year; wall, standard and UTC times). Restrictions are in the statement.",
 "C27": "Oracle: lexical containment of the name and a table of present files; the file system is a stand-in that records every path asked for.",
 "C28": "Oracle: the set of zones used, by walking the lines of the text.",
 "C29": "Oracle: the calendar read from the text of the one changed, asked the same questions.",
 "C30": "Oracle: interval arithmetic over the stated busy times.",
 "C31": "Oracle: the filter applied by definition to the unfiltered output of the same writer.",
 "C32": "Oracle: the RFC 6321 form of each value built from the symbolic fields; calendars: the tree of their text form. UNTIL keeps the nested date element the code has always written.",
 "C33": "Oracle: the documented meaning of the four modes (pass on, leave out, put right, refuse), per mistake, with an independent decoder of escapes.",
 "C34": "Oracle: the names and the day of the week by day counts in the harness; zones of one change with symbolic offset. The clock is a stand-in with symbolic fields. `VToDo.getStatusText` is broken (it calls methods its buffer does not have) and left out.",
 "C35": "Oracle: the lines put in. Files, directories and the XML of the Windows aliases are stand-ins in memory (nothing real is removed); names of zones and links are symbolic strings that may be parts of one another and of the zone's TZNAME. The command line, downloading and `tzverify`/`tzdump` are left out.",
}

TAIL = """
## Known finding

* C15: a parameter value that has to be quoted and ends in a backslash (`X-A=":\\"`) is written so that it cannot be read back: the parser takes `\\"` for an escaped quote, which RFC 5545
  does not have but other producers (and the repository's tests) rely on. Listed in `known_findings.json` by harness and input; any other violation of C15 is still reported.

## Genuine defects repaired

{nfixed} repairs, each a `fix:` commit in /repo, recorded in `known_findings.json` as `fixed:` with the property and the commit. The largest groups: recurrence expansion (BYxxx parts, caching),
tzdata conversion, JSON round trips, THISANDFUTURE overrides, calendar maps, alarms, free-busy, XML and filtered output, strict reading. The checks report each again when the commit is reverted
(that is how most were found: the check failed on the tree as given).

## Defects seen and left

Not covered by a property and not repaired, because the right behaviour is not settled or the repair is not small:

* `DateTime.recur(MONTHLY)` with `allow_invalid=False` normalises the day before the loop.
* Floats are written with `%s`: digits beyond 12 are lost in GEO and FLOAT values.
* tzdata conversion: rules that move over a month end by more than the covered cases, zone lines without UNTIL before the last one, a first zone line that is not LMT.
* `RecurrenceSet.equals`, `ComponentRecur.sort_by_dtstart`, `VToDo.sort_for_display`, `getMonthTable`, `getVFreeBusyFB`, `excludeFutureRecurrence`, `RecurrenceSet.isSimpleUI/isAdvancedUI/getUIDescription`,
  `VTimezone.sortByUTCOffsetComparator` raise or answer wrongly; `getVToDos`, `FreeBusy.resolveOverlaps` do nothing. They have no callers in the library.
* `Calendar.parseComponent` ignores stray lines at the top level, and merges two calendars in one stream.
* Adding a duration to a local time adds it to its clock, so over a change of the zone's offset hours are not exact (RFC 5545: days by the clock, hours exact); `Duration` does not tell P1D from PT24H.
* Components without a UID get random map keys.
* `_addStandardTimezone` after a cached miss does not find the zone; `RecurrenceSet.expand` is unordered when there are exclusions.
* JSON: extra values of a single-valued property are dropped. `VToDo.getPriority` is None when absent. `setSummary` does not change the property. `Property.setValue` looks VALUE up case-sensitively.
* A text value that ends in a lone backslash loses it silently in every reading mode.

## False alarms met while building, and what was done

* C10: rules outside the stated restrictions (BYWEEKNO without BYDAY, numbered BYDAY in WEEKLY) were first reported; the statement was narrowed, since RFC 5545 leaves them undefined.
* C22: limits of drafts (VPOLL, VAVAILABILITY) were at first taken from the RFC alone; the assumptions are now in the harness.
* C25: an alarm that is 24 hours old is skipped by design; now stated as an assumption.
* C33: reading back under other modes than those of the first reading.

## Planted bugs

Seeds in `/verif/seeded` (each valid: applies, builds, passes the stable tests, demo fails with it and passes without). All are caught by the quick check of their property. Those marked * were
missed at first and led to a stronger check.

{seeds}

Besides, random mutations (operators, constants, conditions; kept only when the stable tests pass) were run against the checks of the modules concerned; what survived was equivalent,
outside every property, or led to a stronger check (one survivor in `recurrence.py` led to the pair shapes of C10).

## Not covered

Command line tools (`tzdump`, `tzverify`, `validator.py`, `instances.py` and the main part of `zonal/tzconvert`), `CalendarManager`, `packDate`/`unpackDate`, the functions listed under
"Defects seen and left".
"""

FIRST_MISSED = {"C11-count-cache", "C12-experiod-before", "C13-new-year", "C27-wrong-file", "C20-period-form", "C24-completed-zone", "C26-west-until", "C28-shared-zone", "C32-period-form", "C33-blank-inside", "C25-absolute-second", "C24-duration-zero", "C30-two-lines", "C29-key-case", "C24-todo-due", "C02-century"}


def bounds(pid):
    """(name, bounds, tier) of each harness, read from the harness file without running the library"""
    import ast
    src = open(os.path.join(V, "harness", "h_%s.py" % pid)).read()
    out = []
    i = src.index("HARNESSES = ")
    for m in re.finditer(r'"bounds": "([^"]*)"(?:[^{}]*?"tier": "(\w+)")?', src[i:]):
        if m.group(2) != "known":
            t = (m.group(1).replace("%s", "..."), m.group(2))
            if t not in out:
                out.append(t)
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    props.sort(key=lambda p: p["id"])
    o = [HEAD]
    for p in props:
        pid = p["id"]
        o.append("### %s %s\n\n" % (pid, p["title"]))
        o.append(p["statement"] + "\n\n")
        o.append(NOTES[pid] + "\n\n")
        bs = ["%s%s" % (b, " (t)" if t == "thorough" else "") for b, t in bounds(pid)]
        o.append("Bounds: " + "; ".join(bs) + ".\n\n")
    rows = ["| seed | needs | breaks |", "|---|---|---|"]
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        rows.append("| %s%s | %s | %s |" % (n, "*" if n in FIRST_MISSED else "", m["needs"], m["what_it_breaks"]))
    k = json.load(open(os.path.join(V, "known_findings.json")))
    o.append(TAIL.replace("{nfixed}", str(len(k["fixed"]))).replace("{seeds}", "\n".join(rows)))
    open(os.path.join(V, "DESIGN.md"), "w").write("".join(o))


main()
