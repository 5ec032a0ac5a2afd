"""The table of properties; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), na=None, note=""):
    P.append({"id": id, "title": title, "statement": statement, "over": over, "text": text, "why": why, "files": files,
              "mech": mech, "observe": list(observe), "na": na, "note": note})


prop("C01", "Civil date arithmetic is exact",
     "For every date from 1753 to 9999, converting to seconds since 1970, the day of the week and the day of the year agree with the proleptic Gregorian calendar. "
     "Adding or subtracting days, seconds, minutes, hours, months, years or a duration always yields a valid date and time that lies exactly that far away, and never alters the operand. "
     "The difference of two UTC times is exactly the number of seconds between them.",
     ["inputs"], "every civil date and UTC second 1753..9999, every offset within the stated spans",
     "The tests sample a few dozen dates; century years (1800, 1900, 2100), month ends and negative offsets only break for particular combinations.",
     ["src/pycalendar/datetime.py", "src/pycalendar/utils.py", "src/pycalendar/duration.py"],
     [("day counting and leap rules", "src/pycalendar/utils.py daysInMonth/daysUptoMonth/isLeapYear/leapDaysSince1970"),
      ("field normalisation with carry", "src/pycalendar/datetime.py normalise/offset*"),
      ("duration arithmetic", "src/pycalendar/datetime.py __add__/__sub__, src/pycalendar/duration.py")])

prop("C02", "Week numbers, weekday ordinals and year days are exact",
     "The week number of every date is its ISO 8601 week, and setting a week number keeps the weekday and lands in that week. "
     "Setting the k-th (or k-th from last) day of a month or of a year, or the k-th (or k-th from last) given weekday of a month or of a year, lands on exactly that date, and asking whether a date is the k-th given weekday or month day answers truthfully. "
     "A month day or 366th year day that does not exist is reported as invalid, where that is asked for, instead of being moved.",
     ["inputs"], "every date 1753..9999, every ordinal the period has",
     "Which branch runs depends on the weekday of 1 January, leapness and the ordinal's sign: 14 kinds of year times hundreds of days, of which tests sample a handful.",
     ["src/pycalendar/datetime.py"],
     [("week number", "src/pycalendar/datetime.py getWeekNo/setWeekNo"),
      ("ordinal setters and tests", "src/pycalendar/datetime.py setYearDay/setMonthDay/setDayOfWeekInMonth/setDayOfWeekInYear/isDayOfWeekInMonth/setNextDayOfWeek")])

prop("C03", "Dates and times survive their text forms",
     "Every date, floating time, UTC time and time with a UTC offset is written in the fixed-width basic form (and the ISO extended form for JSON and XML) with exactly its own fields, and reading that text gives back the same fields, the same date-only and UTC status and the same offset. "
     "Any text that is accepted at all is written back in a form that reads as the same value; text with extra characters, a wrong T separator or anything but Z after the time is refused with an error, and fractions of a second are dropped.",
     ["inputs"], "every date, time and whole-minute offset; every text of the bounded alphabets",
     "The tests check a table of literal strings; a field width, sign or zone-marker slip only shows for particular digits.",
     ["src/pycalendar/datetime.py"],
     [("text generation", "src/pycalendar/datetime.py getText/getJSONText/getXMLText"),
      ("text parsing", "src/pycalendar/datetime.py parse/parseDate/parseTime/parseFractionalAndUTCOffset")])

prop("C04", "Times order by instant, across zones, at every moment of their life",
     "Two times with a zone (UTC or a UTC offset) compare equal, less or greater exactly as the instants they denote do, floating times and dates compare by their fields, a date against a time compares the date parts, and equal times hash alike. "
     "A time that has been changed through any sequence of setters or adjustments denotes the same instant as a freshly built time with the same fields, so no cached value is ever stale. "
     "Converting to another zone or to UTC keeps the instant, gives the right wall clock and leaves the original unchanged where a copy is returned.",
     ["inputs", "histories"], "all pairs of times; all sequences of two changes; all whole-minute offsets below 24 h",
     "Comparison goes through per-object caches and zone adjustments; tests compare a few literals and never interleave reads with changes.",
     ["src/pycalendar/datetime.py", "src/pycalendar/timezone.py"],
     [("comparison and hash", "src/pycalendar/datetime.py __eq__/__lt__/compareDateTime/__hash__/sort"),
      ("posix time cache", "src/pycalendar/datetime.py getPosixTime/changed"),
      ("zone conversion", "src/pycalendar/datetime.py adjustTimezone/adjustToUTC/getAdjustedTime")])

prop("C05", "Durations keep their value through arithmetic and text",
     "A duration made from a number of seconds has exactly that total, split into non-negative parts in range with weeks standing alone, and durations compare and hash by total. "
     "It is written in a standard RFC 5545 form of the same total and reads back equal from text and JSON. "
     "Every well formed duration text is accepted with the right total, and malformed text is refused with ValueError (except that a trailing T without any time part and days after weeks are tolerated).",
     ["inputs"], "every number of seconds up to 10^9 either way; every text of the bounded alphabets",
     "Sign, week and carry branches combine; the tests list a dozen literals.",
     ["src/pycalendar/duration.py", "src/pycalendar/durationvalue.py"],
     [("normalisation", "src/pycalendar/duration.py setDuration/getTotalSeconds"), ("text", "src/pycalendar/duration.py parse/generate")])

prop("C06", "Periods: ends, containment, overlap and order are consistent",
     "A period given by start and end and the equal one given by start and duration have the same start, end and duration, keep the form they were given in when written, and can be switched to the other form without changing what they cover. "
     "Put in another zone, a period keeps the clock of its start and of its end or its length, whichever it was given by, whatever it was asked before. "
     "A time is within a period when it is at or after the start and before the end, otherwise it is exactly one of before or after; two periods overlap exactly when each starts before the other ends; periods compare by start then end and equal periods hash alike. "
     "Periods read back identical from text and JSON, and text that is not two parts is refused.",
     ["inputs"], "every start second and length within the stated spans; every text of the bounded alphabet",
     "Half-open boundaries only show when endpoints coincide to the second, which tests rarely hit for every combination of forms.",
     ["src/pycalendar/period.py", "src/pycalendar/periodvalue.py"],
     [("lazy end and duration", "src/pycalendar/period.py getEnd/getDuration/setUseDuration"),
      ("containment and overlap", "src/pycalendar/period.py isDateWithinPeriod/isDateBeforePeriod/isDateAfterPeriod/isPeriodOverlap"),
      ("text", "src/pycalendar/period.py parse/generate/parseJSON/writeJSON")])

prop("C14", "Text values survive escaping, whatever characters they contain",
     "Any text placed in a text property is written on one logical line using only the standard escapes and reads back as the identical text. "
     "Lists of texts (categories, nicknames), structured names and addresses with several items per component, organisation units and request statuses read back with the same items in the same places, whatever separators, backslashes or line breaks the items contain. "
     "Unknown escapes are refused in strict mode, and values of unknown properties, URIs and calendar addresses are kept verbatim.",
     ["inputs"], "every text over the special characters up to the stated lengths, every number of items within bounds",
     "Escapes interact (a backslash before a separator, a line break inside an item); tests use a handful of fixed strings.",
     ["src/pycalendar/utils.py", "src/pycalendar/textvalue.py", "src/pycalendar/multivalue.py", "src/pycalendar/vcard/n.py", "src/pycalendar/vcard/adr.py",
      "src/pycalendar/vcard/orgvalue.py", "src/pycalendar/requeststatusvalue.py", "src/pycalendar/plaintextvalue.py"],
     [("escape and unescape", "src/pycalendar/utils.py encodeTextValue/decodeTextValue"),
      ("list splitting", "src/pycalendar/utils.py parseTextList/generateTextList/parseDoubleNestedList"),
      ("multi values", "src/pycalendar/multivalue.py parse/generate")])

prop("C15", "Property parameters survive quoting and circumflex escaping",
     "Any parameter value containing spaces, separators, quotes, circumflexes or line breaks is written so that it reads back as the same value (all line breaks becoming one kind), with the same number of values per parameter and the same parameters, without disturbing the property value, and writing it again gives the same text. "
     "Parameter names are looked up, added to, replaced and removed in any case, they take part in property equality, and a copied property has its own. "
     "However the text after a property name is malformed, parsing ends with a property that can be written or with the documented error.",
     ["inputs"], "every value over the special characters up to the stated lengths; every malformed tail within bounds",
     "Quoting rules depend on which special characters occur together and where; tests use a few literals.",
     ["src/pycalendar/parameter.py", "src/pycalendar/property.py", "src/pycalendar/vcard/property.py", "src/pycalendar/utils.py", "src/pycalendar/stringutils.py"],
     [("circumflex escapes", "src/pycalendar/utils.py encodeParameterValue/decodeParameterValue"),
      ("quoting", "src/pycalendar/parameter.py generateValue"),
      ("tokenising", "src/pycalendar/stringutils.py strduptokenstr, property.py parseTextParameters")],
     note="Known finding: a value that must be quoted and ends in an odd run of backslashes cannot be read back.")

prop("C08", "Recurrence rules survive their text and JSON forms",
     "A recurrence rule with any legal parts is written in one standard order with its own values, reads back equal (and with equal hash) from text and from JSON, and a copy is equal but independent. "
     "Two rules are equal exactly when frequency, limit, interval, week start and each BYxxx part (in any order of its values) agree, and equal rules have the same hash. "
     "Values out of the RFC 5545 range, unknown or repeated BYxxx parts, missing values and COUNT together with UNTIL are refused with ValueError, and whatever other text is accepted is written so that it reads back equal.",
     ["inputs"], "every value of each part; every frequency, limit and interval within bounds; every malformed tail of the bounded alphabets",
     "Each part has its own parser, range and writer and they combine; tests check a few dozen literal rules.",
     ["src/pycalendar/icalendar/recurrence.py", "src/pycalendar/icalendar/recurrencevalue.py"],
     [("parsing", "src/pycalendar/icalendar/recurrence.py parse/parseList/parseByDay"), ("writing", "src/pycalendar/icalendar/recurrence.py generate/writeJSON"),
      ("equality", "src/pycalendar/icalendar/recurrence.py equals/equalsNum/equalsDayNum")])

prop("C09", "Simple rules recur at exactly the stated times",
     "A rule of any frequency with an interval and without BYxxx parts gives the start, then exactly every time a whole number of intervals later, skipping monthly and yearly dates that do not exist. "
     "COUNT gives exactly that many instances counted from the start, UNTIL includes an instance at that very time and nothing later (a date covering its whole day), and only instances at or after the beginning and before the end of the window are returned. "
     "Instances keep the kind (date, floating, UTC) of the start, and neither start nor rule is changed.",
     ["inputs"], "starts on every day and time of months around leap years and year ends, every interval, count, UNTIL and window within bounds",
     "Month ends, leap days and window boundaries coincide only for particular starts; tests expand a few dozen fixed rules.",
     ["src/pycalendar/icalendar/recurrence.py", "src/pycalendar/icalendar/recurrenceset.py", "src/pycalendar/datetime.py"],
     [("simple expansion", "src/pycalendar/icalendar/recurrence.py expand/simpleExpand"), ("date steps", "src/pycalendar/datetime.py recur")])

prop("C10", "Rules with BYxxx parts recur as RFC 5545 defines",
     "A rule with BYxxx parts gives the start, then exactly the times RFC 5545 section 3.3.10 defines for its frequency and interval: parts expand or limit as in its table, negative values count from the end, numbered weekdays count within the month (MONTHLY, or YEARLY with BYMONTH) or the year, BYSETPOS picks from each interval, and each time is given once. "
     "COUNT, UNTIL and the window cut this sequence as for simple rules. "
     "Left out: BYWEEKNO without BYDAY or with a WKST other than Monday, and numbered weekdays in rules of other frequencies or together with BYYEARDAY or BYWEEKNO.",
     ["inputs"], "every value of the parts in 65 combinations of frequency and parts, starts in months around leap years and year ends",
     "Which instances exist depends on the joint calendar position of start and parts; tests check some sixty fixed rules.",
     ["src/pycalendar/icalendar/recurrence.py", "src/pycalendar/datetime.py"],
     [("expansion and limits", "src/pycalendar/icalendar/recurrence.py generateYearlySet..generateSecondlySet, byMonthExpand..bySetPosLimit"),
      ("complex expansion", "src/pycalendar/icalendar/recurrence.py complexExpand")])

prop("C11", "Expanding a recurrence never depends on what was asked before",
     "Expanding a rule or recurrence set for any start and window gives the same instances, or the same too-many-instances error, as a freshly parsed one, whatever starts, windows and limits were asked before and however the rule was changed through its setters or parsed again in between. "
     "Adjacent windows join up to the whole, the start and window given are not changed, and changing returned instances, the start, the window or a copy afterwards changes no later answer. "
     "A limit on the number of instances that is not exceeded changes nothing, and one exceeded by more than the start itself always raises the error.",
     ["inputs", "histories"], "sequences of two or three questions over daily, weekly and monthly rules, all windows of whole days within bounds",
     "Expansion is cached and extended between calls; tests ask one or two fixed questions of fresh rules.",
     ["src/pycalendar/icalendar/recurrence.py", "src/pycalendar/icalendar/recurrenceset.py"],
     [("cache", "src/pycalendar/icalendar/recurrence.py expand/clear/_setAndclearIfChanged"), ("set expansion", "src/pycalendar/icalendar/recurrenceset.py expand/duplicate")])

prop("C12", "A recurrence set is what it includes less what it excludes",
     "The instances of a recurrence set within a window are the start, the instances of its rules, its dates and the starts of its periods that overlap the window, each once, less the instances of its excluded rules, its excluded dates and the starts of its excluded periods. "
     "Times given in another zone include or exclude the same instant. "
     "A copy has all the parts and is independent of the original.",
     ["inputs"], "every combination of up to two rules, dates and excluded dates at times within bounds, every window within bounds",
     "Whether an exclusion hits depends on exact coincidence of times, kinds and zones; tests check a few fixed sets.",
     ["src/pycalendar/icalendar/recurrenceset.py", "src/pycalendar/utils.py", "src/pycalendar/datetime.py"],
     [("set expansion", "src/pycalendar/icalendar/recurrenceset.py expand"), ("set difference", "src/pycalendar/utils.py set_difference")])

prop("C13", "Time zone offsets follow the VTIMEZONE rules at every moment",
     "The UTC offset and the name (or offset) shown for a local time are those of the last onset at or before it on the local clock of each onset's own previous offset, and for a UTC time those of the last onset at or before that instant; before the first onset the offset is zero and the name empty. "
     "Onsets come from starts, rules (with UNTIL in UTC) and dates of the STANDARD and DAYLIGHT parts, and answers do not depend on earlier questions. "
     "Converting a time in such a zone to UTC, back, or to another zone keeps the instant and gives the wall clock of that zone.",
     ["inputs", "histories"], "every second of chosen years around the onsets of nine zones, and zones with unknown offsets and onset rules",
     "Mistakes show only within hours of an onset, in the first or last year of a rule, or after certain earlier questions; tests probe a few times of one or two zones.",
     ["src/pycalendar/icalendar/vtimezone.py", "src/pycalendar/icalendar/vtimezoneelement.py", "src/pycalendar/timezone.py", "src/pycalendar/timezonedb.py", "src/pycalendar/datetime.py"],
     [("offset lookup and caches", "src/pycalendar/icalendar/vtimezone.py getTimezoneOffsetSeconds/tuple_bisect_right/expandAll"),
      ("onset expansion", "src/pycalendar/icalendar/vtimezoneelement.py expandAll/expandBelow"), ("conversion", "src/pycalendar/datetime.py adjustTimezone/adjustToUTC")])

prop("C07", "UTC offsets, integers and lists of dates or periods keep their value",
     "Every UTC offset below 24 hours, to the second, is written in its standard form (+hhmm[ss] in calendars, +hh:mm[:ss] in vCards, JSON and XML) and reads back as the same offset; any other text is refused. "
     "Integers read back as the same number from text and JSON, and text that is not a number is refused. "
     "Lists of dates, times (UTC, floating or with a TZID) and periods keep every item, in order and with its kind and zone, through text, JSON and copying, and one malformed item makes the whole property refused rather than dropped.",
     ["inputs"], "every offset and pair of offsets; integers around 0, 10^5 and 2^31; lists of up to three symbolic items; malformed texts of bounded length",
     "Signs, seconds parts and list positions combine; tests hold a few literals.",
     ["src/pycalendar/utcoffsetvalue.py", "src/pycalendar/integervalue.py", "src/pycalendar/multivalue.py", "src/pycalendar/property.py", "src/pycalendar/icalendar/property.py"],
     [("UTC offset codec", "src/pycalendar/utcoffsetvalue.py parse/generate"), ("lists", "src/pycalendar/multivalue.py parse/generate/writeJSONValue"),
      ("list properties", "src/pycalendar/icalendar/property.py _init_attr_value_datetimelist/_init_attr_value_periodlist/_postCreateValue")])

prop("C16", "Folding long lines loses nothing and splits no character",
     "However long a property is and whatever characters it holds, every line written has at most 75 octets, ends in CRLF, continues with one space, never breaks inside a UTF-8 character, and writing always terminates, even for text that is not UTF-8. "
     "Removing the folds gives back exactly the unfolded line. "
     "Reading calendars and vCards undoes folding at any place, with CRLF or LF line ends and a space or a tab, and ignores blank lines between properties.",
     ["inputs"], "every line length from 60 to 235, every UTF-8 sequence of bounded length at every offset around the fold points; every fold position of the reader's input",
     "The fold point moves with the number of bytes before it and steps back over continuation bytes; tests have one or two long lines.",
     ["src/pycalendar/property.py", "src/pycalendar/utils.py", "src/pycalendar/containerbase.py", "src/pycalendar/icalendar/calendar.py"],
     [("folding writer", "src/pycalendar/property.py generateValue"), ("unfolding reader", "src/pycalendar/utils.py readFoldedLine")])

prop("C17", "iCalendar property lines keep name, parameters, type and value",
     "A well formed line name;param=value,...:value is read into exactly those parts, and writing a property gives one line that reads back as an equal property, with parameters in name order, the values of one parameter sorted, and a VALUE parameter exactly when the type is not the default. "
     "Every standard property has its RFC 5545 default type in any letter case, VALUE (in any case) overrides it, values of types that are not supported pass through whole, and a TZID makes a time local to that zone. "
     "Text that is not a property line, or whose value is not of the property's type, is refused with the documented error and never with another one.",
     ["inputs"], "every standard property and value type with symbolic values; every line of bounded length over the delimiter characters",
     "Quoting, repeated parameters, VALUE and type tables combine; tests cover chosen lines only.",
     ["src/pycalendar/property.py", "src/pycalendar/icalendar/property.py", "src/pycalendar/stringutils.py", "src/pycalendar/parameter.py"],
     [("line parser", "src/pycalendar/property.py parseText/parseTextParameters, src/pycalendar/stringutils.py strduptokenstr"),
      ("value types", "src/pycalendar/property.py determineValueType/setupValueParameter, src/pycalendar/icalendar/property.py tables")])

prop("C18", "vCard property lines keep group, name, parameters, type and value",
     "A vCard line is read into its group, name, parameters and value, and writing it gives text that reads back as an equal property with the same group; properties in different groups are different. "
     "Every standard property has its RFC 2426 type, which VALUE (in any letter case) overrides; dates and times are accepted in basic and extended form, inline pictures are broken into lines of at most 75 and read back whole, and vCard 2.1 parameters without values are kept, with BASE64 turned into ENCODING=B. "
     "Text that is not a property line, or whose value is not of the property's type, is refused with the documented error and never with another one.",
     ["inputs"], "every standard property with symbolic values and groups; picture data of 0..150 characters; every line of bounded length over the delimiter characters",
     "Group, parameter and value tables combine, and the picture writer has its own line breaking; tests cover a few cards.",
     ["src/pycalendar/vcard/property.py", "src/pycalendar/property.py", "src/pycalendar/vcard/definitions.py"],
     [("vCard line parser", "src/pycalendar/vcard/property.py parseTextParameters, src/pycalendar/property.py parseText"),
      ("picture writer", "src/pycalendar/vcard/property.py generateValue")])


prop("C19", "Components nest as delimited, and broken data is refused",
     "Reading a calendar gives exactly the components and properties between each BEGIN and its matching END, in order and each in its own component, and writing it gives text that reads back with the same content; blank lines, folds and line ends do not matter. "
     "Data in which delimiters do not match, a component or the whole is not closed, something stands outside the calendar, VERSION is missing or wrong, or a component holds one it may not, is refused with an error and never read in part. "
     "The same holds for single vCards, for several in one stream, and for reading the components of a stream into a calendar.",
     ["inputs"], "every stream of up to 4 (thorough: 6) free lines out of up to 11 kinds of line in each context, every pair of component types, every fold position",
     "The reader is a state machine over arbitrary line sequences; tests feed it a few good files and a few bad ones.",
     ["src/pycalendar/containerbase.py", "src/pycalendar/icalendar/calendar.py", "src/pycalendar/vcard/card.py", "src/pycalendar/componentbase.py"],
     [("reader", "src/pycalendar/containerbase.py parse, src/pycalendar/vcard/card.py parseMultipleTextData, src/pycalendar/icalendar/calendar.py parseComponent"),
      ("component tree", "src/pycalendar/componentbase.py addComponent/sortedComponents/generate"), ("allowed nesting", "src/pycalendar/icalendar/vevent.py, vtodo.py, vtimezone.py, vavailability.py, vvoter.py addComponent")])

prop("C20", "Calendars and vCards survive JSON",
     "Writing a property to jCal or jCard gives [name, parameters, type, value...] with lower case names, the RFC type and every parameter value, and reading that gives a property with the same name, group, parameters, type and value. "
     "Whole calendars, vCards and lists of vCards come back from their JSON text with everything in its place and the same text form, and time zones of a JSON calendar are used. "
     "JSON of the wrong shape, type or version is refused with a documented error.",
     ["inputs"], "every standard property and value type of both formats with symbolic values and parameters, and documents combining listed properties",
     "JSON uses other code than text for each type; tests compare a few fixed files.",
     ["src/pycalendar/property.py", "src/pycalendar/parameter.py", "src/pycalendar/value.py", "src/pycalendar/multivalue.py", "src/pycalendar/componentbase.py", "src/pycalendar/containerbase.py", "src/pycalendar/vcard/property.py"],
     [("property JSON", "src/pycalendar/property.py parseJSON/generateValueJSON, src/pycalendar/parameter.py writeJSON"),
      ("component JSON", "src/pycalendar/componentbase.py parseJSON/writeJSON, src/pycalendar/containerbase.py parseJSONData"), ("structured values", "src/pycalendar/vcard/n.py, adr.py, orgvalue.py")])

prop("C21", "Copies are equal and independent, equality means same content",
     "A copy of a property, component, calendar or vCard equals the original, has the same text, parents and parts, and no later change to either shows in the other. "
     "Two properties are equal exactly when group, name, parameters and value are, and two calendars or vCards exactly when they hold the same properties and components, in whatever order; different is always the opposite of equal, and equal properties have equal hashes.",
     ["inputs", "histories"], "one property of every value type with symbolic values, every component type, every listed change to any part of either side; pairs of small calendars",
     "Sharing shows only after a change to one particular part of one particular type; tests copy a few calendars and change nothing.",
     ["src/pycalendar/componentbase.py", "src/pycalendar/property.py", "src/pycalendar/vcard/property.py", "src/pycalendar/parameter.py", "src/pycalendar/valueutils.py", "src/pycalendar/icalendar/component.py"],
     [("copying", "duplicate() of src/pycalendar/componentbase.py, property.py, valueutils.py and each value class"), ("equality", "src/pycalendar/componentbase.py __eq__/compareProperties/compareComponents, src/pycalendar/property.py __eq__/__hash__")])

prop("C23", "Expanding a calendar lists each instance once, with overrides in place",
     "Expanding the events of a calendar over a window gives, in time order (all day first where asked), every instance whose time by the rule lies in the window, with the length of its event however that is given, less excluded ones and less those replaced by an override of the same UID; overrides, events that do not recur and instances added as periods (which have the period's length) appear when they overlap the window. Instances keep the clock of the start and, of an event with an end, its exact length, also across a change of the zone's offset. "
     "An override with RANGE=THISANDFUTURE (or THISANDPRIOR) moves and resizes every later (earlier) instance, up to the next such override. "
     "The answer does not depend on the order of components or on earlier questions.",
     ["inputs", "histories"], "daily events of up to 3 instances with symbolic times and lengths, any one excluded or overridden, four kinds of time, every window of whole days over six days; up to two added periods or dates",
     "Results depend on how the window, the exclusion and the override line up; tests look at two fixed calendars.",
     ["src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/componentexpanded.py", "src/pycalendar/icalendar/calendar.py", "src/pycalendar/icalendar/recurrenceset.py"],
     [("expansion", "src/pycalendar/icalendar/componentrecur.py expandPeriod/withinPeriod"), ("instances", "src/pycalendar/icalendar/componentexpanded.py initFromOwner/sort_by_dtstart"), ("overrides", "src/pycalendar/icalendar/calendar.py getVEvents/getRecurrenceInstancesItems")])

prop("C22", "Validation reports every problem and repairs only what it says",
     "Validating a calendar or vCard reports exactly the properties that are missing, repeated, of a value they may not have, or excluded by another, in every component type, and an UNTIL of another kind than DTSTART. "
     "Without leave to repair nothing changes; with it exactly the repairable problems are repaired, the object then answers and recurs as its new text does, and none of them is found again. "
     "A date UNTIL repaired for a daily event keeps its instances.",
     ["inputs"], "every component type and alarm action with any one property 0 to 3 times or any two 0 to 2 times, whole numbers around each limit, times in UTC, floating or of a zone, up to 3 STATUS",
     "Problems combine; the tests list one or two documents for each.",
     ["src/pycalendar/componentbase.py", "src/pycalendar/validation.py", "src/pycalendar/icalendar/validation.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/vevent.py", "src/pycalendar/icalendar/vtodo.py", "src/pycalendar/icalendar/valarm.py"],
     [("cardinality", "src/pycalendar/componentbase.py validate/check_cardinality_*"), ("values", "src/pycalendar/validation.py PropertyValueChecks"),
      ("constraints and repairs", "validate() of src/pycalendar/icalendar/componentrecur.py, vevent.py, vtodo.py, valarm.py, vtimezone.py, vavailability.py, available.py")])

prop("C24", "Components answer what their text says, also after edits",
     "After reading, what an event, to-do, journal entry or alarm answers (times, end or length, status, sequence, texts, override and range, completion, trigger, action, repeats) is what its properties say, enumerated words in any case. "
     "After any edit made through its methods the component, a copy of it, and its text read again all give the edited value, agree in everything else, and properties the edit is not about are unchanged.",
     ["inputs", "histories"], "four kinds of time, any minute of four days, every status, action and range in any case, texts of two letters; any one or two edits",
     "Answers are cached beside the text they come from, and every edit has to change both.",
     ["src/pycalendar/icalendar/component.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/vevent.py", "src/pycalendar/icalendar/vtodo.py", "src/pycalendar/icalendar/valarm.py", "src/pycalendar/icalendar/calendar.py"],
     [("reading", "finalise() of src/pycalendar/icalendar/component.py, componentrecur.py, vevent.py, vtodo.py, valarm.py"), ("editing", "edit*() and exclude*() of the same and of src/pycalendar/icalendar/calendar.py")])

prop("C25", "Alarms go off when they should and no oftener",
     "An alarm is first due at its absolute time, or its length before or after the start or end of what it is in. "
     "Its next time is the latest that has passed, or the first if none has, and the one after if it has gone off then or that is over a day ago; it is completed when there is none. "
     "Going off, it repeats after its interval as often as it says and then completes, and notes when it went off.",
     ["inputs", "histories"], "triggers within 300 minutes, up to 2 repeats (thorough 5) after up to 2000 minutes, now at every minute of eight days",
     "What is due depends on how now, the last time and the repeats line up; there are no tests of it.",
     ["src/pycalendar/icalendar/valarm.py"],
     [("schedule", "src/pycalendar/icalendar/valarm.py initNextTrigger/getNextTrigger/getFirstTrigger"), ("going off", "src/pycalendar/icalendar/valarm.py alarmTriggered")])

prop("C26", "Time zones made from tzdata have the offsets tzdata states",
     "A tzdata rule names the right day of every year, and a zone's transitions, the VTIMEZONE made from it, and that VTIMEZONE read back from text all give, at every moment from the first change in or after the start year to the end of the year range, the UTC offset (and name) that its lines and rules state, whatever was expanded before. "
     "Rules and zones are written back as they were read. "
     "(Zones of several lines begin with an LMT line, times are h:mm, the rules of a zone alternate, 24:00 is taken as 23:59:59; a UTC rule moved to another day is covered for April to December when moved back and February to November when moved on, and not on February 29, March 1 by number, or a Sunday>=n whose last day ends the month.)",
     ["inputs"], "every day of a rule over 200 years; New York and a five-line zone at every second of the years around each change; 13 forms of the day, five times, three modes, zones with UNTIL in five modes and with saved time of their own",
     "A wrong shift shows in one year of several, or for one weekday and one offset; tests convert a few fixed rules.",
     ["src/zonal/rule.py", "src/zonal/zone.py", "src/zonal/utils.py", "src/pycalendar/icalendar/vtimezone.py"],
     [("rules", "src/zonal/rule.py datetimeForYear/expand/vtimezone"), ("zones", "src/zonal/zone.py expand/vtimezone"), ("day arithmetic", "src/zonal/utils.py DateTime/DSTOffset")])

prop("C27", "The time zone database reads only its own files, and each zone once",
     "No TZID, whatever it holds, makes the database read a file outside its directory, and every plain name reads the file of that name. "
     "A file that is missing, broken or of another zone is the same as none; a zone found is kept, zones of calendars read are added but never replace a standard one, and what is standard, what offset applies and what clearing leaves follow from the calls made so far.",
     ["inputs", "histories"], "every TZID of up to 7 (thorough: 9) characters of . / a, and of up to 4 of eleven characters, against two directories; every history of two (thorough: three) of seven calls over six kinds of TZID",
     "Path tricks are few among many names; tests ask for two known zones.",
     ["src/pycalendar/timezonedb.py"],
     [("files", "src/pycalendar/timezonedb.py cacheTimezone/isStandardTimezone"), ("kept zones", "src/pycalendar/timezonedb.py getTimezone/mergeTimezone/clearTimezoneDatabase")])

prop("C28", "The text of a calendar carries the time zones it uses",
     "Writing a calendar includes, once each, the zones it has and those any property of any of its components uses - all of them, only those that are not standard, or none, as asked - and changes nothing else; read where only standard zones are known, the text states the same moments. "
     "Stripping standard zones removes those and no others and says whether it did.",
     ["inputs", "histories"], "a zone used in any of 11 places of a calendar, standard or not, known or not, present or not, written as text, JSON and XML; any two changes by hand",
     "Which zones are needed depends on every place a TZID can stand; tests look at DTSTART.",
     ["src/pycalendar/icalendar/calendar.py", "src/pycalendar/componentbase.py", "src/pycalendar/property.py", "src/pycalendar/multivalue.py", "src/pycalendar/period.py"],
     [("included zones", "src/pycalendar/icalendar/calendar.py includeMissingTimezones/stripStandardTimezones/getTimezones"), ("zones of values", "src/pycalendar/property.py _setupValue, src/pycalendar/period.py setTimezoneID")])

prop("C29", "Calendars answer like their text whatever was added, removed or renamed",
     "After any history of adding, removing, renaming, deriving, copying and clearing components, what a calendar lists, which instances and overrides belong to which UID, and what it finds by key are the same as for a calendar read from its text. "
     "Deriving an override gives a component with that RECURRENCE-ID, the master's properties, and the times of that instance. "
     "A component given no UID gets one of its own.",
     ["histories"], "every history of two operations of eleven (thorough: three of seven) from up to four components of two UIDs; three instances of events, to-dos and journal entries in four kinds of time with end, duration or neither",
     "The maps from UID to components and overrides are kept beside the components; tests do not change calendars.",
     ["src/pycalendar/icalendar/calendar.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/component.py", "src/pycalendar/componentbase.py"],
     [("maps", "src/pycalendar/icalendar/calendar.py addComponent/removeComponent/removeAllComponent/changeUID"), ("deriving", "src/pycalendar/icalendar/calendar.py deriveComponent")])

prop("C30", "Busy time is what events and free-busy components say",
     "A free-busy component has the start, end and busy times its text states, by type, and matters to a window exactly when its span (or that of its busy times) overlaps it, also after edits. "
     "The busy time of a calendar is that of its timed events that are neither cancelled nor transparent, tentative ones as such, with each instance of recurring ones, and of its free-busy components. "
     "Asking changes nothing, and what is given away is not shared.",
     ["inputs", "histories"], "one or two properties of eight types at any hour of 30 to 40; two events of any status and transparency, one of them daily, an all-day event and a free-busy component, every window of a day by the hour",
     "Touching and overlapping spans are corner cases; there are no tests of it.",
     ["src/pycalendar/icalendar/vfreebusy.py", "src/pycalendar/icalendar/freebusy.py", "src/pycalendar/icalendar/calendar.py", "src/pycalendar/icalendar/componentrecur.py"],
     [("free-busy components", "src/pycalendar/icalendar/vfreebusy.py expandPeriodComp/expandPeriodFB/cacheBusyTime"), ("calendars", "src/pycalendar/icalendar/calendar.py getFreeBusy/getVFreeBusyList")])

prop("C31", "Filtered output holds exactly what the filter names",
     "Writing a component through an output filter gives, as text, JSON and XML, its delimiters or element and exactly the properties the filter names (all of them when it says so, whatever the letter case of the property), without the value where the filter says so, and exactly the sub-components it allows, each whole or through its own filter; all as and in the order they stand in the unfiltered output. "
     "With everything allowed the output is the unfiltered one, and writing changes nothing.",
     ["inputs"], "an event of 6 properties with 4 names each absent, with or without value; a calendar of two events, alarms and a to-do with every nesting of filters; vCards; symbolic values and filter names",
     "Three writers and a filter tree combine; there are no tests of it.",
     ["src/pycalendar/outputfilter.py", "src/pycalendar/componentbase.py", "src/pycalendar/property.py"],
     [("filters", "src/pycalendar/outputfilter.py testPropertyValue/testSubComponent"), ("filtered writers", "src/pycalendar/componentbase.py writePropertiesFiltered*/writeComponentsFiltered*, src/pycalendar/property.py generateFiltered/writeXMLFiltered/writeJSONFiltered")])

prop("C32", "XML output states what the calendar holds",
     "Writing a calendar as XML gives the element tree of its text: one element for each component with its properties and then its components, one element for each property in the order of the text, holding every parameter but VALUE with every one of its values and then every value in order, named by its type. "
     "Dates and times are in extended form, periods, recurrence rules, GEO and REQUEST-STATUS are in their parts, text is unescaped, and types that are not supported keep their name; in the document only markup is markup.",
     ["inputs"], "every standard property and value type with symbolic values, lists of up to 2 or 3, every rule part with lists of up to 2, calendars of up to three components; texts of up to 3 characters that need escaping",
     "Each value type has its own XML writer; one test writes one calendar without most of them.",
     ["src/pycalendar/property.py", "src/pycalendar/value.py", "src/pycalendar/valueutils.py", "src/pycalendar/period.py", "src/pycalendar/icalendar/recurrence.py", "src/pycalendar/xmlutils.py"],
     [("property writer", "src/pycalendar/property.py generateValueXML, src/pycalendar/parameter.py writeXML, src/pycalendar/multivalue.py writeXML"), ("value writers", "src/pycalendar/value.py getXMLNode, src/pycalendar/icalendar/recurrence.py writeXML, src/pycalendar/period.py writeXML"),
      ("component writer", "src/pycalendar/componentbase.py writeXML/writePropertiesXML/writeComponentsXML, src/pycalendar/icalendar/calendar.py writeXML")])

prop("C33", "Known mistakes in data are treated as the reading mode says",
     "Data without mistakes reads the same whatever the reading modes. "
     "Each known mistake - escapes that are not allowed, blank lines, vCard parameters without a value, spaces for leading zeros in dates, durations with nothing after T or something after weeks, names and addresses with too many parts, REQUEST-STATUS in the wrong form, escapes in URLs and in GEO - is refused with the documented error when its mode is strict, and otherwise passed on, left out or put right as the mode says, and never in another way or with another error. "
     "Asking for strict reading makes all of them strict.",
     ["inputs"], "every text of up to 4 (thorough: 6) characters of escapes under every pair of modes; every mode of each of the other mistakes with symbolic values; a blank line at every place",
     "Modes multiply with mistakes; the tests run with the modes as they are.",
     ["src/pycalendar/parser.py", "src/pycalendar/utils.py", "src/pycalendar/icalendar/requeststatusvalue.py", "src/pycalendar/vcard/property.py", "src/pycalendar/duration.py", "src/pycalendar/datetime.py", "src/pycalendar/geovalue.py", "src/pycalendar/urivalue.py"],
     [("modes", "src/pycalendar/parser.py ParserContext.allRaise"), ("text", "src/pycalendar/utils.py decodeTextValue/parseDoubleNestedList"),
      ("values", "src/pycalendar/icalendar/requeststatusvalue.py parse, src/pycalendar/duration.py parse, src/pycalendar/datetime.py parseDate, src/pycalendar/urivalue.py parse, src/pycalendar/geovalue.py parse"),
      ("parameters", "src/pycalendar/vcard/property.py parseTextParameters"), ("blank lines", "src/pycalendar/containerbase.py parse, src/pycalendar/icalendar/calendar.py parseComponent, src/pycalendar/vcard/card.py parseMultipleTextData")])

prop("C34", "People are shown the right date, time, zone and state",
     "The text of a date or time for people names exactly that day and that time: the right names of weekday and month, long or short, day and year in their places, 12-hour times with AM or PM from which the hour is known again, minutes and seconds with two digits, and - when asked, and only then - the zone in force at that moment, by its name or, where it has none, its UTC offset with its sign. "
     "Now and today are those of the clock, in the zone asked for. A to-do is due later, due now, overdue, done or cancelled as its status, its due time (or start and duration) and today's date say.",
     ["inputs"], "every date of 31 years (thorough: 401) in six forms; every second of a day in two forms; every hour of a year in zones with a change and any offset of whole minutes from -12:00 to +13:00; every to-do status with every due hour and today of three months",
     "Twelve o'clock, negative offsets and each weekday of each month are single values among many; there are no tests of it.",
     ["src/pycalendar/datetime.py", "src/pycalendar/locale.py", "src/pycalendar/timezone.py", "src/pycalendar/icalendar/vtimezone.py", "src/pycalendar/icalendar/vtodo.py"],
     [("dates and times", "src/pycalendar/datetime.py getLocaleDate/getTime/getLocaleDateTime, src/pycalendar/locale.py getDay/getMonth"), ("zones", "src/pycalendar/timezone.py timeZoneDescriptor, src/pycalendar/icalendar/vtimezone.py getTimezoneDescriptor/findTimezoneElement"),
      ("clock", "src/pycalendar/datetime.py getToday/getNow/getNowUTC"), ("to-dos", "src/pycalendar/icalendar/vtodo.py getCompletionState")])

prop("C35", "Zone files hold every zone and link of the tzdata files read",
     "Reading tzdata files keeps every rule, zone line and link as it stands, wherever comments and empty lines are and however the last line ends. "
     "Writing zone files leaves in the output directory one file for each wanted zone and for each link (given or by a Windows alias) that leads to one, directly or through other links, and the list of those links, and nothing that was there before; each file holds the zone of its own name, which is otherwise that of its target, and no file elsewhere is touched. "
     "(The names of zones and links all differ, and the files start in 1800.)",
     ["inputs"], "a comment or space of up to 4 (thorough: 6) symbolic characters before or after any line of files with rules, zones of one to three lines and links; two zones and up to two links to zones, each other or nothing, with every name of up to 2 or 3 characters of G, M and /, wanted or not; two Windows aliases",
     "Which names overlap and in which order links come decides what is written; there are no tests of it.",
     ["src/zonal/tzconvert.py", "src/zonal/zone.py", "src/zonal/rule.py"],
     [("reading", "src/zonal/tzconvert.py parse/parseZone/parseRule/parseLink, src/zonal/zone.py parse"), ("writing", "src/zonal/tzconvert.py generateZoneinfoFiles/parseWindowsAliases")])
