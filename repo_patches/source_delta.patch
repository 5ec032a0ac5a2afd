From 98ef56f0a92c2d6c019a48ac07bcc53984144619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 01/90] fix: apply century leap year rule when counting days
 since 1970

leapDaysSince1970 counted every fourth year, so day numbers, days of the
week and posix times were wrong from March 2100 on and before March 1900,
and disagreed with isLeapYear.
---
 src/pycalendar/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 4c28681..6a920a5 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -402,14 +402,14 @@ def leapDaysSince1970(year_offset):
     try:
         return cachedLeapDaysSince1970[year_offset]
     except KeyError:
-        if year_offset > 2:
-            result = (year_offset + 1) / 4
-        elif year_offset < -1:
-            # Python will round down negative numbers (i.e. -5/4 = -2, but we want -1), so
-            # what is (year_offset - 2) in C code is actually (year_offset - 2 + 3) in Python.
-            result = (year_offset + 1) / 4
+        # Count leap years before the target year, using the same rules as isLeapYear, and subtract
+        # the 477 that come before 1970
+        year = 1970 + year_offset - 1
+        if year <= 1752:
+            # 13 more century years are leap years in this range than the later rule would count
+            result = year / 4 - 13 - 477
         else:
-            result = 0
+            result = year / 4 - year / 100 + year / 400 - 477
         cachedLeapDaysSince1970[year_offset] = result
         return result
 
-- 
2.43.0


From 292472401df25b20db23f10205334c8de21dff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 02/90] fix: treat Sunday as the last day of the week in
 DateTime.setWeekNo

Weeks start on Monday here (as in getWeekNo), but Sunday was used as day 0,
so a Sunday moved to the preceding week, and in a year starting on a Sunday
every date moved one week too far.
---
 src/pycalendar/datetime.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4635a39..95c93d0 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -379,7 +379,11 @@ class DateTime(ValueMixin):
         # What day does the current year start on, and diff that with the current day
         temp = DateTime(year=self.mYear, month=1, day=1)
         first_day = temp.getDayOfWeek()
+        if first_day == 0:
+            first_day = 7
         current_day = self.getDayOfWeek()
+        if current_day == 0:
+            current_day = 7
 
         # Calculate and set yearday for start of week. The first week is the one that contains at least
         # four days (with week start defaulting to MONDAY), so that means the 1st of January would fall
-- 
2.43.0


From f57c3f1ff9f0eebccbc63536017b48bd6ba3044d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 03/90] fix: a UTC offset of zero is not a floating time

---
 src/pycalendar/datetime.py | 4 ++--
 src/pycalendar/timezone.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 95c93d0..36e0a74 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -613,10 +613,10 @@ class DateTime(ValueMixin):
         return self.mTZUTC
 
     def local(self):
-        return (not self.mTZUTC) and self.mTZID
+        return not self.mTZUTC and not Timezone.is_float(self.mTZUTC, self.mTZID)
 
     def floating(self):
-        return (not self.mTZUTC) and not self.mTZID
+        return Timezone.is_float(self.mTZUTC, self.mTZID)
 
     def getTimezone(self):
         return Timezone(utc=self.mTZUTC, tzid=self.mTZID)
diff --git a/src/pycalendar/timezone.py b/src/pycalendar/timezone.py
index 1647aa3..7e6bdeb 100644
--- a/src/pycalendar/timezone.py
+++ b/src/pycalendar/timezone.py
@@ -71,7 +71,8 @@ class Timezone(object):
 
     @staticmethod
     def is_float(utc, tzid):
-        return not utc and not tzid
+        # A UTC offset of zero is not floating
+        return not utc and (tzid is None or tzid == "")
 
     def getUTC(self):
         return self.mUTC
-- 
2.43.0


From 3c2ff61e938fb618a99ce6ccdb4cc9987f4874df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 04/90] fix: order and compare durations and periods by their
 values

---
 src/pycalendar/duration.py |  9 +++++++++
 src/pycalendar/period.py   | 12 +++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 36f4aed..f7599d2 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -54,6 +54,15 @@ class Duration(ValueMixin):
     def __eq__(self, comp):
         return self.getTotalSeconds() == comp.getTotalSeconds()
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
+    def __ge__(self, comp):
+        return self.getTotalSeconds() >= comp.getTotalSeconds()
+
+    def __le__(self, comp):
+        return self.getTotalSeconds() <= comp.getTotalSeconds()
+
     def __gt__(self, comp):
         return self.getTotalSeconds() > comp.getTotalSeconds()
 
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 8e47e4c..6fc61a1 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -59,8 +59,18 @@ class Period(ValueMixin):
     def __eq__(self, comp):
         return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
+    def __ge__(self, comp):
+        return not self.__lt__(comp)
+
+    def __le__(self, comp):
+        return not self.__gt__(comp)
+
     def __gt__(self, comp):
-        return self.mStart > comp
+        return self.mStart > comp.mStart  \
+            or (self.mStart == comp.mStart) and self.getEnd() > comp.getEnd()
 
     def __lt__(self, comp):
         return self.mStart < comp.mStart  \
-- 
2.43.0


From b4484eef8a059a16efc43feb0fd44281c3d475ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:07 +0000
Subject: [PATCH 05/90] fix: split text lists after an escaped backslash

---
 src/pycalendar/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 6a920a5..8840031 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -273,7 +273,8 @@ def parseTextList(data, sep=';', always_list=False):
             item = []
         else:
             item.append(s)
-        pre_s = s
+        # An escaped backslash does not escape what follows it
+        pre_s = '' if pre_s == '\\' else s
 
     results.append(decodeTextValue("".join(item)))
 
@@ -313,7 +314,8 @@ def parseDoubleNestedList(data, maxsize):
             items.append("")
         else:
             items[-1] += s
-        pre_s = s
+        # An escaped backslash does not escape what follows it
+        pre_s = '' if pre_s == '\\' else s
 
     if len(items) > 1:
         results.append(tuple([decodeTextValue(item) for item in items]))
-- 
2.43.0


From f1cfc20b2314c44342dcb7b8922ed334baa46e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 06/90] fix: do not split multi-valued text on escaped commas

---
 src/pycalendar/multivalue.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 5fd9db9..6d403b0 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -56,9 +56,20 @@ class MultiValue(Value):
         self.mValues = newValues
 
     def parse(self, data, variant):
-        # Tokenize on comma
+        # Tokenize on comma - but not on one that is escaped
         if "," in data:
-            tokens = data.split(",")
+            tokens = []
+            start = 0
+            escaped = False
+            for pos, c in enumerate(data):
+                if escaped:
+                    escaped = False
+                elif c == "\\":
+                    escaped = True
+                elif c == ",":
+                    tokens.append(data[start:pos])
+                    start = pos + 1
+            tokens.append(data[start:])
         else:
             tokens = (data,)
         for token in tokens:
-- 
2.43.0


From 06bfede6adedee18f76a52babe893417b7f4f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 07/90] fix: make the N and ADR component setters and != work

---
 src/pycalendar/vcard/adr.py | 22 +++++++++++++++-------
 src/pycalendar/vcard/n.py   | 18 +++++++++++++-----
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 07cf79d..2547cc5 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -51,47 +51,55 @@ class Adr(ValueMixin):
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
+    def _setItem(self, index, value):
+        items = list(self.mValue)
+        items[index] = value
+        self.mValue = tuple(items)
+
     def getPobox(self):
         return self.mValue[Adr.POBOX]
 
     def setPobox(self, value):
-        self.mValue[Adr.POBOX] = value
+        self._setItem(Adr.POBOX, value)
 
     def getExtended(self):
         return self.mValue[Adr.EXTENDED]
 
     def setExtended(self, value):
-        self.mValue[Adr.EXTENDED] = value
+        self._setItem(Adr.EXTENDED, value)
 
     def getStreet(self):
         return self.mValue[Adr.STREET]
 
     def setStreet(self, value):
-        self.mValue[Adr.STREET] = value
+        self._setItem(Adr.STREET, value)
 
     def getLocality(self):
         return self.mValue[Adr.LOCALITY]
 
     def setLocality(self, value):
-        self.mValue[Adr.LOCALITY] = value
+        self._setItem(Adr.LOCALITY, value)
 
     def getRegion(self):
         return self.mValue[Adr.REGION]
 
     def setRegion(self, value):
-        self.mValue[Adr.REGION] = value
+        self._setItem(Adr.REGION, value)
 
     def getPostalCode(self):
         return self.mValue[Adr.POSTALCODE]
 
     def setPostalCode(self, value):
-        self.mValue[Adr.POSTALCODE] = value
+        self._setItem(Adr.POSTALCODE, value)
 
     def getCountry(self):
         return self.mValue[Adr.COUNTRY]
 
     def setCountry(self, value):
-        self.mValue[Adr.COUNTRY] = value
+        self._setItem(Adr.COUNTRY, value)
 
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, Adr.MAXITEMS)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index cda6409..89e3838 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -49,35 +49,43 @@ class N(ValueMixin):
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
+    def __ne__(self, comp):
+        return not self.__eq__(comp)
+
+    def _setItem(self, index, value):
+        items = list(self.mValue)
+        items[index] = value
+        self.mValue = tuple(items)
+
     def getFirst(self):
         return self.mValue[N.FIRST]
 
     def setFirst(self, value):
-        self.mValue[N.FIRST] = value
+        self._setItem(N.FIRST, value)
 
     def getLast(self):
         return self.mValue[N.LAST]
 
     def setLast(self, value):
-        self.mValue[N.LAST] = value
+        self._setItem(N.LAST, value)
 
     def getMiddle(self):
         return self.mValue[N.MIDDLE]
 
     def setMiddle(self, value):
-        self.mValue[N.MIDDLE] = value
+        self._setItem(N.MIDDLE, value)
 
     def getPrefix(self):
         return self.mValue[N.PREFIX]
 
     def setPrefix(self, value):
-        self.mValue[N.PREFIX] = value
+        self._setItem(N.PREFIX, value)
 
     def getSuffix(self):
         return self.mValue[N.SUFFIX]
 
     def setSuffix(self, value):
-        self.mValue[N.SUFFIX] = value
+        self._setItem(N.SUFFIX, value)
 
     def getFullName(self):
 
-- 
2.43.0


From afd217407c704f73826616c14fe7ff438790fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 08/90] fix: quote parameter values that start with a space

---
 src/pycalendar/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 652b4d6..7df1d72 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -101,8 +101,8 @@ class Parameter(object):
         # ^-escaping
         str = encodeParameterValue(str)
 
-        # Look for quoting
-        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
+        # Look for quoting (leading space is dropped from an unquoted value when it is parsed)
+        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1 or str.startswith(" "):
             os.write("\"%s\"" % (str,))
         else:
             os.write(str)
-- 
2.43.0


From 6cb1a339f51817b0a6ba3f9d8a513d40aa8d9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 09/90] fix: do not loop forever on a vCard parameter followed
 by text

---
 src/pycalendar/vcard/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 52b7471..aafcc47 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -260,6 +260,9 @@ class Property(PropertyBase):
                     if stripValueSpaces:
                         txt = txt.replace(" ", "")
                     return txt
+                else:
+                    # We should never get here but if we do we need to terminate the loop
+                    raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From 60ebc21c958006f16a5913cfd8996cc0f7ba69bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:47 +0000
Subject: [PATCH 10/90] fix: reject a property line that has no value separator

---
 src/pycalendar/property.py       | 3 +++
 src/pycalendar/vcard/property.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a1544c6..0c5c32f 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -313,6 +313,9 @@ class PropertyBase(object):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            # Ran out of text without finding a value
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: 'parameter index error'", data)
 
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index aafcc47..0db7edc 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -264,6 +264,9 @@ class Property(PropertyBase):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            # Ran out of text without finding a value
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
 
-- 
2.43.0


From a2eab9442e39ed7597b64d16fe86ff9f02a52680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:26 +0000
Subject: [PATCH 11/90] fix: expand BYYEARDAY values beyond January

---
 src/pycalendar/icalendar/recurrence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a186af8..1a2c386 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1403,8 +1403,11 @@ class Recurrence(ValueMixin):
             # and insert into output
             for iter2 in self.mByYearDay:
                 temp = iter1.duplicate()
-                temp.setYearDay(iter2, allow_invalid=True)
-                output.append(temp)
+                temp.setYearDay(iter2)
+
+                # Skip days the year does not have, and limit to any BYMONTH
+                if temp.getYear() == iter1.getYear() and (not self.mByMonth or temp.getMonth() in self.mByMonth):
+                    output.append(temp)
 
         return output
 
-- 
2.43.0


From aa7c27528dec78673c88b504cd149f34286c068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:29 +0000
Subject: [PATCH 12/90] fix: ignore a numbered BYDAY that a year does not have

---
 src/pycalendar/icalendar/recurrence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 1a2c386..5bb3ef6 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1435,7 +1435,8 @@ class Recurrence(ValueMixin):
                 if iter2[0] != 0:
                     temp = iter1.duplicate()
                     temp.setDayOfWeekInYear(iter2[0], iter2[1])
-                    output.append(temp)
+                    if temp.getYear() == iter1.getYear():
+                        output.append(temp)
                 else:
                     # Every matching day in the year
                     for i in range(1, 54):
-- 
2.43.0


From a2a415a600946fa8d2784067fbc07d4737c091e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 13/90] fix: count an instance given by several BYxxx values
 once

---
 src/pycalendar/icalendar/recurrence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 5bb3ef6..330bd23 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -961,7 +961,8 @@ class Recurrence(ValueMixin):
 
             # Always sort the set as BYxxx rules may not be sorted
             # set_items.sort(cmp=DateTime.sort)
-            set_items.sort(key=lambda x: x.getPosixTime())
+            # Different BYxxx values can give the same item - only count that once
+            set_items = sorted(set(set_items), key=lambda x: x.getPosixTime())
 
             # Process each one in the generated set
             for iter in set_items:
@@ -1655,7 +1656,8 @@ class Recurrence(ValueMixin):
     def bySetPosLimit(self, dates):
         # The input dates MUST be sorted in order for this to work properly
         # dates.sort(cmp=DateTime.sort)
-        dates.sort(key=lambda x: x.getPosixTime())
+        # Different BYxxx values can give the same item - only count that once
+        dates = sorted(set(dates), key=lambda x: x.getPosixTime())
 
         # Loop over each BYSETPOS and extract the relevant component from the
         # input array and add to the output
-- 
2.43.0


From bf5110d4753556343339cd7cfa376b6c92c6495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 14/90] fix: apply BYMONTH to each day of a week in a WEEKLY
 rule

---
 src/pycalendar/icalendar/recurrence.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 330bd23..69354b6 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1149,12 +1149,6 @@ class Recurrence(ValueMixin):
         # Start with initial date-time
         items.append(start.duplicate())
 
-        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
-            # BYMONTH limits the range of possible values
-            items[:] = self.byMonthLimit(items)
-            if (len(items) == 0):
-                return
-
         if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):
             items[:] = self.byWeekNoLimit(items)
             if (len(items) == 0):
@@ -1167,6 +1161,12 @@ class Recurrence(ValueMixin):
         if (self.mByDay is not None) and (len(self.mByDay) != 0):
             items[:] = self.byDayExpandWeekly(items)
 
+        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
+            # BYMONTH limits the range of possible values (after BYDAY as a week can be in two months)
+            items[:] = self.byMonthLimit(items)
+            if (len(items) == 0):
+                return
+
         if (self.mByHours is not None) and (len(self.mByHours) != 0):
             items[:] = self.byHourExpand(items)
 
-- 
2.43.0


From ffcc875f4043187567721cb27911d53ae7dc5ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 15/90] fix: treat UNTIL as floating when a simple rule has a
 floating start

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 69354b6..3c74bd8 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -886,7 +886,7 @@ class Recurrence(ValueMixin):
         if self.mUseUntil:
             float_until = self.mUntil.duplicate()
             if start.floating():
-                float_until.setTimezoneID(0)
+                float_until.setTimezoneID(None)
                 float_until.offsetSeconds(float_offset)
 
         while True:
-- 
2.43.0


From 08dfe737cbcf8c0c3c70094ab67b660d04cd0611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 16/90] fix: expand BYWEEKNO from the weeks each year has

---
 src/pycalendar/icalendar/recurrence.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 3c74bd8..0f53566 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1002,8 +1002,8 @@ class Recurrence(ValueMixin):
                     if ctr >= self.mCount:
                         return True
 
-            # Exit if after period we want
-            if range.isDateAfterPeriod(start_iter):
+            # Exit if after period we want (with BYWEEKNO the first week of the next year can start in this one)
+            if range.isDateAfterPeriod(start_iter) and (not self.mByWeekNo or start_iter.getYear() > range.getEnd().getYear()):
                 return False
 
             # Get next item
@@ -1387,11 +1387,27 @@ class Recurrence(ValueMixin):
         # Loop over all input items
         output = []
         for iter1 in dates:
+            # 28th December is always in the last week of a year
+            last = iter1.duplicate()
+            last.setMonth(12)
+            last.setDay(28)
+            last_week = last.getWeekNo()
+
             # Loop over each BYWEEKNO and generating a new date-time for it and
             # insert into output
             for iter2 in self.mByWeekNo:
+                # Negative values are offset from the end, and skip weeks the year does not have
+                weekno = iter2 if iter2 > 0 else last_week + 1 + iter2
+                if weekno < 1 or weekno > last_week:
+                    continue
+
+                # The day of the week comes from BYDAY if there is one, so start with a date that
+                # is always in the right year (one at either end may be in a week of another year)
                 temp = iter1.duplicate()
-                temp.setWeekNo(iter2)
+                if self.mByDay:
+                    temp.setMonth(1)
+                    temp.setDay(4)
+                temp.setWeekNo(weekno)
                 output.append(temp)
 
         return output
-- 
2.43.0


From 384d487f593241c491c15823bf0b5af742ef92e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 17/90] fix: expand BYMONTHDAY in every month of a YEARLY rule
 without BYMONTH

---
 src/pycalendar/icalendar/recurrence.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 0f53566..1c4b42b 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1053,7 +1053,10 @@ class Recurrence(ValueMixin):
         items.append(start.duplicate())
 
         if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
-            items[:] = self.byMonthExpand(items)
+            items[:] = self.byMonthExpand(items, self.mByMonth)
+        elif self.mByMonthDay and not self.mByWeekNo and not self.mByYearDay:
+            # BYMONTHDAY on its own applies to every month
+            items[:] = self.byMonthExpand(items, range(1, 13))
 
         if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):
             items[:] = self.byWeekNoExpand(items)
@@ -1370,13 +1373,13 @@ class Recurrence(ValueMixin):
         if (self.mBySetPos is not None) and (len(self.mBySetPos) != 0):
             items[:] = self.bySetPosLimit(items)
 
-    def byMonthExpand(self, dates):
+    def byMonthExpand(self, dates, months):
         # Loop over all input items
         output = []
         for iter1 in dates:
             # Loop over each BYMONTH and generating a new date-time for it and
             # insert into output
-            for iter2 in self.mByMonth:
+            for iter2 in months:
                 temp = iter1.duplicate()
                 temp.setMonth(iter2)
                 output.append(temp)
-- 
2.43.0


From 962782e5764dcbfcd75337dfe3a5bb634ea7afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 18/90] fix: make recurrence expansion independent of earlier
 expansions

---
 src/pycalendar/icalendar/recurrence.py | 27 ++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 1c4b42b..5616c5e 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -136,6 +136,7 @@ class Recurrence(ValueMixin):
             other.mCacheStart = self.mCacheStart.duplicate()
         if self.mCacheUpto:
             other.mCacheUpto = self.mCacheUpto.duplicate()
+        other.mCacheFloatOffset = self.mCacheFloatOffset
         other.mFullyCached = self.mFullyCached
         if self.mRecurrences:
             other.mRecurrences = self.mRecurrences[:]
@@ -166,6 +167,7 @@ class Recurrence(ValueMixin):
         self.mCached = False
         self.mCacheStart = None
         self.mCacheUpto = None
+        self.mCacheFloatOffset = 0
         self.mFullyCached = False
         self.mRecurrences = None
 
@@ -845,8 +847,13 @@ class Recurrence(ValueMixin):
         if self.mRecurrences is None:
             self.mRecurrences = []
 
-        # Wipe cache if start is different
-        if self.mCached and (start != self.mCacheStart):
+        # Wipe cache if start or floating offset is different
+        # (starts can be equal without being the same local time)
+        if self.mCached and (
+            start.getText() != self.mCacheStart.getText() or
+            start.getTimezoneID() != self.mCacheStart.getTimezoneID() or
+            float_offset != self.mCacheFloatOffset
+        ):
             self.mCached = False
             self.mFullyCached = False
 
@@ -856,7 +863,9 @@ class Recurrence(ValueMixin):
                 and (self.mCacheUpto is None or self.mCacheUpto < range.getEnd()):
 
             # Always wipe the existing cached items as we always start from the very first instance
-            # so we can properly track the count limit
+            # so we can properly track the count limit. If the expansion fails there is nothing cached.
+            self.mCached = False
+            self.mFullyCached = False
             self.mRecurrences = []
 
             # Simple expansion is one where there is no BYXXX rule part
@@ -867,14 +876,20 @@ class Recurrence(ValueMixin):
 
             # Set cache values
             self.mCached = True
-            self.mCacheStart = start
-            self.mCacheUpto = range.getEnd()
+            self.mCacheStart = start.duplicate()
+            self.mCacheUpto = range.getEnd().duplicate()
+            self.mCacheFloatOffset = float_offset
+
+        elif maxInstances:
+            # Apply the limit the expansion would have applied
+            if len([iter for iter in self.mRecurrences if not range.isDateAfterPeriod(iter)]) > maxInstances:
+                raise TooManyInstancesError("Too many instances")
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
         for iter in self.mRecurrences:
             if range.isDateWithinPeriod(iter):
-                items.append(iter)
+                items.append(iter.duplicate())
             else:
                 limited = True
         return limited
-- 
2.43.0


From c8d559042cbe8dadf8d8acb72fdb347e143f0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 19/90] fix: expand timezone transitions to the end of the
 requested year

---
 src/pycalendar/icalendar/vtimezoneelement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index bf32810..b56fdde 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -124,7 +124,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(below.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(below.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -184,7 +184,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(end.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(end.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -193,7 +193,7 @@ class VTimezoneElement(Component):
                 self.mCachedExpandBelow = self.mStart.duplicate()
             if temp > self.mCachedExpandBelow:
                 self.mCachedExpandBelowItems = []
-                period = Period(self.mStart, end)
+                period = Period(self.mStart, temp)
                 self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
                 self.mCachedExpandBelow = temp
 
-- 
2.43.0


From 413b6d935163a8500ca1ab890ee8cea8a4e11c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 20/90] fix: include seconds in the timezone offset cache key

---
 src/pycalendar/icalendar/vtimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ab7aceb..7274e46 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -163,7 +163,7 @@ class VTimezone(Component):
 
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
-            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, relative_to_utc)
+            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
             i = self.mCachedOffsets.get(cacheKey)
             if i is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
-- 
2.43.0


From 2fecca862cf0cb5ea6398041b2c4c2e830f24cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 21/90] fix: refuse BYSETPOS values out of range

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 5616c5e..f00d294 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -449,7 +449,7 @@ class Recurrence(ValueMixin):
                 if self.mBySetPos is not None:
                     raise ValueError("Recurrence: Only one BYSETPOS allowed")
                 self.mBySetPos = []
-                self.parseList(tvalue, self.mBySetPos, allowNegative=True, errmsg="Recurrence: Invalid BYSETPOS value")
+                self.parseList(tvalue, self.mBySetPos, 1, 366, True, errmsg="Recurrence: Invalid BYSETPOS value")
 
             elif index == definitions.eRecurrence_WKST:
                 index = Recurrence.cWeekdayMap.get(tvalue, Recurrence.cUnknownIndex)
-- 
2.43.0


From 540bb3fad8a1b698b05a55b3136d13880e3108ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 22/90] fix: hash equal recurrence rules alike whatever the
 order of their values

---
 src/pycalendar/icalendar/recurrence.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index f00d294..48fe861 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -179,15 +179,15 @@ class Recurrence(ValueMixin):
             self.mUseUntil,
             self.mUntil,
             self.mInterval,
-            tuple(self.mBySeconds) if self.mBySeconds else None,
-            tuple(self.mByMinutes) if self.mByMinutes else None,
-            tuple(self.mByHours) if self.mByHours else None,
-            tuple(self.mByDay) if self.mByDay else None,
-            tuple(self.mByMonthDay) if self.mByMonthDay else None,
-            tuple(self.mByYearDay) if self.mByYearDay else None,
-            tuple(self.mByWeekNo) if self.mByWeekNo else None,
-            tuple(self.mByMonth) if self.mByMonth else None,
-            tuple(self.mBySetPos) if self.mBySetPos else None,
+            tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
+            tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
+            tuple(sorted(self.mByHours)) if self.mByHours else None,
+            tuple(sorted(self.mByDay)) if self.mByDay else None,
+            tuple(sorted(self.mByMonthDay)) if self.mByMonthDay else None,
+            tuple(sorted(self.mByYearDay)) if self.mByYearDay else None,
+            tuple(sorted(self.mByWeekNo)) if self.mByWeekNo else None,
+            tuple(sorted(self.mByMonth)) if self.mByMonth else None,
+            tuple(sorted(self.mBySetPos)) if self.mBySetPos else None,
             self.mWeekstart,
         ))
 
-- 
2.43.0


From f311e9cb38f8abc651939afbbc47256e0568fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 23/90] fix: do not ignore a new UNTIL that is equal to the old
 one but of another kind

---
 src/pycalendar/icalendar/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 48fe861..6927e09 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -282,7 +282,9 @@ class Recurrence(ValueMixin):
         return self.mUntil
 
     def setUntil(self, until):
-        self._setAndclearIfChanged("mUntil", until)
+        # Always set this as values that compare equal can still be different (e.g. a date and a date-time)
+        self.clear()
+        self.mUntil = until
 
     def getUseCount(self):
         return self.mUseCount
-- 
2.43.0


From 71f39ad34dd909e4278480f9ffbdffb7c27a9ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 24/90] fix: Folding a property whose text is not valid UTF-8
 never terminated

---
 src/pycalendar/property.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 0c5c32f..275b60c 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -379,9 +379,12 @@ class PropertyBase(object):
                     written = len(temp)
                 else:
                     # Check whether next char is valid utf8 lead byte
-                    while (temp[offset] > 0x7F) and ((ord(temp[offset]) & 0xC0) == 0x80):
+                    while offset > start and ((ord(temp[offset]) & 0xC0) == 0x80):
                         # Step back until we have a valid char
                         offset -= 1
+                    if offset == start:
+                        # Not valid utf8 - just wrap at the limit
+                        offset = start + lineWrap
 
                     line = temp[start:offset]
                     os.write(line)
-- 
2.43.0


From 016297976d1d099e39af1446c0df1a5381306a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 25/90] fix: VALUE parameters were matched case-sensitively,
 and dropped when their type is not supported

---
 src/pycalendar/property.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 275b60c..67c3046 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -514,7 +514,7 @@ class PropertyBase(object):
         # Check whether custom value is set
         if self.sValue in self.mParameters:
             attr = self.getParameterValue(self.sValue)
-            value_type = self.sValueTypeMap.get(attr, value_type)
+            value_type = self.sValueTypeMap.get((attr or "").upper(), Value.VALUETYPE_UNKNOWN)
 
         # Check for specials
         if self.mName.upper() in self.sSpecialVariants:
@@ -579,6 +579,10 @@ class PropertyBase(object):
         self._postCreateValue(value_type)
 
     def setupValueParameter(self):
+        # Preserve the VALUE of any data whose type we do not support
+        if self.mValue is not None and self.mValue.getType() == Value.VALUETYPE_UNKNOWN:
+            return
+
         if self.sValue in self.mParameters:
             del self.mParameters[self.sValue]
 
-- 
2.43.0


From 74039d7d76aa6d9c15621d8ff35cc0b56809cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 26/90] fix: GEO and other structured properties lost an
 explicit VALUE type

---
 src/pycalendar/property.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 67c3046..4747fab 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -594,10 +594,9 @@ class PropertyBase(object):
         # then always add VALUE if it is not TEXT. Always add the value if listed in the
         # C{sAlwaysValueTypes} attribute.
         default_type = self.sDefaultValueTypeMap.get(self.mName.upper())
-        if self.mName.upper() in self.sSpecialVariants:
+        actual_type = self.mValue.getType()
+        if actual_type == self.sSpecialVariants.get(self.mName.upper()):
             actual_type = default_type
-        else:
-            actual_type = self.mValue.getType()
         if default_type is None or default_type != actual_type or self.mName.upper() in self.sAlwaysValueTypes:
             actual_value = self.sTypeValueMap.get(actual_type)
             if actual_value is not None and (default_type is not None or actual_type != Value.VALUETYPE_TEXT):
-- 
2.43.0


From 0c3c9ff536e31a2fa4dfc3ef550bfbcd8ae58ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 27/90] fix: vCard properties in different groups compared
 equal

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 0db7edc..6ab4abb 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -197,7 +197,7 @@ class Property(PropertyBase):
         if not isinstance(other, Property):
             return False
         return (
-            self.mGroup == self.mGroup and
+            self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
             self.mParameters == other.mParameters
-- 
2.43.0


From ae4600a7360abf67dba6b592be8db7183cb0ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 28/90] fix: vCard UTC offsets were written in a form that
 could not be read back, and malformed offsets were accepted

---
 src/pycalendar/utcoffsetvalue.py    | 21 +++++++++++++++++----
 src/pycalendar/vcard/definitions.py |  2 +-
 src/pycalendar/vcard/property.py    |  9 +++++++++
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 76b58b6..1161b2b 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -23,11 +23,12 @@ from pycalendar.value import Value
 
 class UTCOffsetValue(Value):
 
-    def __init__(self, value=0):
+    def __init__(self, value=0, fullISO=False):
         self.mValue = value
+        self.mFullISO = fullISO     # vCard uses the ISO extended format in text
 
     def duplicate(self):
-        return UTCOffsetValue(self.mValue)
+        return UTCOffsetValue(self.mValue, self.mFullISO)
 
     def getType(self):
         return Value.VALUETYPE_UTC_OFFSET
@@ -47,6 +48,15 @@ class UTCOffsetValue(Value):
             raise ValueError("UTCOffset: does not start with '+' or '-'")
         plus = (data[0] == '+')
 
+        # Only digits, with ':' separators in the ISO extended format
+        digits = data[1:]
+        if fullISO:
+            if digits[2::3].strip(":"):
+                raise ValueError("UTCOffset: invalid separator")
+            digits = digits[0::3] + digits[1::3]
+        if not digits.isdigit():
+            raise ValueError("UTCOffset: invalid digits")
+
         # Get hours
         hours = int(data[1:3])
 
@@ -66,6 +76,7 @@ class UTCOffsetValue(Value):
 
     # os - StringIO object
     def generate(self, os, fullISO=False):
+        fullISO = fullISO or self.mFullISO
         try:
             abs_value = self.mValue
             if abs_value < 0:
@@ -89,9 +100,8 @@ class UTCOffsetValue(Value):
     def writeXML(self, node, namespace):
 
         os = StringIO()
-        self.generate(os)
+        self.generate(os, fullISO=True)
         text = os.getvalue()
-        text = text[:-2] + ":" + text[-2:]
 
         value = self.getXMLNode(node, namespace)
         value.text = text
@@ -106,6 +116,9 @@ class UTCOffsetValue(Value):
         text = os.getvalue()
         jobject.append(text)
 
+    def setFullISO(self, fullISO):
+        self.mFullISO = fullISO
+
     def getValue(self):
         return self.mValue
 
diff --git a/src/pycalendar/vcard/definitions.py b/src/pycalendar/vcard/definitions.py
index 17b86aa..ddc6c14 100644
--- a/src/pycalendar/vcard/definitions.py
+++ b/src/pycalendar/vcard/definitions.py
@@ -77,7 +77,7 @@ Value_INTEGER = "INTEGER"
 Value_TEXT = "TEXT"
 Value_TIME = "TIME"
 Value_URI = "URI"
-Value_UTCOFFSET = "UTCOFFSET"
+Value_UTCOFFSET = "UTC-OFFSET"
 Value_VCARD = "VCARD"
 
 Parameter_ENCODING = "ENCODING"
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 6ab4abb..a33e16d 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -309,7 +309,16 @@ class Property(PropertyBase):
         else:
             super(Property, self).generateValue(os, novalue)
 
+    def _postCreateValue(self, value_type):
+        # vCard uses the ISO extended format for UTC offsets
+        if isinstance(self.mValue, UTCOffsetValue):
+            self.mValue.setFullISO(True)
+
     # Creation
+    def _init_attr_value_utcoffset(self, utcoffset):
+        super(Property, self)._init_attr_value_utcoffset(utcoffset)
+        self.mValue.setFullISO(True)
+
     def _init_attr_value_adr(self, reqstatus):
         # Value
         self.mValue = AdrValue(reqstatus)
-- 
2.43.0


From e5139c087d0c325281f272c9319dfd1f54e49356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:54 +0000
Subject: [PATCH 29/90] fix: Out of range UTC offsets were accepted and written
 in a form that could not be read back

---
 src/pycalendar/utcoffsetvalue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 1161b2b..35a7a10 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -70,6 +70,9 @@ class UTCOffsetValue(Value):
             index = 7 if fullISO else 5
             secs = int(data[index:])
 
+        if hours > 23 or mins > 59 or secs > 59:
+            raise ValueError("UTCOffset: value out of range")
+
         self.mValue = ((hours * 60) + mins) * 60 + secs
         if not plus:
             self.mValue = -self.mValue
-- 
2.43.0


From f607f0cd7d9d086fed6f63e3ac8e2d93c1f22a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 30/90] fix: Property lines with delimiters in a quoted name
 were accepted and written out corrupted

---
 src/pycalendar/property.py       | 10 ++++++++++
 src/pycalendar/vcard/property.py |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 4747fab..9db39ba 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -233,6 +233,7 @@ class PropertyBase(object):
             prop_name, txt = stringutils.strduptokenstr(data, ";:")
             if not prop_name:
                 raise InvalidProperty("Invalid property: empty name", data)
+            cls._checkName(prop_name, "\":;", data)
 
             # Get the name
             if prop.sUsesGroup:
@@ -274,6 +275,14 @@ class PropertyBase(object):
         except Exception as e:
             raise InvalidProperty("Invalid property: '{}'".format(e), data)
 
+    @staticmethod
+    def _checkName(name, delimiters, data):
+        """
+        Names are written without any quoting so must never contain delimiters.
+        """
+        if any(c in delimiters for c in name):
+            raise InvalidProperty("Invalid property: invalid name", data)
+
     def parseTextParameters(self, txt, data):
         """
         Parse parameters, return string point at value.
@@ -291,6 +300,7 @@ class PropertyBase(object):
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=")
                     if parameter_name is None:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
+                    self._checkName(parameter_name, "\":;=", data)
                     txt = txt[1:]
                     parameter_value, txt = stringutils.strduptokenstr(txt, ":;,")
                     if parameter_value is None:
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index a33e16d..4148b82 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -223,6 +223,7 @@ class Property(PropertyBase):
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=:;")
                     if parameter_name is None:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
+                    self._checkName(parameter_name, "\":;=", data)
 
                     if txt[0] != "=":
                         # Deal with parameters without values
-- 
2.43.0


From 1b3b8ad03095ebf9eb0cfc693c49749015dbca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 31/90] fix: vCard properties with an empty group or an empty
 name after the group were accepted and written out changed

---
 src/pycalendar/property.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 9db39ba..01696a1 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -243,6 +243,8 @@ class PropertyBase(object):
                     # We have both group and name
                     prop.mGroup = splits[0]
                     prop.mName = splits[1]
+                    if not prop.mGroup or not prop.mName:
+                        raise InvalidProperty("Invalid property: empty group or name", data)
                 else:
                     # We have the name
                     prop.mName = prop_name
-- 
2.43.0


From 618e86f495b3d2f3d7fcd79b2bc025f616ef87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 32/90] fix: refuse unbalanced and truncated components instead
 of losing or misfiling them

---
 src/pycalendar/containerbase.py      |  8 ++++++++
 src/pycalendar/icalendar/calendar.py | 12 ++++++++++++
 src/pycalendar/vcard/card.py         |  4 ++++
 3 files changed, 24 insertions(+)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9858774..15bde69 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -163,6 +163,10 @@ class ContainerBase(ComponentBase):
                 # Look for end of object
                 elif line == self.getEndDelimiter():
 
+                    # Every component must have been closed first
+                    if componentstack:
+                        raise InvalidData("%s data has unterminated component" % (self.sContainerDescriptor,), line)
+
                     # Finalise the current calendar
                     self.finalise()
 
@@ -191,6 +195,10 @@ class ContainerBase(ComponentBase):
                     # Parse parameter/value for top-level calendar item
                     prop = self.sPropertyType.parseText(line)
 
+                    # A delimiter that does not match is not a property
+                    if prop.getName().upper() in ("BEGIN", "END"):
+                        raise InvalidData("%s data has unexpected delimiter" % (self.sContainerDescriptor,), line)
+
                     # Check for valid property
                     if comp is self:
                         if not comp.validProperty(prop):
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 50a9615..753a1a6 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -260,6 +260,10 @@ class Calendar(ContainerBase):
 
                 elif line == self.getEndDelimiter():
 
+                    # Every component must have been closed first
+                    if componentstack:
+                        raise InvalidData("iCalendar data has unterminated component", line)
+
                     # Change state
                     state = GOT_VCALENDAR
 
@@ -289,6 +293,10 @@ class Calendar(ContainerBase):
                     # Parse parameter/value for top-level calendar item
                     prop = self.sPropertyType.parseText(line)
 
+                    # A delimiter that does not match is not a property
+                    if prop.getName().upper() in ("BEGIN", "END"):
+                        raise InvalidData("iCalendar data has unexpected delimiter", line)
+
                     # Check for valid property
                     if comp is not self:
                         comp.addProperty(prop)
@@ -297,6 +305,10 @@ class Calendar(ContainerBase):
             if state == GOT_VCALENDAR:
                 break
 
+        # Check for truncated data
+        if state == GET_PROPERTY_OR_COMPONENT:
+            raise InvalidData("iCalendar data not complete")
+
         # We need to store all timezones in the static object so they can be accessed by any date object
         # Only do this if we read in a timezone
         if got_timezone:
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 8a3f1d8..15ec835 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -143,6 +143,10 @@ class Card(ContainerBase):
                     # Parse parameter/value for top-level calendar item
                     prop = Property.parseText(line)
 
+                    # A delimiter that does not match is not a property
+                    if prop.getName().upper() in ("BEGIN", "END"):
+                        raise InvalidData("vCard data has unexpected delimiter", line)
+
                     # Check for valid property
                     if not card.validProperty(prop):
                         raise InvalidData("Invalid property", str(prop))
-- 
2.43.0


From 38deb96c8400e3c57e022c05efd4d4c5d71a913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 33/90] fix: keep every value of multi-valued and repeated
 parameters in JSON

---
 src/pycalendar/parameter.py | 8 +++++++-
 src/pycalendar/property.py  | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 7df1d72..70c3449 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -115,4 +115,10 @@ class Parameter(object):
             text.text = value
 
     def writeJSON(self, jobject):
-        jobject[self.getName().lower()] = self.mValues if len(self.mValues) != 1 else self.mValues[0]
+        # A parameter can be repeated, in which case all the values are needed
+        name = self.getName().lower()
+        values = list(self.mValues)
+        if name in jobject:
+            previous = jobject[name]
+            values = (previous if isinstance(previous, list) else [previous]) + values
+        jobject[name] = values if len(values) != 1 else values[0]
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 01696a1..61280ed 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -458,7 +458,11 @@ class PropertyBase(object):
                 for name, value in jobject[1].items():
                     # Now add parameter value
                     name = name.upper()
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=value.encode("utf-8"))
+                    if isinstance(value, list):
+                        value = [item.encode("utf-8") for item in value]
+                    else:
+                        value = value.encode("utf-8")
+                    attrvalue = Parameter(name=name.encode("utf-8"), value=value)
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-- 
2.43.0


From 68e3698a659a16733b3d2f5b3b683e323d269879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 34/90] fix: write and read the structured vCard values as JSON

---
 src/pycalendar/vcard/adr.py      |  5 ++++-
 src/pycalendar/vcard/adrvalue.py |  3 ++-
 src/pycalendar/vcard/n.py        |  5 ++++-
 src/pycalendar/vcard/nvalue.py   |  3 ++-
 src/pycalendar/vcard/orgvalue.py | 11 +++++++----
 5 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 2547cc5..03cd684 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -108,7 +108,10 @@ class Adr(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = tuple([
+            item.encode("utf-8") if isinstance(item, basestring) else tuple([i.encode("utf-8") for i in item])
+            for item in jobject
+        ])
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/adrvalue.py b/src/pycalendar/vcard/adrvalue.py
index 8a1f01a..22a7d8a 100644
--- a/src/pycalendar/vcard/adrvalue.py
+++ b/src/pycalendar/vcard/adrvalue.py
@@ -16,6 +16,7 @@
 
 # vCard ADR value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.adr import Adr
@@ -26,4 +27,4 @@ class AdrValue(WrapperValue, Value):
     _wrappedClass = Adr
     _wrappedType = Value.VALUETYPE_ADR
 
-Value.registerType(Value.VALUETYPE_ADR, AdrValue, None)
+Value.registerType(Value.VALUETYPE_ADR, AdrValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 89e3838..38bf6a0 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -107,7 +107,10 @@ class N(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = tuple([
+            item.encode("utf-8") if isinstance(item, basestring) else tuple([i.encode("utf-8") for i in item])
+            for item in jobject
+        ])
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/nvalue.py b/src/pycalendar/vcard/nvalue.py
index e5e9c00..a2b97b3 100644
--- a/src/pycalendar/vcard/nvalue.py
+++ b/src/pycalendar/vcard/nvalue.py
@@ -16,6 +16,7 @@
 
 # vCard N value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.n import N
@@ -26,4 +27,4 @@ class NValue(WrapperValue, Value):
     _wrappedClass = N
     _wrappedType = Value.VALUETYPE_N
 
-Value.registerType(Value.VALUETYPE_N, NValue, None)
+Value.registerType(Value.VALUETYPE_N, NValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index d72fd5e..4295e0a 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -16,7 +16,7 @@
 
 # vCard ORG value
 
-from pycalendar import utils
+from pycalendar import utils, xmldefinitions
 from pycalendar.value import Value
 
 
@@ -41,10 +41,13 @@ class OrgValue(Value):
         utils.generateTextList(os, self.mValue, ';')
 
     def parseJSONValue(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        if isinstance(jobject, basestring):
+            self.mValue = jobject.encode("utf-8")
+        else:
+            self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
 
     def writeJSONValue(self, jobject):
-        jobject.append(list(self.mValue))
+        jobject.append(self.mValue if isinstance(self.mValue, basestring) else list(self.mValue))
 
     def getValue(self):
         return self.mValue
@@ -52,4 +55,4 @@ class OrgValue(Value):
     def setValue(self, value):
         self.mValue = value
 
-Value.registerType(Value.VALUETYPE_ORG, OrgValue, None)
+Value.registerType(Value.VALUETYPE_ORG, OrgValue, None, xmldefinitions.value_text)
-- 
2.43.0


From e1ec878b4f4b06e356a3cfab246e5b1d73c37d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:11 +0000
Subject: [PATCH 35/90] fix: keep the group of vCard properties in JSON

---
 src/pycalendar/vcard/property.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 4148b82..21d614a 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -203,6 +203,23 @@ class Property(PropertyBase):
             self.mParameters == other.mParameters
         )
 
+    @classmethod
+    def parseJSON(cls, jobject):
+        prop = super(Property, cls).parseJSON(jobject)
+
+        # RFC 7095: the group is held in a parameter
+        group = prop.mParameters.pop("GROUP", None)
+        if group is not None and group[0].getValues():
+            prop.mGroup = group[0].getFirstValue()
+        return prop
+
+    def generateValueJSON(self, jobject, novalue):
+        super(Property, self).generateValueJSON(jobject, novalue)
+
+        # RFC 7095: the group is held in a parameter
+        if self.mGroup:
+            jobject[-1][1]["group"] = self.mGroup
+
     def parseTextParameters(self, txt, data):
         """
         Parse parameters, return string point at value.
-- 
2.43.0


From 9cef28d2975835be196fd81d7149aa73c956bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 36/90] fix: keep the type of values that are not supported in
 JSON

---
 src/pycalendar/property.py | 16 +++++++++++++---
 src/pycalendar/value.py    |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 61280ed..4ee66c9 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -466,10 +466,11 @@ class PropertyBase(object):
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-            value_type = cls.sValueTypeMap.get(jobject[2].upper(), Value.VALUETYPE_UNKNOWN)
+            value_name = jobject[2].encode("utf-8").upper()
+            value_type = cls.sValueTypeMap.get(value_name, Value.VALUETYPE_UNKNOWN)
             default_type = cls.sDefaultValueTypeMap.get(prop.mName.upper(), Value.VALUETYPE_UNKNOWN)
-            if default_type != value_type:
-                attrvalue = Parameter(name=cls.sValue, value=jobject[2].encode("utf-8").upper())
+            if default_type != value_type or value_name not in cls.sValueTypeMap and value_name != xmldefinitions.value_unknown.upper():
+                attrvalue = Parameter(name=cls.sValue, value=value_name)
                 prop.mParameters.setdefault(cls.sValue, []).append(attrvalue)
 
             # Get value type from property name
@@ -523,6 +524,15 @@ class PropertyBase(object):
         if self.mValue and not novalue:
             self.mValue.writeJSON(prop)
 
+            # Preserve the name of a type that we do not support
+            if prop[2] == xmldefinitions.value_unknown:
+                if self.sValue in self.mParameters:
+                    value_name = self.getParameterValue(self.sValue)
+                else:
+                    value_name = self.sTypeValueMap.get(self.sDefaultValueTypeMap.get(self.mName.upper()))
+                if value_name:
+                    prop[2] = value_name.lower()
+
     def determineValueType(self):
         # Get value type from property name
         value_type = self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_UNKNOWN)
diff --git a/src/pycalendar/value.py b/src/pycalendar/value.py
index d801eed..387b3eb 100644
--- a/src/pycalendar/value.py
+++ b/src/pycalendar/value.py
@@ -101,7 +101,7 @@ class Value(ValueMixin):
         raise NotImplementedError
 
     def writeJSON(self, jobject):
-        jobject.append(self._jsonMap[self.getType()])
+        jobject.append(self._jsonMap.get(self.getType(), self._jsonMap[Value.VALUETYPE_UNKNOWN]))
         self.writeJSONValue(jobject)
 
     def writeJSONValue(self, jobject):
-- 
2.43.0


From 9b12b1bd94d378082ed9e2ff0fa57b45a95d6cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 37/90] fix: check the type and version of JSON calendars and
 vCards as for text

---
 src/pycalendar/containerbase.py | 19 ++++++++++++++++++-
 src/pycalendar/vcard/card.py    |  7 +++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 15bde69..87be9fd 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -226,7 +226,24 @@ class ContainerBase(ComponentBase):
             jobject = json.loads(data)
         except ValueError as e:
             raise InvalidData("JSON parse: {}".format(e), data)
-        return cls.parseJSON(jobject, None, cls(add_defaults=False))
+        return cls.parseJSONContainer(jobject)
+
+    @classmethod
+    def parseJSONContainer(cls, jobject):
+        """
+        Parse the JSON array of the top-level component, with the same checks as for text data.
+        """
+        result = cls(add_defaults=False)
+        if not isinstance(jobject, list) or len(jobject) == 0 or jobject[0] != result.getType().lower():
+            raise InvalidData("%s data not recognized" % (cls.sContainerDescriptor,), jobject)
+        result = cls.parseJSON(jobject, None, result)
+        for props in result.getProperties().values():
+            for prop in props:
+                if not result.validProperty(prop):
+                    raise InvalidData("Invalid property", str(prop))
+        if not result.hasProperty("VERSION"):
+            raise InvalidData("%s missing VERSION" % (cls.sContainerDescriptor,))
+        return result
 
     def getText(self, format=None):
 
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 15ec835..29a2f6f 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -168,10 +168,9 @@ class Card(ContainerBase):
             jobjects = json.loads(data)
         except ValueError as e:
             raise InvalidData("JSON error: '{}'".format(e), data)
-        results = []
-        for jobject in jobjects:
-            results.append(cls.parseJSON(jobject, None, cls(add_defaults=False)))
-        return results
+        if not isinstance(jobjects, list):
+            raise InvalidData("vCard data not recognized", data)
+        return [cls.parseJSONContainer(jobject) for jobject in jobjects]
 
     def addDefaultProperties(self):
         self.addProperty(Property(definitions.Property_PRODID, Card.sProdID))
-- 
2.43.0


From 1a65e9cbb1a9b0ced83b04a476a0537bd6528b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:37 +0000
Subject: [PATCH 38/90] fix: use the time zones of calendars read from JSON

---
 src/pycalendar/icalendar/calendar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 753a1a6..e28da14 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -200,6 +200,17 @@ class Calendar(ContainerBase):
 
         return result
 
+    @classmethod
+    def parseJSONContainer(cls, jobject):
+
+        result = super(Calendar, cls).parseJSONContainer(jobject)
+
+        # We need to store all timezones in the static object so they can be accessed by any date object
+        from pycalendar.timezonedb import TimezoneDatabase
+        TimezoneDatabase.mergeTimezones(result, result.getComponents(definitions.cICalComponent_VTIMEZONE))
+
+        return result
+
     def parseComponent(self, ins):
 
         result = None
-- 
2.43.0


From fdeec2b4a115be382ff42632052d61728152e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 39/90] fix: sort expanded components with proper comparison
 results

---
 src/pycalendar/icalendar/componentexpanded.py | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 63bf1cb..94cbda8 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -19,24 +19,29 @@ from pycalendar.datetime import DateTime
 
 class ComponentExpanded(object):
 
+    @staticmethod
+    def _compare(v1, v2):
+        return -1 if v1 < v2 else (1 if v2 < v1 else 0)
+
     @staticmethod
     def sort_by_dtstart_allday(e1, e2):
 
+        compare = ComponentExpanded._compare
         if e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly():
-            return e1.mInstanceStart < e2.mInstanceStart
+            return compare(e1.mInstanceStart, e2.mInstanceStart)
         elif e1.mInstanceStart.isDateOnly():
-            return True
+            return -1
         elif e2.mInstanceStart.isDateOnly():
-            return False
+            return 1
         elif e1.mInstanceStart == e2.mInstanceStart:
             if e1.mInstanceEnd == e2.mInstanceEnd:
                 # Put ones created earlier in earlier columns in day view
-                return e1.getOwner().getStamp() < e2.getOwner().getStamp()
+                return compare(e1.getOwner().getStamp(), e2.getOwner().getStamp())
             else:
                 # Put ones that end later in earlier columns in day view
-                return e1.mInstanceEnd > e2.mInstanceEnd
+                return compare(e2.mInstanceEnd, e1.mInstanceEnd)
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return compare(e1.mInstanceStart, e2.mInstanceStart)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
@@ -45,11 +50,11 @@ class ComponentExpanded(object):
                 e1.mInstanceStart.isDateOnly() and not e2.mInstanceStart.isDateOnly() or
                 not e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly()
             ):
-                return e1.mInstanceStart.isDateOnly()
+                return -1 if e1.mInstanceStart.isDateOnly() else 1
             else:
-                return False
+                return 0
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return ComponentExpanded._compare(e1.mInstanceStart, e2.mInstanceStart)
 
     def __init__(self, owner, rid):
 
-- 
2.43.0


From e5d350fb849bd6440841733f5572bc09b8db806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 40/90] fix: recurrence instances of components with a duration
 have that duration

---
 src/pycalendar/icalendar/componentexpanded.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 94cbda8..e50136d 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -125,10 +125,8 @@ class ComponentExpanded(object):
             self.mInstanceStart = rid
 
             # End is based on original events settings
-            if self.mOwner.hasEnd():
-                self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
-            else:
-                self.mInstanceEnd = self.mInstanceStart.duplicate()
+            # (which may be an end, a duration, or the whole day of an all day event)
+            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
 
             self.mRecurring = True
 
-- 
2.43.0


From 91c76fd1b5a709313fcab657cd6d5a2767dddab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:51 +0000
Subject: [PATCH 41/90] fix: apply overridden instances with a RANGE to the
 instances they cover

---
 src/pycalendar/icalendar/componentrecur.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index c3feef0..64935f8 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -428,8 +428,8 @@ class ComponentRecur(Component):
                             results.append(self.createExpanded(self, iter))
                     else:
                         # Sort each list first
-                        prior.sort(self.sort_by_dtstart)
-                        future.sort(self.sort_by_dtstart)
+                        prior.sort(key=lambda x: x.getRecurrenceID())
+                        future.sort(key=lambda x: x.getRecurrenceID())
 
                         # Add each expanded item
                         for iter1 in items:
@@ -439,16 +439,16 @@ class ComponentRecur(Component):
                             slave = None
 
                             # Find most appropriate THISANDPRIOR item
-                            for i in range(len(prior) - 1, 0, -1):
+                            for i in range(len(prior) - 1, -1, -1):
                                 riter2 = prior[i]
-                                if riter2.getStart() > iter1:
+                                if riter2.getRecurrenceID() > iter1:
                                     slave = riter2
                                     break
 
                             # Find most appropriate THISANDFUTURE item
-                            for i in range(len(future) - 1, 0, -1):
-                                riter2 = future.elementAt(i)
-                                if riter2.getStart() < iter1:
+                            for i in range(len(future) - 1, -1, -1):
+                                riter2 = future[i]
+                                if riter2.getRecurrenceID() < iter1:
                                     slave = riter2
                                     break
 
-- 
2.43.0


From cbd7d13b9311047ab183efb65b47999136106eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 42/90] fix: repaired UNTIL date names the last local date of
 the event

The UTC time of day of DTSTART was combined with the local date of UNTIL, so that in zones where those are different days the last instance was lost or one added.
---
 src/pycalendar/icalendar/componentrecur.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 64935f8..3dbb5d7 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -20,7 +20,6 @@ from pycalendar.icalendar.component import Component
 from pycalendar.icalendar.componentexpanded import ComponentExpanded
 from pycalendar.icalendar.property import Property
 from pycalendar.icalendar.recurrenceset import RecurrenceSet
-from pycalendar.timezone import Timezone
 from pycalendar.utils import set_difference
 import uuid
 
@@ -305,7 +304,6 @@ class ComponentRecur(Component):
 
         # Check that any UNTIL value matches that for DTSTART
         if self.mHasStart and self.mRecurrences:
-            dtutc = self.mStart.duplicateAsUTC()
             for rrule in self.mRecurrences.getRules():
                 if rrule.getUseUntil():
                     if rrule.getUntil().isDateOnly() ^ self.mStart.isDateOnly():
@@ -315,10 +313,14 @@ class ComponentRecur(Component):
                             definitions.cICalValue_RECUR_UNTIL,
                         )
                         if doFix:
-                            rrule.getUntil().setDateOnly(self.mStart.isDateOnly())
-                            if not self.mStart.isDateOnly():
-                                rrule.getUntil().setHHMMSS(dtutc.getHours(), dtutc.getMinutes(), dtutc.getSeconds())
-                                rrule.getUntil().setTimezone(Timezone(utc=True))
+                            if self.mStart.isDateOnly():
+                                rrule.getUntil().setDateOnly(True)
+                            else:
+                                # The date is a local one, so last is the DTSTART time of that local date
+                                until = self.mStart.duplicate()
+                                until.setYYMMDD(rrule.getUntil().getYear(), rrule.getUntil().getMonth(), rrule.getUntil().getDay())
+                                until.adjustToUTC()
+                                rrule.setUntil(until)
                             self.mRecurrences.changed()
                             fixed.append(logProblem)
                         else:
-- 
2.43.0


From a8f2fdc152702d99c4dd5424429bae440ca9d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 43/90] fix: repaired components are read again

After validate(doFix=True) had removed DTEND or DURATION, replaced STATUS or added an alarm's DESCRIPTION, the end, duration, status and action data the component answers were still those from before the repair.
---
 src/pycalendar/icalendar/available.py | 4 ++++
 src/pycalendar/icalendar/valarm.py    | 4 ++++
 src/pycalendar/icalendar/vevent.py    | 4 ++++
 src/pycalendar/icalendar/vtodo.py     | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/pycalendar/icalendar/available.py b/src/pycalendar/icalendar/available.py
index 1b173c8..7a0bdeb 100644
--- a/src/pycalendar/icalendar/available.py
+++ b/src/pycalendar/icalendar/available.py
@@ -76,6 +76,10 @@ class Available(ComponentRecur):
             else:
                 unfixed.append(logProblem)
 
+        # What was read from the properties may not be what they are any more
+        if fixed:
+            self.finalise()
+
         return fixed, unfixed
 
     def sortedPropertyKeyOrder(self):
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1876ff..1146fd3 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -498,6 +498,10 @@ class VAlarm(Component):
             )
             unfixed.append(logProblem)
 
+        # What was read from the properties may not be what they are any more
+        if fixed:
+            self.finalise()
+
         return fixed, unfixed
 
     def editStatus(self, status):
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 1ed908b..4a3fb45 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -122,6 +122,10 @@ class VEvent(ComponentRecur):
             else:
                 unfixed.append(logProblem)
 
+        # What was read from the properties may not be what they are any more
+        if fixed:
+            self.finalise()
+
         return fixed, unfixed
 
     # Editing
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4377922..a16c47b 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -296,6 +296,10 @@ class VToDo(ComponentRecur):
             )
             unfixed.append(logProblem)
 
+        # What was read from the properties may not be what they are any more
+        if fixed:
+            self.finalise()
+
         return fixed, unfixed
 
     # Editing
-- 
2.43.0


From d93134f822f81851d475473fd4ecd626a67982b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 44/90] fix: more than one DTSTART in an event is a problem

validate() let two of them pass.
---
 src/pycalendar/icalendar/vevent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 4a3fb45..07a1541 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -33,6 +33,7 @@ class VEvent(ComponentRecur):
         definitions.cICalProperty_CLASS,
         definitions.cICalProperty_CREATED,
         definitions.cICalProperty_DESCRIPTION,
+        definitions.cICalProperty_DTSTART,
         definitions.cICalProperty_GEO,
         definitions.cICalProperty_LAST_MODIFIED,
         definitions.cICalProperty_LOCATION,
-- 
2.43.0


From b4c7c13c9e282d5373bbdaf46c59f25b343e2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 45/90] fix: STATUS, ACTION, RELATED and RANGE values in lower
 case

Such values may be in any case, but were taken as unknown ones: a cancelled event was not, a display alarm was of unknown action, an END trigger kept the default and RANGE was ignored.
---
 src/pycalendar/icalendar/componentrecur.py | 5 +++--
 src/pycalendar/icalendar/valarm.py         | 4 ++--
 src/pycalendar/icalendar/vevent.py         | 1 +
 src/pycalendar/icalendar/vtodo.py          | 1 +
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 3dbb5d7..4fb8c09 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -281,8 +281,9 @@ class ComponentRecur(Component):
             # Also get the RANGE parameter
             attrs = self.findFirstProperty(definitions.cICalProperty_RECURRENCE_ID).getParameters()
             if definitions.cICalParameter_RANGE in attrs:
-                self.mAdjustFuture = (attrs[definitions.cICalParameter_RANGE][0].getFirstValue() == definitions.cICalParameter_RANGE_THISANDFUTURE)
-                self.mAdjustPrior = (attrs[definitions.cICalParameter_RANGE][0].getFirstValue() == definitions.cICalParameter_RANGE_THISANDPRIOR)
+                range = attrs[definitions.cICalParameter_RANGE][0].getFirstValue().upper()
+                self.mAdjustFuture = (range == definitions.cICalParameter_RANGE_THISANDFUTURE)
+                self.mAdjustPrior = (range == definitions.cICalParameter_RANGE_THISANDPRIOR)
             else:
                 self.mAdjustFuture = False
                 self.mAdjustPrior = False
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 1146fd3..eebfec1 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -417,7 +417,7 @@ class VAlarm(Component):
         # Get the ACTION
         temp = self.loadValueString(definitions.cICalProperty_ACTION)
         if temp is not None:
-            self.mAction = VAlarm.sActionMap.get(temp, definitions.eAction_VAlarm_Unknown)
+            self.mAction = VAlarm.sActionMap.get(temp.upper(), definitions.eAction_VAlarm_Unknown)
             self.loadAction()
 
         # Get the trigger
@@ -437,7 +437,7 @@ class VAlarm(Component):
 
                 # Look for RELATED parameter
                 if prop.hasParameter(definitions.cICalParameter_RELATED):
-                    temp = prop.getParameterValue(definitions.cICalParameter_RELATED)
+                    temp = prop.getParameterValue(definitions.cICalParameter_RELATED).upper()
                     if temp == definitions.cICalParameter_RELATED_START:
                         self.mTriggerOnStart = True
                     elif temp == definitions.cICalParameter_RELATED_END:
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 07a1541..6cbf302 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -86,6 +86,7 @@ class VEvent(ComponentRecur):
 
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
+            temp = temp.upper()
             if temp == definitions.cICalProperty_STATUS_TENTATIVE:
                 self.mStatus = definitions.eStatus_VEvent_Tentative
             elif temp == definitions.cICalProperty_STATUS_CONFIRMED:
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index a16c47b..93b50ea 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -245,6 +245,7 @@ class VToDo(ComponentRecur):
         # Get STATUS
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
+            temp = temp.upper()
             if temp == definitions.cICalProperty_STATUS_NEEDS_ACTION:
                 self.mStatus = definitions.eStatus_VToDo_NeedsAction
             elif temp == definitions.cICalProperty_STATUS_COMPLETED:
-- 
2.43.0


From 9077230f410f6611d065210e7a378ba90e65a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 46/90] fix: ComponentRecur.editRecurrenceSet and
 excludeRecurrence

Both called methods that do not exist.
---
 src/pycalendar/icalendar/componentrecur.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 4fb8c09..3449602 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -600,7 +600,7 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.getExrules():
+        for iter in self.mRecurrences.getExrules():
             prop = Property(definitions.cICalProperty_EXRULE, iter)
             self.addProperty(prop)
         for iter in self.mRecurrences.getDates():
@@ -616,7 +616,8 @@ class ComponentRecur(Component):
             return
 
         # Add to recurrence set and clear cache
-        self.mRecurrences.subtract(start)
+        self.mRecurrences.subtractDT(start)
+        self.mRecurrences.changed()
 
         # Add property
         prop = Property(definitions.cICalProperty_EXDATE, start)
-- 
2.43.0


From 67e58d7ece6e63fc9e8b5b5401a2580282c45ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:23 +0000
Subject: [PATCH 47/90] fix: Calendar.editName called a method that does not
 exist

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index e28da14..c1f326c 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -107,7 +107,7 @@ class Calendar(ContainerBase):
 
             # Now create properties
             if len(name):
-                self.ddProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
+                self.addProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
 
     def getDescription(self):
         return self.mDescription
-- 
2.43.0


From 19c4c54314ca0f5ba619cd1f8cf23aa6b232020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:28 +0000
Subject: [PATCH 48/90] fix: DateTime.copy, used to set times to now or today
 and for alarms, did not exist

---
 src/pycalendar/datetime.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 36e0a74..9a25753 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -107,6 +107,10 @@ class DateTime(ValueMixin):
 
         return other
 
+    def copy(self, other):
+        # Take on the value of another
+        self.__dict__.update(other.duplicate().__dict__)
+
     def duplicateAsUTC(self):
         other = self.duplicate()
         other.adjustToUTC()
@@ -665,7 +669,7 @@ class DateTime(ValueMixin):
 
     def setToday(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getToday(tz))
+        self.copy(self.getToday(tz))
 
     @staticmethod
     def getToday(tzid=None):
@@ -678,7 +682,7 @@ class DateTime(ValueMixin):
 
     def setNow(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getNow(tz))
+        self.copy(self.getNow(tz))
 
     @staticmethod
     def getNow(tzid):
@@ -687,7 +691,7 @@ class DateTime(ValueMixin):
         return utc
 
     def setNowUTC(self):
-        self.copy_DateTime(self.getNowUTC())
+        self.copy(self.getNowUTC())
 
     @staticmethod
     def getNowUTC():
-- 
2.43.0


From 3b8a33f9fee2f7a303b621afe45d03d5c90de1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:33 +0000
Subject: [PATCH 49/90] fix: VToDo.editStatus to no status added a STATUS
 without value

---
 src/pycalendar/icalendar/vtodo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 93b50ea..4f01e87 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -330,8 +330,9 @@ class VToDo(ComponentRecur):
                 value = definitions.cICalProperty_STATUS_IN_PROCESS
             elif status == definitions.eStatus_VToDo_Cancelled:
                 value = definitions.cICalProperty_STATUS_CANCELLED
-            prop = Property(definitions.cICalProperty_STATUS, value)
-            self.addProperty(prop)
+            if value is not None:
+                prop = Property(definitions.cICalProperty_STATUS, value)
+                self.addProperty(prop)
 
     def editCompleted(self, completed):
         # Remove existing COMPLETED item
-- 
2.43.0


From de13ff74c9492c016dcf89bd5bbd0e1a02a30843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 50/90] fix: editing the times of a to-do

It was given a DTEND instead of DUE, and the end or duration of an all day one was left out when one day long, although a to-do has no end without either.
---
 src/pycalendar/icalendar/componentrecur.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 3449602..ac0f7f5 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -553,16 +553,19 @@ class ComponentRecur(Component):
         self.addProperty(prop)
 
         # If its an all day event and the end one day after the start, ignore it
+        # (but a to-do has no end without one)
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        todo = self.getType() == definitions.cICalComponent_VTODO
+        if todo or not start.isDateOnly() or end != temp:
+            prop = Property(definitions.cICalProperty_DUE if todo else definitions.cICalProperty_DTEND, end)
             self.addProperty(prop)
 
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
+        todo = self.getType() == definitions.cICalComponent_VTODO
         self.mHasStart = True
-        self.mHasEnd = False
+        self.mHasEnd = todo
         self.mStart = start
         self.mEnd = start + duration
         self.mDuration = True
@@ -578,7 +581,8 @@ class ComponentRecur(Component):
         self.addProperty(prop)
 
         # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
+        # (but a to-do has no end without one)
+        if (todo or not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
             prop = Property(definitions.cICalProperty_DURATION, duration)
             self.addProperty(prop)
 
-- 
2.43.0


From e4572ede14c4625ec355310adafdc529ce102ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 51/90] fix: dates added to the recurrence of an event were
 lost in copies

EXDATE and RDATE have lists of values. With a single one in their place it was not found again when the recurrence set was made anew.
---
 src/pycalendar/icalendar/componentrecur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index ac0f7f5..3a29505 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -608,10 +608,10 @@ class ComponentRecur(Component):
             prop = Property(definitions.cICalProperty_EXRULE, iter)
             self.addProperty(prop)
         for iter in self.mRecurrences.getDates():
-            prop = Property(definitions.cICalProperty_RDATE, iter)
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
             self.addProperty(prop)
         for iter in self.mRecurrences.getExdates():
-            prop = Property(definitions.cICalProperty_EXDATE, iter)
+            prop = Property(definitions.cICalProperty_EXDATE, [iter])
             self.addProperty(prop)
 
     def excludeRecurrence(self, start):
@@ -624,7 +624,7 @@ class ComponentRecur(Component):
         self.mRecurrences.changed()
 
         # Add property
-        prop = Property(definitions.cICalProperty_EXDATE, start)
+        prop = Property(definitions.cICalProperty_EXDATE, [start])
         self.addProperty(prop)
 
     def excludeFutureRecurrence(self, start):
-- 
2.43.0


From bebae371152fb769ea33355eee55566883686e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 52/90] fix: the first time of an alarm relative to its event
 could not be determined

getEmbedder() does not exist.
---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index eebfec1..fa7ba4b 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -672,7 +672,7 @@ class VAlarm(Component):
             dt.copy(self.getTriggerOn())
         else:
             # Get the parent embedder class (must be CICalendarComponentRecur type)
-            owner = self.getEmbedder()
+            owner = self.getParentComponent()
             if owner is not None:
                 # Determine time at which alarm will trigger
                 trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
-- 
2.43.0


From 6dd0a877f0921b92a093eae7cb50843d669fd406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 53/90] fix: an alarm that repeats noted its next time as the
 last it went off at

So after the calendar was written and read again, that repeat was skipped.
---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index fa7ba4b..b949b5a 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -611,7 +611,7 @@ class VAlarm(Component):
             self.mAlarmStatus = definitions.eAlarm_Status_Completed
 
         # Add new
-        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, dt))
+        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, self.mLastTrigger.duplicate()))
         status = ""
         if self.mAlarmStatus == definitions.eAlarm_Status_Pending:
             status = definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING
-- 
2.43.0


From 62fe1f66974b15e400dfc26866b3bc44a86eb679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:34 +0000
Subject: [PATCH 54/90] fix: a rule on the first given weekday of a month,
 moved back a day by the UTC offset, could not be converted

---
 src/zonal/rule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index fea727f..f81dee4 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -522,16 +522,16 @@ class Rule(object):
                     if bymday:
                         rrule.setByMonthDay(bymday)
                     rrule.setByDay(((offset, rday),))
-                elif dayoffset == 1 and divmod(dayoffset - indicatedDay, 7)[1] == 6:
-                    # This is bad news as we have moved backward a day possibly into the next month
+                elif int(dayoffset) == 1 and divmod(dayOfWeek - indicatedDay, 7)[1] == 6:
+                    # This is bad news as we have moved backward a day possibly into the previous month
                     # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
                     rrule.setByMonth(())
                     daysBackStartOfMonth = (
                         365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
                     )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
+                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth] - 1] + 1 - i) for i in range(7)])
                     rrule.setByDay(
-                        ((0, divmod(indicatedDay + 1, 7)[1]),),
+                        ((0, divmod(indicatedDay - 1, 7)[1]),),
                     )
                 else:
                     # This is OK as we have moved forward a day and thus no month transition
-- 
2.43.0


From 59dd7e5196285e6d89eed5cd84d30b0900ef5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:37 +0000
Subject: [PATCH 55/90] fix: a rule on the last Saturday of a month, moved
 forward a day by the UTC offset, was taken as moved back

---
 src/zonal/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index f81dee4..fd98bc5 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -490,7 +490,7 @@ class Rule(object):
 
                 if dayOfWeek == indicatedDay:
                     rrule.setByDay(((-1, Rule.LASTDAY_NAME_TO_RDAY[self.onDay]),))
-                elif dayOfWeek < indicatedDay or dayOfWeek == 6 and indicatedDay == 0:
+                elif divmod(dayOfWeek - indicatedDay, 7)[1] == 6:
                     # This is OK as we have moved back a day and thus no month transition
                     # could have occurred
                     fakeOffset = daysInMonth(start.getMonth(), start.getYear()) - 6
-- 
2.43.0


From 7059665fae79f1676c9bbd39eb49341513f9293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 56/90] fix: a rule on a day that the UTC offset moves into
 another month recurred in the wrong month

---
 src/zonal/rule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index fd98bc5..4ddaf2c 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -546,6 +546,9 @@ class Rule(object):
                 except:
                     assert False, "onDay value is not recognized: %s" % (self.onDay,)
 
+                # Time shifting may have moved the day into another month
+                rrule.setByMonth((start.getMonth(),))
+
             # Add any UNTIL
             if zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
                 until = end.duplicate()
-- 
2.43.0


From b3e4fbf7fcc3681fede432fa7f51ca0b1539c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 57/90] fix: expanding a zone up to a later year than before
 missed the years in between

---
 src/zonal/rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 4ddaf2c..9929144 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -176,6 +176,7 @@ class Rule(object):
         self.letter = ""
 
         self.dt_cache = None
+        self.dt_cache_year = None
 
     def __str__(self):
         return self.generate()
@@ -417,7 +418,8 @@ class Rule(object):
         @param maxYear: maximum year to expand to
         @type maxYear: C{int}
         """
-        if self.dt_cache is None:
+        if self.dt_cache is None or self.dt_cache_year != maxYear:
+            self.dt_cache_year = maxYear
             start = self.startYear()
             end = self.endYear()
             if end > maxYear:
-- 
2.43.0


From 47881725167845001ca7a6fe1ce1a910c69b2bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 58/90] fix: negative amounts of saved time with minutes were
 misread

---
 src/zonal/rule.py | 2 +-
 src/zonal/zone.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 9929144..7b42660 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -251,7 +251,7 @@ class Rule(object):
             minutes = int(splits[1])
         else:
             minutes = 0
-        negative = hours < 0
+        negative = self.saveTime.startswith("-")
         if negative:
             return -((-hours * 60) + minutes) * 60
         else:
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 53275bd..b59c60f 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -483,10 +483,13 @@ class ZoneRule(object):
     def getNumericOffset(self):
         offset = 0
         if self.rule != "-":
-            splits = self.rule.split(":")
+            negative = self.rule.startswith("-")
+            splits = self.rule[1 if negative else 0:].split(":")
             offset = 60 * 60 * int(splits[0])
             if len(splits) > 1:
                 offset += 60 * int(splits[1])
+            if negative:
+                offset = -offset
         return offset
 
     def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto):
-- 
2.43.0


From f1bfe47d8b590730aaf618be93f89ed7276e7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:53 +0000
Subject: [PATCH 59/90] fix: zone lines in force until a weekday other than
 four particular ones could not be read

---
 src/zonal/zone.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index b59c60f..1ee8ca3 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -371,21 +371,14 @@ class ZoneRule(object):
                 if len(splits) > 1 and not splits[1].startswith("#"):
                     month = int(rule.Rule.MONTH_NAME_TO_POS[splits[1]])
                     if len(splits) > 2 and not splits[2].startswith("#"):
-                        if splits[2] == "lastSun":
+                        if splits[2] in rule.Rule.LASTDAY_NAME_TO_DAY:
                             dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SUNDAY)
+                            dt.setDayOfWeekInMonth(-1, rule.Rule.LASTDAY_NAME_TO_DAY[splits[2]])
                             splits[2] = dt.getDay()
-                        elif splits[2] == "lastSat":
+                        elif splits[2].find(">=") != -1:
+                            dayOfWeek, dayOffset = splits[2].split(">=")
                             dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SATURDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=1":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(1, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=8":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(8, DateTime.SUNDAY)
+                            dt.setNextDayOfWeek(int(dayOffset), rule.Rule.DAY_NAME_TO_DAY[dayOfWeek])
                             splits[2] = dt.getDay()
                         day = int(splits[2])
                         if len(splits) > 3 and not splits[3].startswith("#"):
-- 
2.43.0


From 4a80c154a54ea0b4841ed0fa9482b3facef33c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 60/90] fix: tzdata times marked g or z are UTC too

---
 src/zonal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zonal/utils.py b/src/zonal/utils.py
index dc074e9..3505be3 100644
--- a/src/zonal/utils.py
+++ b/src/zonal/utils.py
@@ -33,7 +33,7 @@ class DateTime(object):
 
     def getLocaltime(self, offset, stdoffset):
         new_dt = self.dt.duplicate()
-        if self.mode == "u":
+        if self.mode in ("u", "g", "z"):
             new_dt.offsetSeconds(offset)
         elif self.mode == "s":
             new_dt.offsetSeconds(-stdoffset + offset)
@@ -41,7 +41,7 @@ class DateTime(object):
 
     def getUTC(self, offset, stdoffset):
         new_dt = self.dt.duplicate()
-        if self.mode == "u":
+        if self.mode in ("u", "g", "z"):
             pass
         elif self.mode == "s":
             new_dt.offsetSeconds(-stdoffset)
-- 
2.43.0


From b610963dc847cc5ca13e32d83c60fcb854693c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 61/90] fix: the start of a zone line was taken as one of the
 times of the rule then in force

---
 src/zonal/zone.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 1ee8ca3..ed83004 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -195,6 +195,11 @@ class Zone(object):
         ruleorder = []
         rulemap = {}
 
+        def _isRuleDate(tzrule, dt, offsetfrom):
+            # The start of a zone line need not be one of the times the rule gives
+            ruledt = utils.DateTime(*tzrule.datetimeForYear(dt.getYear()))
+            return ruledt.getLocaltime(offsetfrom, lastZoneRule.getUTCOffset()) == dt
+
         def _generateRuleData():
             # Generate VTIMEZONE component for last set of rules
             for tzrule in ruleorder:
@@ -204,7 +209,7 @@ class Zone(object):
                     startIndex = 0
                     for index in xrange(len(rulemap[tzrule])):
                         offsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
-                        if offsetPair != lastOffsetPair:
+                        if offsetPair != lastOffsetPair or index == 1 and not _isRuleDate(tzrule, *rulemap[tzrule][0][:2]):
                             tzrule.vtimezone(
                                 vtz,
                                 lastZoneRule,
-- 
2.43.0


From e5be7e0211e9fbdd3465157ba6e0f30dd8f38930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:05 +0000
Subject: [PATCH 62/90] fix: a broken file in the time zone database stopped
 whatever asked for its zone

---
 src/pycalendar/timezonedb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55b64ae..217c1f5 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -15,7 +15,7 @@
 ##
 
 from pycalendar.exceptions import NoTimezoneInDatabase, \
-    InvalidData
+    InvalidData, InvalidComponent, InvalidProperty
 import os
 
 
@@ -120,7 +120,7 @@ class TimezoneDatabase(object):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-            except (IOError, InvalidData):
+            except (IOError, InvalidData, InvalidComponent, InvalidProperty):
                 raise NoTimezoneInDatabase(self.dbpath, tzid)
         else:
             raise NoTimezoneInDatabase(self.dbpath, tzid)
-- 
2.43.0


From a4c9c0c9ce0b0660334684a34fa9723bc88654a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:09 +0000
Subject: [PATCH 63/90] fix: a TZID could name files in directories beside the
 time zone database whose names start alike

---
 src/pycalendar/timezonedb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 217c1f5..67d4875 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -114,9 +114,10 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
-        tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
+        dbpath = os.path.normpath(self.dbpath)
+        tzpath = os.path.join(dbpath, "%s.ics" % (tzid,))
         tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(self.dbpath) and os.path.isfile(tzpath):
+        if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From 8fc7daf7d780c4f86a4483cb9dddd471e2e43bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:12 +0000
Subject: [PATCH 64/90] fix: the zone of RDATE periods given by TZID was
 ignored

---
 src/pycalendar/icalendar/property.py | 21 +++++++++++++--------
 src/pycalendar/period.py             |  7 +++++++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 02a42ff..427b0d9 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -266,16 +266,14 @@ class Property(PropertyBase):
         """
 
         # Look for TZID parameter
-        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME) and self.hasParameter(definitions.cICalParameter_TZID):
+        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and self.hasParameter(definitions.cICalParameter_TZID):
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
-            if isinstance(self.mValue, DateTimeValue):
-                self.mValue.getValue().setTimezoneID(tzid)
-
-            elif isinstance(self.mValue, MultiValue):
-                for item in self.mValue.getValues():
-                    if isinstance(item, DateTimeValue):
-                        item.getValue().setTimezoneID(tzid)
+            for item in self.mValue.getValues() if isinstance(self.mValue, MultiValue) else (self.mValue,):
+                if isinstance(item, DateTimeValue):
+                    item.getValue().setTimezoneID(tzid)
+                elif isinstance(item, PeriodValue):
+                    item.getValue().setTimezoneID(tzid)
 
     # Creation
     def _init_attr_value_requeststatus(self, reqstatus):
@@ -329,6 +327,13 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        if len(periodlist) > 0 and periodlist[0].getStart().local():
+            if definitions.cICalParameter_TZID in self.mParameters:
+                del self.mParameters[definitions.cICalParameter_TZID]
+            self.mParameters.setdefault(definitions.cICalParameter_TZID, []).append(
+                Parameter(name=definitions.cICalParameter_TZID, value=periodlist[0].getStart().getTimezoneID()))
+
     def _init_attr_value_duration(self, du):
         # Value
         self.mValue = DurationValue(value=du)
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 6fc61a1..4a323dc 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -76,6 +76,13 @@ class Period(ValueMixin):
         return self.mStart < comp.mStart  \
             or (self.mStart == comp.mStart) and self.getEnd() < comp.getEnd()
 
+    def setTimezoneID(self, tzid):
+        self.mStart.setTimezoneID(tzid)
+        if self.mUseDuration:
+            self.mEnd = None
+        else:
+            self.mEnd.setTimezoneID(tzid)
+
     @classmethod
     def parseText(cls, data):
         period = cls()
-- 
2.43.0


From 096defb2411f83c8dbdadfe3b1ba15f973593490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 65/90] fix: zones used only in EXDATE or RDATE were not
 included in the text of a calendar

---
 src/pycalendar/icalendar/component.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 3d9defd..bbd7f33 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -17,8 +17,10 @@
 from pycalendar import stringutils
 from pycalendar.componentbase import ComponentBase
 from pycalendar.datetime import DateTime
+from pycalendar.datetimevalue import DateTimeValue
 from pycalendar.icalendar import definitions
 from pycalendar.icalendar.property import Property
+from pycalendar.periodvalue import PeriodValue
 import os
 import time
 import uuid
@@ -181,11 +183,17 @@ class Component(ComponentBase):
         # Look for all date-time properties
         for props in self.mProperties.itervalues():
             for prop in props:
-                # Try to get a date-time value from the property
-                dtv = prop.getDateTimeValue()
-                if dtv is not None:
+                # Try to get date-time values from the property
+                multi = prop.getMultiValue()
+                for value in (prop.getValue(),) if multi is None else multi.getValues():
+                    tzid = None
+                    if isinstance(value, DateTimeValue):
+                        tzid = value.getValue().getTimezoneID()
+                    elif isinstance(value, PeriodValue):
+                        tzid = value.getValue().getStart().getTimezoneID()
+
                     # Add timezone id if appropriate
-                    if dtv.getValue().getTimezoneID():
-                        tzids.add(dtv.getValue().getTimezoneID())
+                    if tzid:
+                        tzids.add(tzid)
 
 Component.sComponentType = Component
-- 
2.43.0


From 2d3163b97d9e61231acd30c52b446adb19b42cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:19 +0000
Subject: [PATCH 66/90] fix: a component could not be given a generated UID

---
 src/pycalendar/stringutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index a1c8933..e0baa32 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -99,4 +99,4 @@ def compareStringsSafe(s1, s2):
 
 
 def md5digest(txt):
-    return md5.new(txt).hexdigest()
+    return md5(txt).hexdigest()
-- 
2.43.0


From 259d46f1a057fbd3ee6d0e50d0581bddc2bd615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 67/90] fix: overrides of components removed all at once, or
 with a UID used twice, were kept or could not be removed

---
 src/pycalendar/icalendar/calendar.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index c1f326c..e76745e 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -354,7 +354,17 @@ class Calendar(ContainerBase):
             if rid:
                 self.mOverriddenComponentsByUID[uid].remove(component)
             else:
-                del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
+                self.mMasterComponentsByTypeAndUID[component.getType()].pop(uid, None)
+
+    def removeAllComponent(self, compname=None):
+        """
+        Override to track components by UID.
+        """
+        super(Calendar, self).removeAllComponent(compname)
+
+        if not compname:
+            self.mMasterComponentsByTypeAndUID.clear()
+            self.mOverriddenComponentsByUID.clear()
 
     def deriveComponent(self, recurrenceID):
         """
-- 
2.43.0


From bbd72b045d1b8729b2b8d1467196a67db3aa4bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 68/90] fix: changing a UID to itself or one in use lost
 overrides

---
 src/pycalendar/icalendar/calendar.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index e76745e..53a793a 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -145,6 +145,9 @@ class Calendar(ContainerBase):
         @type newUID: C{str}
         """
 
+        if oldUID == newUID:
+            return
+
         # Each component
         for component in self.mComponents:
             if component.getUID() == oldUID:
@@ -152,8 +155,7 @@ class Calendar(ContainerBase):
 
         # Maps
         if oldUID in self.mOverriddenComponentsByUID:
-            self.mOverriddenComponentsByUID[newUID] = self.mOverriddenComponentsByUID[oldUID]
-            del self.mOverriddenComponentsByUID[oldUID]
+            self.mOverriddenComponentsByUID[newUID].extend(self.mOverriddenComponentsByUID.pop(oldUID))
         for ctype in self.mMasterComponentsByTypeAndUID:
             if oldUID in self.mMasterComponentsByTypeAndUID[ctype]:
                 self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype][oldUID]
-- 
2.43.0


From 7d4cc20424749a7cb90b9ea6a57f49f62e0dfc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:32 +0000
Subject: [PATCH 69/90] fix: a derived to-do kept its old DUE, and to-dos and
 journal entries gained a DTEND

---
 src/pycalendar/icalendar/calendar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 53a793a..6ad4b48 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -413,7 +413,11 @@ class Calendar(ContainerBase):
         newcomp.removeProperties(definitions.cICalProperty_DTEND)
         prop = Property(definitions.cICalProperty_DTSTART, newdtstartValue)
         newcomp.addProperty(prop)
-        if not newcomp.useDuration():
+        if newcomp.getType() == definitions.cICalComponent_VTODO:
+            if newcomp.hasProperty(definitions.cICalProperty_DUE):
+                newcomp.removeProperties(definitions.cICalProperty_DUE)
+                newcomp.addProperty(Property(definitions.cICalProperty_DUE, newdtstartValue + oldduration))
+        elif newcomp.getType() == definitions.cICalComponent_VEVENT and not newcomp.useDuration():
             prop = Property(definitions.cICalProperty_DTEND, newdtstartValue + oldduration)
             newcomp.addProperty(prop)
 
-- 
2.43.0


From a0304e00af9528a002cf6ca78a7829d95ba339ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:35 +0000
Subject: [PATCH 70/90] fix: free-busy times of an unrecognized type were taken
 as free

---
 src/pycalendar/icalendar/vfreebusy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 35ad2b6..2e6c60a 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -251,11 +251,17 @@ class VFreeBusy(Component):
                     is_busy = True
                     type = FreeBusy.BUSYTENTATIVE
 
-                else:
+                elif fbyype.upper() == definitions.cICalParameter_FBTYPE_FREE:
 
                     is_busy = False
                     type = FreeBusy.FREE
 
+                else:
+
+                    # Values that are not recognized are treated as busy
+                    is_busy = True
+                    type = FreeBusy.BUSY
+
             else:
 
                 # Default is busy when no parameter
-- 
2.43.0


From e442b88e43bde4341c41a2fcf613382ca266915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 71/90] fix: the busy time of a calendar could not be asked for

---
 src/pycalendar/icalendar/calendar.py  | 11 +++++------
 src/pycalendar/icalendar/freebusy.py  |  3 ++-
 src/pycalendar/icalendar/vfreebusy.py |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 6ad4b48..38bb5d0 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -538,7 +538,7 @@ class Calendar(ContainerBase):
     def getVFreeBusyList(self, period, list):
         # Look at each VFreeBusy
         for vfreebusy in self.getComponents(definitions.cICalComponent_VFREEBUSY):
-            vfreebusy.expandPeriod(period, list)
+            vfreebusy.expandPeriodComp(period, list)
 
     def getVFreeBusyFB(self, period, fb):
         # First create expanded set
@@ -609,8 +609,8 @@ class Calendar(ContainerBase):
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if comp.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            transp = comp.getOwner().getPropertyString(definitions.cICalProperty_TRANSP)
+            if transp is not None and transp.upper() == definitions.cICalProperty_TRANSPARENT:
                 continue
 
             # Add free busy item to list
@@ -619,20 +619,19 @@ class Calendar(ContainerBase):
                 fb.append(FreeBusy(FreeBusy.BUSY, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
             elif status == definitions.eStatus_VEvent_Tentative:
                 fb.append(FreeBusy(FreeBusy.BUSYTENTATIVE, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
-                break
             elif status == definitions.eStatus_VEvent_Cancelled:
                 # Cancelled => does not contribute to busy time
                 pass
 
         # Now get the VFREEBUSY info
         list2 = []
-        self.getVFreeBusy(period, list2)
+        self.getVFreeBusyList(period, list2)
 
         # Get start/end list for each free-busy
         for comp in list2:
 
             # Expand component and add free busy info to list
-            comp.expandPeriod(period, fb)
+            comp.expandPeriodFB(period, fb)
 
         # Add remaining period as property
         FreeBusy.resolveOverlaps(fb)
diff --git a/src/pycalendar/icalendar/freebusy.py b/src/pycalendar/icalendar/freebusy.py
index 0480cb4..a1aadf1 100644
--- a/src/pycalendar/icalendar/freebusy.py
+++ b/src/pycalendar/icalendar/freebusy.py
@@ -45,6 +45,7 @@ class FreeBusy(object):
     def isPeriodOverlap(self, period):
         return self.mPeriod.isPeriodOverlap(period)
 
-    def resolveOverlaps(self, fb):
+    @staticmethod
+    def resolveOverlaps(fb):
         # TODO:
         pass
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 2e6c60a..4fadb47 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -216,7 +216,7 @@ class VFreeBusy(Component):
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
             for fb in self.mBusyTime:
-                list.append(FreeBusy(fb))
+                list.append(fb.duplicate())
 
     def cacheBusyTime(self):
 
-- 
2.43.0


From 70058f59c7d0ecf807e3f030aea377aea5f997d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:43 +0000
Subject: [PATCH 72/90] fix: the span of a free-busy component was not the one
 stated by its duration or after an edit

---
 src/pycalendar/icalendar/vfreebusy.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 4fadb47..fa10778 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -75,6 +75,9 @@ class VFreeBusy(Component):
         # Do inherited
         super(VFreeBusy, self).finalise()
 
+        # What was found in the properties before may no longer hold
+        self.mCachedBusyTime = False
+
         # Get DTSTART
         temp = self.loadValueDateTime(definitions.cICalProperty_DTSTART)
         self.mHasStart = temp is not None
@@ -142,6 +145,7 @@ class VFreeBusy(Component):
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
+        self.mCachedBusyTime = False
         self.mStart.setToday()
         self.mEnd.setToday()
 
@@ -156,6 +160,7 @@ class VFreeBusy(Component):
         self.mStart = start
         self.mEnd = end
         self.mDuration = False
+        self.mCachedBusyTime = False
         self.fixStartEnd()
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
@@ -181,6 +186,7 @@ class VFreeBusy(Component):
         self.mStart = start
         self.mEnd = start + duration
         self.mDuration = True
+        self.mCachedBusyTime = False
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -315,7 +321,7 @@ class VFreeBusy(Component):
                 start = self.mStart
             else:
                 start = min_start
-            if self.mHasEnd:
+            if self.mHasEnd or self.mDuration:
                 end = self.mEnd
             else:
                 end = max_end
-- 
2.43.0


From 5cb3a91172e8ea4fec7562b89ba4a44877fe54a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:45 +0000
Subject: [PATCH 73/90] fix: an event with RDATE periods could not be expanded,
 and their lengths and edits were lost

---
 src/pycalendar/componentbase.py               | 4 ++--
 src/pycalendar/icalendar/componentexpanded.py | 5 +++++
 src/pycalendar/icalendar/componentrecur.py    | 6 ++++++
 src/pycalendar/icalendar/recurrenceset.py     | 6 ++----
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 6adc521..3888027 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -538,9 +538,9 @@ class ComponentBase(object):
                                 value.subtractDT(obj.getValue())
                         elif isinstance(obj, PeriodValue):
                             if add:
-                                value.addPeriod(obj.getValue().getStart())
+                                value.addPeriod(obj.getValue())
                             else:
-                                value.subtractPeriod(obj.getValue().getStart())
+                                value.subtractPeriod(obj.getValue())
 
             return True
         else:
diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index e50136d..446c291 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -128,6 +128,11 @@ class ComponentExpanded(object):
             # (which may be an end, a duration, or the whole day of an all day event)
             self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
 
+            # An instance that is added as a period has its own end
+            for period in self.mOwner.getRecurrenceSet().getPeriods():
+                if period.getStart() == rid:
+                    self.mInstanceEnd = period.getEnd()
+
             self.mRecurring = True
 
         # If the owner is a recurrence item and the passed in rid is the same
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 3a29505..2c7d6e0 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -610,9 +610,15 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getDates():
             prop = Property(definitions.cICalProperty_RDATE, [iter])
             self.addProperty(prop)
+        for iter in self.mRecurrences.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, [iter])
+            self.addProperty(prop)
         for iter in self.mRecurrences.getExdates():
             prop = Property(definitions.cICalProperty_EXDATE, [iter])
             self.addProperty(prop)
+        for iter in self.mRecurrences.getExperiods():
+            prop = Property(definitions.cICalProperty_EXDATE, [iter])
+            self.addProperty(prop)
 
     def excludeRecurrence(self, start):
         # Must have items
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 898c6f6..e6feddc 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -210,10 +210,8 @@ class RecurrenceSet(object):
         for iter in self.mExrules:
             iter.expand(start, range, exclude, float_offset=float_offset)
 
-        # EXDATES
-        for iter in self.mExdates:
-            if range.isDateWithinPeriod(iter):
-                exclude.append(iter)
+        # EXDATES (an excluded period may have started before the range)
+        exclude.extend(self.mExdates)
         for iter in self.mExperiods:
             if range.isPeriodOverlap(iter):
                 exclude.append(iter.getStart())
-- 
2.43.0


From 80380693c35d94101f9c032a605d367afa079e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 74/90] fix: filtered output of sub-components failed, or
 repeated the component itself in XML and JSON

---
 src/pycalendar/componentbase.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 3888027..617b79b 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -407,7 +407,7 @@ class ComponentBase(object):
         if filter.isAllSubComponents():
             self.writeComponents(os)
         elif filter.hasSubComponentFilters():
-            for subcomp in self.sortedcomponents():
+            for subcomp in self.sortedComponents():
                 subfilter = filter.getSubComponentFilter(subcomp.getType())
                 if subfilter is not None:
                     subcomp.generateFiltered(os, subfilter)
@@ -428,9 +428,10 @@ class ComponentBase(object):
 
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeXML(comps, namespace)
+                for subcomp in self.sortedComponents():
+                    subcomp.writeXML(comps, namespace)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeXMLFiltered(comps, namespace, subfilter)
@@ -447,9 +448,9 @@ class ComponentBase(object):
         if self.mComponents:
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeJSON(jobject)
+                self.writeComponentsJSON(jobject)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
+                for subcomp in self.sortedComponents():
                     subfilter = filter.getSubComponentFilter(subcomp.getType())
                     if subfilter is not None:
                         subcomp.writeJSONFiltered(jobject, subfilter)
-- 
2.43.0


From c6b6484cb251b2018ee6c3aa77c33c4325181934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 75/90] fix: duration and period values could not be written as
 XML

---
 src/pycalendar/valueutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/valueutils.py b/src/pycalendar/valueutils.py
index 6dc8694..99a2c31 100644
--- a/src/pycalendar/valueutils.py
+++ b/src/pycalendar/valueutils.py
@@ -79,7 +79,7 @@ class WrapperValue(object):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue.writeXML()
+        self.mValue.writeXML(value, namespace)
 
     def parseJSONValue(self, jobject):
         self.mValue.parseJSON(jobject)
-- 
2.43.0


From 98bd07df699011b9a70e493cb4a1cdce0ab7f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:31 +0000
Subject: [PATCH 76/90] fix: GEO and REQUEST-STATUS could not be written as XML

---
 src/pycalendar/geovalue.py                     | 11 +++++------
 src/pycalendar/icalendar/requeststatusvalue.py |  9 ++++-----
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 5800fe5..7c018db 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -62,13 +62,12 @@ class GeoValue(Value):
         os.write("%s;%s" % (self.mValue[0], self.mValue[1],))
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
+        # The components are direct children of the property element
+        latitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
+        latitude.text = str(self.mValue[0])
 
-        latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
-        latitude.text = self.mValue[0]
-
-        longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
-        longitude.text = self.mValue[1]
+        longitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
+        longitude.text = str(self.mValue[1])
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject
diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 20abc8a..d2a9d3b 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -78,16 +78,15 @@ class RequestStatusValue(Value):
         utils.generateTextList(os, self.mValue if len(self.mValue) < 3 or self.mValue[2] else self.mValue[:2])
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        code = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
+        # The components are direct children of the property element
+        code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
         code.text = self.mValue[0]
 
-        description = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
+        description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
         description.text = self.mValue[1]
 
         if len(self.mValue) == 3 and self.mValue[2]:
-            data = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
+            data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
             data.text = self.mValue[2]
 
     def parseJSONValue(self, jobject):
-- 
2.43.0


From c3f53a02c3c706a0d108e6f11e6cb5590e3f29fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 77/90] fix: text that is not ASCII could not be written as XML

---
 src/pycalendar/icalendar/requeststatusvalue.py | 6 +++---
 src/pycalendar/parameter.py                    | 2 +-
 src/pycalendar/plaintextvalue.py               | 3 ++-
 src/pycalendar/xmlutils.py                     | 7 +++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index d2a9d3b..ce77a30 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -80,14 +80,14 @@ class RequestStatusValue(Value):
     def writeXML(self, node, namespace):
         # The components are direct children of the property element
         code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
-        code.text = self.mValue[0]
+        code.text = xmlutils.makeText(self.mValue[0])
 
         description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
-        description.text = self.mValue[1]
+        description.text = xmlutils.makeText(self.mValue[1])
 
         if len(self.mValue) == 3 and self.mValue[2]:
             data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
-            data.text = self.mValue[2]
+            data.text = xmlutils.makeText(self.mValue[2])
 
     def parseJSONValue(self, jobject):
         self.mValue = map(lambda x: x.encode("utf-8"), jobject)
diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 70c3449..99fd338 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -112,7 +112,7 @@ class Parameter(object):
         for value in self.getValues():
             # TODO: need to figure out proper value types
             text = XML.SubElement(param, xmlutils.makeTag(namespace, xmldefinitions.value_text))
-            text.text = value
+            text.text = xmlutils.makeText(value)
 
     def writeJSON(self, jobject):
         # A parameter can be repeated, in which case all the values are needed
diff --git a/src/pycalendar/plaintextvalue.py b/src/pycalendar/plaintextvalue.py
index f2c22ad..29d2713 100644
--- a/src/pycalendar/plaintextvalue.py
+++ b/src/pycalendar/plaintextvalue.py
@@ -16,6 +16,7 @@
 
 # iCalendar generic text-like value
 
+from pycalendar import xmlutils
 from pycalendar.value import Value
 
 
@@ -41,7 +42,7 @@ class PlainTextValue(Value):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue
+        value.text = xmlutils.makeText(self.mValue)
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject.encode("utf-8")
diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index de41dcc..eadca1c 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -21,6 +21,13 @@ def makeTag(namespace, name):
     return "{%s}%s" % (namespace, name.lower(),)
 
 
+def makeText(text):
+    """
+    Text is held as utf-8 encoded data, but has to be unicode in an XML element.
+    """
+    return text.decode("utf-8") if isinstance(text, str) else text
+
+
 def toString(root):
 
     data = """<?xml version="1.0" encoding="utf-8"?>\n"""
-- 
2.43.0


From c82ef25b4d3bec4a7999b66c3d284fbb46350c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 78/90] fix: XML lost the name of a value type that is not
 supported

---
 src/pycalendar/property.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 4ee66c9..31b28f9 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -436,6 +436,13 @@ class PropertyBase(object):
         if self.mValue and not novalue:
             self.mValue.writeXML(prop, namespace)
 
+            # Preserve the name of a type that we do not support
+            if self.mValue.getType() == Value.VALUETYPE_UNKNOWN and self.sValue in self.mParameters:
+                value_name = self.getParameterValue(self.sValue)
+                if value_name:
+                    for value in prop.findall(xmlutils.makeTag(namespace, xmldefinitions.value_unknown)):
+                        value.tag = xmlutils.makeTag(namespace, value_name)
+
     @classmethod
     def parseJSON(cls, jobject):
         """
-- 
2.43.0


From 9554bc378b85f6b4bbfb859ced2b3decdd6d0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 79/90] fix: strict reading refused every REQUEST-STATUS value

---
 src/pycalendar/icalendar/requeststatusvalue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index ce77a30..ce5552a 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -65,10 +65,11 @@ class RequestStatusValue(Value):
             else:
                 raise ValueError("RequestStatus: too many value components")
 
-        if "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
-            code = code.replace("\\", "")
-        elif ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
-            raise ValueError("RequestStatus: cannot have '\\' in value")
+        if "\\" in code:
+            if ParserContext.INVALID_REQUEST_STATUS_VALUE in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
+                code = code.replace("\\", "")
+            elif ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
+                raise ValueError("RequestStatus: cannot have '\\' in value")
 
         # Decoding required
         self.mValue = [code, desc, rest, ] if rest else [code, desc, ]
-- 
2.43.0


From 8112ad7c86cf9cde7e296dbcf0594592fab46833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 80/90] fix: ignoring vCard parameters without a value raised
 AttributeError

---
 src/pycalendar/vcard/property.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 21d614a..e958fba 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -246,15 +246,15 @@ class Property(PropertyBase):
                         # Deal with parameters without values
                         if ParserContext.VCARD_2_NO_PARAMETER_VALUES == ParserContext.PARSER_RAISE:
                             raise InvalidProperty("Invalid property parameter", data)
-                        elif ParserContext.VCARD_2_NO_PARAMETER_VALUES == ParserContext.PARSER_ALLOW:
-                            parameter_value = None
-                        else:  # PARSER_IGNORE and PARSER_FIX
-                            parameter_name = None
+                        parameter_value = None
 
                         if parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
                             parameter_name = definitions.Parameter_ENCODING
                             parameter_value = definitions.Parameter_Value_ENCODING_B
                             stripValueSpaces = True
+                        elif ParserContext.VCARD_2_NO_PARAMETER_VALUES != ParserContext.PARSER_ALLOW:
+                            # PARSER_IGNORE and PARSER_FIX
+                            parameter_name = None
                     else:
                         txt = txt[1:]
                         parameter_value, txt = stringutils.strduptokenstr(txt, ":;,")
-- 
2.43.0


From 6dac5b4d97551cc434c7542306ceceb93fdfeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 81/90] fix: strict reading accepted an escaped separator in
 GEO, and an empty latitude raised IndexError

---
 src/pycalendar/geovalue.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 7c018db..7adb6ed 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -19,6 +19,7 @@
 from pycalendar import xmlutils
 from pycalendar.exceptions import InvalidData
 from pycalendar.icalendar import xmldefinitions
+from pycalendar.parser import ParserContext
 from pycalendar.value import Value
 from pycalendar import xmldefinitions as xmldefinitions_top
 import xml.etree.cElementTree as XML
@@ -49,7 +50,7 @@ class GeoValue(Value):
         try:
             self.mValue = [float(splits[0]), float(splits[1])]
         except ValueError:
-            if splits[0][-1] == '\\':
+            if splits[0][-1:] == '\\' and ParserContext.BACKSLASH_IN_GEO_VALUE != ParserContext.PARSER_RAISE:
                 try:
                     self.mValue = [float(splits[0][:-1]), float(splits[1])]
                 except ValueError:
-- 
2.43.0


From 12bd8039aaccba3c6aecc4ca21174b7a3dc8b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 82/90] fix: strict reading accepted spaces in place of digits
 in dates

---
 src/pycalendar/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/parser.py b/src/pycalendar/parser.py
index 7ce1509..0f3b2c1 100644
--- a/src/pycalendar/parser.py
+++ b/src/pycalendar/parser.py
@@ -75,9 +75,10 @@ class ParserContext(object):
         ParserContext.BLANK_LINES_IN_DATA = ParserContext.PARSER_RAISE
         ParserContext.VCARD_2_NO_PARAMETER_VALUES = ParserContext.PARSER_RAISE
         ParserContext.VCARD_2_BASE64 = ParserContext.PARSER_RAISE
+        ParserContext.INVALID_DATETIME_VALUE = ParserContext.PARSER_RAISE
+        ParserContext.INVALID_DATETIME_LEADINGSPACE = ParserContext.PARSER_RAISE
         ParserContext.INVALID_DURATION_VALUE = ParserContext.PARSER_RAISE
         ParserContext.INVALID_ADR_N_VALUES = ParserContext.PARSER_RAISE
         ParserContext.INVALID_REQUEST_STATUS_VALUE = ParserContext.PARSER_RAISE
         ParserContext.BACKSLASH_IN_URI_VALUE = ParserContext.PARSER_RAISE
         ParserContext.BACKSLASH_IN_GEO_VALUE = ParserContext.PARSER_RAISE
-        ParserContext.INVALID_REQUEST_STATUS = ParserContext.PARSER_RAISE
-- 
2.43.0


From 3bf34a5d5fdb9f9e69b938e85e9897ac7f9f8261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 83/90] fix: escape sequences to be passed through were dropped

---
 src/pycalendar/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 8840031..8f2aea0 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -169,12 +169,16 @@ def decodeTextValue(value):
                     raise ValueError("TextValue: '\\:' not allowed")
                 elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_FIX:
                     os.write(':')
+                elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_ALLOW:
+                    os.write('\\:')
 
             # Other escaped chars normally not allowed
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_RAISE:
                 raise ValueError("TextValue: '\\{}' not allowed".format(c))
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_FIX:
                 os.write(c)
+            elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_ALLOW:
+                os.write('\\' + c)
 
             # Bump past escapee and look for next segment (not past the end)
             start_pos = end_pos + 1
-- 
2.43.0


From 753b7e9b5e988c1d301d88cd2066536ead864395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:11 +0000
Subject: [PATCH 84/90] fix: names and addresses with too many components were
 not truncated when ignoring them, and could not be copied when allowed

---
 src/pycalendar/utils.py     | 2 +-
 src/pycalendar/vcard/adr.py | 4 +++-
 src/pycalendar/vcard/n.py   | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 8f2aea0..884fd26 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -332,7 +332,7 @@ def parseDoubleNestedList(data, maxsize):
         results.append("")
 
     if len(results) > maxsize:
-        if ParserContext.INVALID_ADR_N_VALUES == ParserContext.PARSER_FIX:
+        if ParserContext.INVALID_ADR_N_VALUES in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
             results = results[:maxsize]
         elif ParserContext.INVALID_ADR_N_VALUES == ParserContext.PARSER_RAISE:
             raise ValueError("ADR: too many components in value")
diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 03cd684..0a88ff2 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -40,7 +40,9 @@ class Adr(ValueMixin):
         self.mValue = (pobox, extended, street, locality, region, postalcode, country)
 
     def duplicate(self):
-        return Adr(*self.mValue)
+        result = Adr()
+        result.setValue(self.mValue)
+        return result
 
     def __hash__(self):
         return hash(self.mValue)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 38bf6a0..926b7a1 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -38,7 +38,9 @@ class N(ValueMixin):
         self.mValue = (last, first, middle, prefix, suffix)
 
     def duplicate(self):
-        return N(*self.mValue)
+        result = N()
+        result.setValue(self.mValue)
+        return result
 
     def __hash__(self):
         return hash(self.mValue)
-- 
2.43.0


From 4e77599bbed794d362b8ef1b0ef82624635e1f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:50 +0000
Subject: [PATCH 85/90] fix: comments and blank lines anywhere in tzdata files,
 and a last line without its end

---
 src/zonal/tzconvert.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 0bdba7d..619e242 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -56,9 +56,9 @@ class tzconvert(object):
                 ctr = 0
                 for line in f:
                     ctr += 1
-                    line = line[:-1]
+                    line = self.stripLine(line)
                     while True:
-                        if line.startswith("#") or len(line) == 0:
+                        if len(line) == 0:
                             break
                         elif line.startswith("Rule"):
                             self.parseRule(line)
@@ -70,14 +70,19 @@ class tzconvert(object):
                         elif line.startswith("Link"):
                             self.parseLink(line)
                             break
-                        elif len(line.strip()) != 0:
-                            assert False, "Could not parse line %d from tzconvert file: '%s'" % (ctr, line,)
                         else:
-                            break
+                            assert False, "Could not parse line %d from tzconvert file: '%s'" % (ctr, line,)
         except:
             print("Failed to parse file %s" % (file,))
             raise
 
+    @staticmethod
+    def stripLine(line):
+        """
+        Remove any comment, trailing white space and line ending (which the last line may not have).
+        """
+        return line.split("#", 1)[0].rstrip()
+
     def parseRule(self, line):
         ruleitem = rule.Rule()
         ruleitem.parse(line)
@@ -88,11 +93,11 @@ class tzconvert(object):
         os.write(line)
         last_line = None
         for nextline in f:
-            nextline = nextline[:-1]
+            nextline = self.stripLine(nextline)
             if nextline.startswith("\t") or nextline.startswith(" "):
                 os.write("\n")
                 os.write(nextline)
-            elif nextline.startswith("#") or len(nextline) == 0:
+            elif len(nextline) == 0:
                 continue
             else:
                 last_line = nextline
-- 
2.43.0


From 9e320e26d7180a32d3e1a57aaf1ca72a237ac247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:50 +0000
Subject: [PATCH 86/90] fix: a zone file made for a link changes nothing but
 the name of the zone

---
 src/zonal/tzconvert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 619e242..5925797 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -200,7 +200,8 @@ class tzconvert(object):
 
                 with open(fromPath) as f:
                     icsdata = f.read()
-                icsdata = icsdata.replace(linkFrom, linkTo)
+                for name in ("TZID", "X-LIC-LOCATION"):
+                    icsdata = icsdata.replace("\n%s:%s" % (name, linkFrom), "\n%s:%s" % (name, linkTo))
 
                 toPath = os.path.join(outputdir, linkTo + ".ics")
                 if not os.path.exists(os.path.dirname(toPath)):
-- 
2.43.0


From e21c89122d8b7d6f3b1a8708ea86066f46ca1d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:50 +0000
Subject: [PATCH 87/90] fix: zone files for links to links

---
 src/zonal/tzconvert.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 5925797..cd66254 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -192,8 +192,14 @@ class tzconvert(object):
             link_list = []
             for linkTo, linkFrom in sorted(self.links.iteritems(), key=lambda x: x[0]):
 
+                # A link can be to another link (which may not have been written yet)
+                zoneFrom = linkFrom
+                for _ignore in self.links:
+                    if zoneFrom not in self.zones:
+                        zoneFrom = self.links.get(zoneFrom, zoneFrom)
+
                 # Check for existing output file
-                fromPath = os.path.join(outputdir, linkFrom + ".ics")
+                fromPath = os.path.join(outputdir, zoneFrom + ".ics")
                 if not os.path.exists(fromPath):
                     print("Missing link from: %s to %s" % (linkFrom, linkTo,))
                     continue
@@ -201,7 +207,7 @@ class tzconvert(object):
                 with open(fromPath) as f:
                     icsdata = f.read()
                 for name in ("TZID", "X-LIC-LOCATION"):
-                    icsdata = icsdata.replace("\n%s:%s" % (name, linkFrom), "\n%s:%s" % (name, linkTo))
+                    icsdata = icsdata.replace("\n%s:%s" % (name, zoneFrom), "\n%s:%s" % (name, linkTo))
 
                 toPath = os.path.join(outputdir, linkTo + ".ics")
                 if not os.path.exists(os.path.dirname(toPath)):
-- 
2.43.0


From 901ac6855678e17392427bff3b06b2848167cef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:13 +0000
Subject: [PATCH 88/90] fix: the length of a period put in another timezone is
 worked out again

---
 src/pycalendar/period.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 4a323dc..795d2ec 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -82,6 +82,8 @@ class Period(ValueMixin):
             self.mEnd = None
         else:
             self.mEnd.setTimezoneID(tzid)
+            # Across a change of the timezone offset the length is different
+            self.mDuration = None
 
     @classmethod
     def parseText(cls, data):
-- 
2.43.0


From 810218c4128f79e848c5f9caaf826fa4ae02ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:13 +0000
Subject: [PATCH 89/90] fix: instances last as long as their event across a
 change of the timezone offset

---
 src/pycalendar/datetime.py                    | 15 +++++++++++++++
 src/pycalendar/icalendar/calendar.py          |  4 ++--
 src/pycalendar/icalendar/componentexpanded.py | 14 ++++++++++++--
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 9a25753..594a973 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -130,6 +130,21 @@ class DateTime(ValueMixin):
         result.normalise()
         return result
 
+    def addExact(self, duration):
+        """
+        Add a duration that is an exact length of time, i.e., one that does not depend on whether the
+        offset of the timezone changes in the meantime.
+
+        @param duration: the length of time
+        @type duration: L{Duration}
+        """
+        if self.mDateOnly or not self.local():
+            return self + duration
+        result = self.duplicate()
+        result.adjustToUTC()
+        result = result + duration
+        return result.adjustTimezone(self.getTimezone())
+
     def __sub__(self, dateorduration):
 
         if isinstance(dateorduration, DateTime):
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 38bb5d0..bf981af 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -416,9 +416,9 @@ class Calendar(ContainerBase):
         if newcomp.getType() == definitions.cICalComponent_VTODO:
             if newcomp.hasProperty(definitions.cICalProperty_DUE):
                 newcomp.removeProperties(definitions.cICalProperty_DUE)
-                newcomp.addProperty(Property(definitions.cICalProperty_DUE, newdtstartValue + oldduration))
+                newcomp.addProperty(Property(definitions.cICalProperty_DUE, newdtstartValue.addExact(oldduration)))
         elif newcomp.getType() == definitions.cICalComponent_VEVENT and not newcomp.useDuration():
-            prop = Property(definitions.cICalProperty_DTEND, newdtstartValue + oldduration)
+            prop = Property(definitions.cICalProperty_DTEND, newdtstartValue.addExact(oldduration))
             newcomp.addProperty(prop)
 
         newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue))
diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 446c291..ce9a464 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -15,6 +15,7 @@
 ##
 
 from pycalendar.datetime import DateTime
+from pycalendar.icalendar import definitions
 
 
 class ComponentExpanded(object):
@@ -95,6 +96,15 @@ class ComponentExpanded(object):
         now = DateTime.getNowUTC()
         return self.mInstanceStart <= now and self.mInstanceEnd > now
 
+    def instanceEnd(self):
+        # An owner with an end gives each instance the same exact length, even if the offset of the timezone
+        # changes during the owner or the instance
+        if self.mOwner.useDuration():
+            duration = self.mOwner.loadValueDuration(definitions.cICalProperty_DURATION)
+            if duration is not None:
+                return self.mInstanceStart + duration
+        return self.mInstanceStart.addExact(self.mOwner.getEnd() - self.mOwner.getStart())
+
     def initFromOwner(self, rid):
         # There are four possibilities here:
         #
@@ -126,7 +136,7 @@ class ComponentExpanded(object):
 
             # End is based on original events settings
             # (which may be an end, a duration, or the whole day of an all day event)
-            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
+            self.mInstanceEnd = self.instanceEnd()
 
             # An instance that is added as a period has its own end
             for period in self.mOwner.getRecurrenceSet().getPeriods():
@@ -152,6 +162,6 @@ class ComponentExpanded(object):
             self.mInstanceStart = rid + (self.mOwner.getStart() - self.mOwner.getRecurrenceID())
 
             # End is based on duration of owner
-            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
+            self.mInstanceEnd = self.instanceEnd()
 
             self.mRecurring = True
-- 
2.43.0


From 00eedacf994af66e4fe3729bc15eb2a14789b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:30 +0000
Subject: [PATCH 90/90] fix: with several RANGE=THISANDPRIOR overrides an
 instance follows the nearest later one

---
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 2c7d6e0..d580716 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -442,7 +442,7 @@ class ComponentRecur(Component):
                             slave = None
 
                             # Find most appropriate THISANDPRIOR item
-                            for i in range(len(prior) - 1, -1, -1):
+                            for i in range(len(prior)):
                                 riter2 = prior[i]
                                 if riter2.getRecurrenceID() > iter1:
                                     slave = riter2
-- 
2.43.0

