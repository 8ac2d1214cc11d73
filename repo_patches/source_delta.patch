From b7ba10054fce4347d40952d26ce793ec91f880fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 01/36] fix: do not print to stdout when decoding a trend time
 period

---
 aeromet_py/reports/models/metar/weather_trend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 3bc09a2..7263f42 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -94,7 +94,6 @@ class ChangePeriod(Forecast):
         old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
-        print(self._change_indicator.period_at)
 
         self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
-- 
2.43.0


From d0d6c430a8e13d7d6e69ef8122d8075961684715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 02/36] fix: give every iteration over a group list its own
 position

---
 aeromet_py/reports/models/base/group.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index 680baef..b60504a 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -2,7 +2,7 @@ import json
 
 from abc import ABCMeta, abstractmethod
 from collections import namedtuple
-from typing import Any, Dict, Generic, List, Optional, TypeVar
+from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
 from .errors import RangeError
 
@@ -53,24 +53,14 @@ class GroupList(Generic[G]):
     report from land stations."""
 
     def __init__(self, max_items: int) -> None:
-        self._n = 0
         self._max_items = max_items
         self._list: List[G] = []
 
     def __str__(self) -> str:
         return " | ".join(str(group) for group in self._list)
 
-    def __iter__(self) -> "GroupList[G]":
-        return self
-
-    def __next__(self) -> G:
-        if self._n >= len(self._list):
-            self._n = 0
-            raise StopIteration
-
-        index = self._n
-        self._n += 1
-        return self._list[index]
+    def __iter__(self) -> Iterator[G]:
+        return iter(self._list)
 
     def __getitem__(self, index: int) -> G:
         if index >= self._max_items:
-- 
2.43.0


From 5cdd2a09cd4132225a37206016754b7e69b21d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:55 +0000
Subject: [PATCH 03/36] fix: cloud ceiling query failed on layers without
 reported height

---
 aeromet_py/reports/models/base/cloud.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f9e1cd3..7fee578 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -204,6 +204,10 @@ class CloudList(GroupList[Cloud]):
         for group in self._list:
             _oktas: str = group.oktas
             _height: float = group.height_in_feet
-            if _oktas in ["5-7", "8"] and _height <= 1500.0:
+            if (
+                _oktas in ["5-7", "8"]
+                and _height is not None
+                and _height <= 1500.0
+            ):
                 return True
         return False
-- 
2.43.0


From 7c18e47da8b39b15e85b1490f6bf5822881b0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 04/36] fix: report VFR also for visibilities and ceilings over
 the largest limit

---
 aeromet_py/reports/models/base/flight_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index 23002d2..121ed96 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -62,5 +62,5 @@ class FlightRulesMixin:
             elif prevailing is None and ceiling is not None:
                 if ceiling < rules[0]:
                     return flight_rule
-            else:
-                return "VFR"
+
+        return "VFR"
-- 
2.43.0


From 55b40246cb9b81ce97416e1e033c8a6128c8971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 05/36] fix: compare the cloud cover by value in the CAVOK
 analysis

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 2f4e618..8dbe325 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -42,7 +42,7 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             return False
 
         for c in self.clouds:
-            if c.cover is "indefinite ceiling":
+            if c.cover == "indefinite ceiling":
                 return False
 
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
-- 
2.43.0


From bbb5bafe449f0882785e2bf689146d675b3bbaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 06/36] fix: joining sea miles visibility added an empty group
 to the section

---
 aeromet_py/utils/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b91cea4..dca28c2 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,13 +14,13 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)\s?"
+    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)(?!\S)"
 
     for _ in range(3):
         match = re.search(regex, report)
 
         try:
-            report = re.sub(regex, " {}_{} ".format(*match.groups()), report, count=1)
+            report = re.sub(regex, " {}_{}".format(*match.groups()), report, count=1)
         except AttributeError:
             break
 
-- 
2.43.0


From 3ee15d60f7beb23ec184423de44ec8f321fd9f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 07/36] fix: join only one or two digit integers with a sea
 miles fraction

---
 aeromet_py/utils/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index dca28c2..c5c6938 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,7 +14,7 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)(?!\S)"
+    regex = r"\s(?P<int>\d{1,2})\s(?P<frac>\d/\dSM)(?!\S)"
 
     for _ in range(3):
         match = re.search(regex, report)
-- 
2.43.0


From 2a27aed9382bb39a867565556f9e4d1443bd60f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 08/36] fix: blanks around the report terminator decoded as an
 empty weather group

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 aeromet_py/reports/models/base/report.py   | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 7f66718..36a8c29 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -35,7 +35,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split(" "):
+    for group in section.split():
         unparsed_groups.append(group)
         counter = 0
 
diff --git a/aeromet_py/reports/models/base/report.py b/aeromet_py/reports/models/base/report.py
index 6b9bedd..ac7f633 100755
--- a/aeromet_py/reports/models/base/report.py
+++ b/aeromet_py/reports/models/base/report.py
@@ -16,11 +16,9 @@ class Report(StringAttributeMixin, TimeMixin, metaclass=ABCMeta):
     def __init__(self, code: str, truncate: bool = False, type: str = "METAR") -> None:
         assert code != "", "code must be a non-empty string"
 
-        code = code.strip()
         self._truncate = truncate
 
-        self._raw_code: str = re.sub(r"\s{2,}|\n+|\t+", " ", code)
-        self._raw_code = self._raw_code.replace("=", "")
+        self._raw_code: str = " ".join(code.replace("=", "").split())
         self._unparsed_groups: List[str] = []
         self._sections: List[str] = []
 
-- 
2.43.0


From 792217928fbd78528c0ffe794ca607d1a48d7226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 09/36] fix: TAF visibility matched any group starting with
 four digits

---
 aeromet_py/utils/taf_regexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index bd14d77..11c78b1 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -21,12 +21,12 @@ class TafRegExp:
     )
 
     VISIBILITY = (
-        r"^(?P<vis>\d{4})"
+        r"^((?P<vis>\d{4})"
         r"(?P<dir>[NSEW]([EW])?)?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
-        r"(?P<cavok>CAVOK)$"
+        r"(?P<cavok>CAVOK))$"
     )
 
     TEMPERATURE = (
-- 
2.43.0


From 6cbb63a243d19021eb45f3b5cdbdd76b4e3acc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 10/36] fix: TAF temperature matched groups with trailing
 garbage

---
 aeromet_py/utils/taf_regexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index 11c78b1..4ed5c00 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -30,11 +30,11 @@ class TafRegExp:
     )
 
     TEMPERATURE = (
-        r"T(?P<type>N|X)"
+        r"^T(?P<type>N|X)"
         r"(?P<sign>M)?"
         r"(?P<temp>\d{2})/"
         r"(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-3])Z"
+        r"(?P<hour>[0-1]\d|2[0-3])Z$"
     )
 
     CHANGE_INDICATOR = (
-- 
2.43.0


From 88d379a242c9015e38ea5900c599af059a765358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 11/36] fix: change indicators matched groups with trailing
 garbage

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/taf_regexp.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1fa664f..8a84b4b 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -93,7 +93,7 @@ class MetarRegExp:
         r"(?P<clrd>CLRD//))$"
     )
 
-    CHANGE_INDICATOR = r"^TEMPO|BECMG|NOSIG$"
+    CHANGE_INDICATOR = r"^(TEMPO|BECMG|NOSIG)$"
 
     TREND_TIME_PERIOD = (
         r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\d|2[0-4])" r"(?P<min>[0-5]\d)$"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index 4ed5c00..f3b6611 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -38,9 +38,9 @@ class TafRegExp:
     )
 
     CHANGE_INDICATOR = (
-        r"^TEMPO|BECMG"
+        r"^(TEMPO|BECMG"
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?$"
+        r"|PROB[34]0(_TEMPO)?)$"
     )
-- 
2.43.0


From 55e15e0d4eef57c5a929c4182379034ff51a39f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 12/36] fix: visibility with an impossible direction (EW,
 WW...) raised ValueError

---
 aeromet_py/utils/metar_regexp.py | 4 ++--
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 8a84b4b..697f3f1 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -25,14 +25,14 @@ class MetarRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
 
-    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NSEW]([EW])?)?$"
+    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NS][EW]?|[EW])?$"
 
     RUNWAY_RANGE = (
         r"^R(?P<name>\d{2}[RLC]?)/"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index f3b6611..e18f290 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -22,7 +22,7 @@ class TafRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4})"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
-- 
2.43.0


From 206e491eaff6d16272035dab9d2c9a157b2b9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 13/36] fix: visibility with a zero denominator raised
 ZeroDivisionError

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 697f3f1..d2acde5 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -27,7 +27,7 @@ class MetarRegExp:
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index e18f290..6c60ef6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -24,7 +24,7 @@ class TafRegExp:
         r"^((?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
-- 
2.43.0


From dadc6dff7035dc4e5652e3de1e5a4f6ad437d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 14/36] fix: fraction of a visibility in kilometers was ignored
 or raised TypeError

---
 aeromet_py/reports/models/metar/visibility.py | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index e50df17..26c3ba3 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -139,8 +139,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
                     self._visibility = self._from_sea_miles(_integer, _fraction)
 
                 if _units == "KM":
-                    _in_meters = int(_integer) * 1000
-                    self._visibility = Distance("{:04d}".format(_in_meters))
+                    self._visibility = self._from_kilometers(_integer, _fraction)
 
             if _dir:
                 self._direction = Direction.from_cardinal(_dir)
@@ -158,14 +157,10 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
 
         return super().__str__()
 
-    def _from_sea_miles(
+    def _sum_quantities(
         self, integer: Optional[str], fraction: Optional[str]
-    ) -> Distance:
-        """Helper to handle the visibility from sea miles.
-        Args:
-            integer (str | None): the integer value of visibility in METAR if provided.
-            fraction (str | None): the fraction value of the visibility in METAR if provided.
-        """
+    ) -> float:
+        """Helper to sum the integer and the fraction of the visibility."""
         _fraction: float
         if fraction:
             _items = fraction.split("/")
@@ -179,6 +174,26 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             _integer: float = float(integer)
             _vis += _integer
 
+        return _vis
+
+    def _from_kilometers(
+        self, integer: Optional[str], fraction: Optional[str]
+    ) -> Distance:
+        """Helper to handle the visibility from kilometers."""
+        _vis: float = self._sum_quantities(integer, fraction)
+
+        return Distance("{}".format(_vis * Conversions.KM_TO_M))
+
+    def _from_sea_miles(
+        self, integer: Optional[str], fraction: Optional[str]
+    ) -> Distance:
+        """Helper to handle the visibility from sea miles.
+        Args:
+            integer (str | None): the integer value of visibility in METAR if provided.
+            fraction (str | None): the fraction value of the visibility in METAR if provided.
+        """
+        _vis: float = self._sum_quantities(integer, fraction)
+
         return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
 
     @property
-- 
2.43.0


From 317e525df88494590ccf1f3054a2c3bfb2cc4407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 15/36] fix: report time with hour 24 raised ValueError

---
 aeromet_py/reports/models/base/time.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/aeromet_py/reports/models/base/time.py b/aeromet_py/reports/models/base/time.py
index 0cecbef..de36b5b 100755
--- a/aeromet_py/reports/models/base/time.py
+++ b/aeromet_py/reports/models/base/time.py
@@ -1,6 +1,6 @@
 import re
 
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Dict, Optional
 
 from .group import Group
@@ -43,14 +43,10 @@ class Time(Group):
             if minute is None:
                 minute = "00"
 
-            generated_date: str = "{}{:02d}{}{}{}".format(
-                year,
-                month,
-                day,
-                hour,
-                minute,
+            # The hour 24 is the midnight at the end of the day
+            self._time = datetime(year, month, int(day), 0, int(minute)) + timedelta(
+                hours=int(hour)
             )
-            self._time = datetime.strptime(generated_date, "%Y%m%d%H%M")
 
     @classmethod
     def from_metar(
-- 
2.43.0


From dc1003f2e379544b24442429fcac3342391d17b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 16/36] fix: a day that does not exist in the month raised
 ValueError

---
 aeromet_py/reports/models/base/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 36a8c29..6b22724 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -44,9 +44,15 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
             counter += 1
 
             if match:
+                try:
+                    group_handler.handler(match)
+                except ValueError:
+                    # The format is right but the value is impossible,
+                    # e.g. the day 31 in a month of 30 days
+                    continue
+
                 index += counter
-                group_handler.handler(match)
-                unparsed_groups.remove(group)
+                unparsed_groups.pop()
                 break
 
     return unparsed_groups
-- 
2.43.0


From dc08a033be2e2263b06bf66f406284aaa11a1646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:25 +0000
Subject: [PATCH 17/36] fix: TAF valid periods more than one day after their
 reference had a wrong date

---
 aeromet_py/reports/models/taf/valid.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/aeromet_py/reports/models/taf/valid.py b/aeromet_py/reports/models/taf/valid.py
index e45759b..3f84f93 100755
--- a/aeromet_py/reports/models/taf/valid.py
+++ b/aeromet_py/reports/models/taf/valid.py
@@ -44,17 +44,13 @@ class Valid(Group):
             _tlday: int = int(match.group("tlday"))
             _tlhour: int = int(match.group("tlhour"))
 
-            _from: datetime
-            _until: datetime
-            if _fmday == time.day:
-                _from = time
-            else:
-                _from = time + timedelta(days=1)
-
-            if _tlday == time.day:
-                _until = time
-            else:
-                _until = time + timedelta(days=1)
+            _from: datetime = time
+            while _fmday != _from.day:
+                _from = _from + timedelta(days=1)
+
+            _until: datetime = _from
+            while _tlday != _until.day:
+                _until = _until + timedelta(days=1)
 
             if _tlhour == 24:
                 _until = _until + timedelta(days=1)
-- 
2.43.0


From fc5a9cb05bf45f66ccc15aadd6c90889d5722347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:28 +0000
Subject: [PATCH 18/36] fix: TAF temperatures more than one day after the issue
 had a wrong date

---
 aeromet_py/reports/models/taf/temperature.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/temperature.py b/aeromet_py/reports/models/taf/temperature.py
index 096fb16..4be2b15 100755
--- a/aeromet_py/reports/models/taf/temperature.py
+++ b/aeromet_py/reports/models/taf/temperature.py
@@ -32,11 +32,10 @@ class TafTemperature(Temperature, Group):
             _hour: int = int(match.group("hour"))
 
             time = time.replace(hour=_hour)
-            if _day == time.day:
-                self._time = Time(time=time)
-            else:
+            while _day != time.day:
                 time = time + timedelta(days=1)
-                self._time = Time(time=time)
+
+            self._time = Time(time=time)
 
     def __str__(self) -> str:
         if self._value is None:
-- 
2.43.0


From 9dc43d08812a38de2d239b8b3df5c37615f74ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 19/36] fix: trend time period with hour 24 was set one hour
 late

---
 aeromet_py/reports/models/metar/trend_indicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index ef5f9b3..e2d0b5f 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -40,7 +40,8 @@ class MetarTrendIndicator(ChangeIndicator):
         hour: str = match.group("hour")
         minute: str = match.group("min")
 
-        hour_as_int: int = int(hour)
+        # The hour 24 is the midnight at the end of the day
+        hour_as_int: int = int(hour) % 24
         min_as_int: int = int(minute)
 
         _time: datetime
-- 
2.43.0


From aa518702e1557aba4596f29b45ab9f7f327f1bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 20/36] fix: pressure in hundredths of inches without units was
 100 times larger

---
 aeromet_py/reports/models/metar/pressure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/pressure.py b/aeromet_py/reports/models/metar/pressure.py
index da68079..59d12fc 100755
--- a/aeromet_py/reports/models/metar/pressure.py
+++ b/aeromet_py/reports/models/metar/pressure.py
@@ -28,7 +28,7 @@ class MetarPressure(Pressure, Group):
                 elif _units in ["Q", "QNH"]:
                     _pressure = _pressure * 1
                 elif _pressure > 2500.0:
-                    _pressure = _pressure * Conversions.INHG_TO_HPA
+                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                 else:
                     _pressure = _pressure * Conversions.MBAR_TO_HPA
 
-- 
2.43.0


From 327e52ca76e42c381aeb158d588760d4e0875d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 21/36] fix: overcast layers written with a zero (0VC) had no
 cover

---
 aeromet_py/reports/models/base/cloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 7fee578..8c05dcd 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -93,7 +93,7 @@ class Cloud(Group):
 
         if match is not None:
             _code = match.string
-            cover: str = match.group("cover")
+            cover: str = match.group("cover").replace("0", "O")
 
             _cover = SKY_COVER.get(cover, None)
             _oktas = _set_oktas(cover)
-- 
2.43.0


From 04be176d4e0031160ce13f0b4aac5e119e144ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 22/36] fix: change periods with an unknown indicator raised
 AttributeError or TypeError

---
 aeromet_py/reports/models/metar/trend_indicator.py | 5 ++++-
 aeromet_py/reports/models/metar/weather_trend.py   | 5 ++++-
 aeromet_py/reports/models/taf/change_forecast.py   | 7 +++----
 aeromet_py/reports/models/taf/change_indicator.py  | 5 ++++-
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index e2d0b5f..d57628c 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -31,7 +31,10 @@ class MetarTrendIndicator(ChangeIndicator):
 
     def add_period(self, match: re.Match) -> None:
         """Helper to add periods of time to the change indicator."""
-        self._code += f" {match.string}"
+        if self._code is None:
+            self._code = match.string
+        else:
+            self._code += f" {match.string}"
 
         # The middle time between self._init_period and self._end_period
         middle_time: datetime = self._init_period.time + timedelta(hours=1)
diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 7263f42..ac45247 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -95,7 +95,10 @@ class ChangePeriod(Forecast):
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
 
-        self._string = self._string.replace(old_change_indicator, new_change_indicator)
+        if old_change_indicator:
+            self._string = self._string.replace(
+                old_change_indicator, new_change_indicator
+            )
 
     def _parse(self) -> None:
         handlers: List[GroupHandler] = [
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 01eafd8..ce64894 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -84,15 +84,14 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
 
                 last_change: ChangeForecasted = self._list.pop()
                 while True:
-                    if last_change.change_indicator.code.startswith(
-                        "PROB"
-                    ) or last_change.change_indicator.code.startswith("TEMPO"):
+                    last_code: str = last_change.change_indicator.code or ""
+                    if last_code.startswith("PROB") or last_code.startswith("TEMPO"):
                         temp_changes.append(last_change)
                         try:
                             last_change = self._list.pop()
                         except IndexError:
                             break
-                    elif last_change.change_indicator.code.startswith("FM"):
+                    elif last_code.startswith("FM"):
                         last_change.change_indicator.reset_until_period(
                             new_change.change_indicator.valid.period_from
                         )
diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 2cc4e5d..19862a5 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -44,6 +44,9 @@ class TafChangeIndicator(ChangeIndicator):
         """
         self._valid = Valid.from_taf(match, init_time.time)
 
+        if self._code is None:
+            return
+
         if self._code.startswith("FM"):
             self._translation = f"{self._valid}"
         else:
@@ -60,7 +63,7 @@ class TafChangeIndicator(ChangeIndicator):
             applies to.
         """
         until = Time(time=until.time - timedelta(hours=1))
-        if self._code.startswith("FM"):
+        if self._code is not None and self._code.startswith("FM"):
             self._valid = Valid(None, self._valid.period_from, until)
             self._translation = f"{self._valid}"
 
-- 
2.43.0


From 72ac487ff5ce305f4d1e3ac6222ff95fbf9607d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:16 +0000
Subject: [PATCH 23/36] fix: an unknown change indicator changed the end of the
 previous FM period

---
 aeromet_py/reports/models/taf/change_forecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index ce64894..2d29a13 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -79,7 +79,8 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
     def add(self, new_change: ChangeForecasted) -> None:
         """Adds weather changes to the list."""
         if len(self._list) > 0:
-            if new_change.code.startswith("FM") or new_change.code.startswith("BECMG"):
+            new_code: str = new_change.change_indicator.code or ""
+            if new_code.startswith("FM") or new_code.startswith("BECMG"):
                 temp_changes: List[ChangeForecasted] = []
 
                 last_change: ChangeForecasted = self._list.pop()
-- 
2.43.0


From 605bd5f581dc2571f1a1548727a3510abb3a5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 24/36] fix: only the first five PROB TEMPO indicators of a TAF
 were joined

---
 aeromet_py/utils/parser.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index c5c6938..33b9583 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -59,15 +59,6 @@ def sanitize_change_indicator(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
-    pattern = re.compile(fmt)
-    for _ in range(5):
-        match = pattern.search(report)
-        if match:
-            report = re.sub(
-                fmt, "PROB{}_TEMPO".format(match.group("percent")), report, count=1
-            )
-        else:
-            break
-
-    return report
+    return re.sub(
+        r"PROB(?P<percent>[34]0)\sTEMPO", r"PROB\g<percent>_TEMPO", report
+    )
-- 
2.43.0


From e9963794fe1704e9b65181303fac7e190b942f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 25/36] fix: amended TAF of stations starting with FM was split
 at the station

---
 aeromet_py/reports/taf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 57c8de9..0df6045 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -195,10 +195,13 @@ class Taf(
     def _handle_sections(self) -> None:
         keywords: List[str] = ["FM", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
-        if sanitized_code.startswith("TAF"):
-            sanitized_code = sanitized_code.replace("TAF ", "TAF_")
-        sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
-        sections[0] = sections[0].replace("TAF_", "TAF ")
+
+        # The station code can start with a keyword, e.g. FMEE
+        header: str = re.match(r"(TAF )?((AMD|COR) )?", sanitized_code).group()
+        sections: List[str] = split_sentence(
+            sanitized_code[len(header) :], keywords, space="left"
+        )
+        sections[0] = header + sections[0]
 
         self._body = sections[0]
         if len(sections) > 1:
-- 
2.43.0


From fbc04518f20e9d47e0b51f45a74a2809fe736f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:50 +0000
Subject: [PATCH 26/36] fix: TAF without time group ignored the given year and
 month

---
 aeromet_py/reports/taf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 0df6045..b5432f0 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -56,6 +56,9 @@ class Taf(
 
         self._handle_sections()
 
+        # Date of the report until the time group is parsed
+        self._time = Time.from_metar(year=year, month=month)
+
         # Initialize mixins
         ModifierMixin.__init__(self)
         MetarWindMixin.__init__(self)
-- 
2.43.0


From d399bfcd791c969a54d3f3503f3528f3c1af6938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 27/36] fix: default valid period of a TAF was not based on its
 time

---
 aeromet_py/reports/taf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index b5432f0..a917d1a 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -96,6 +96,8 @@ class Taf(
 
     def _handle_time(self, match: re.Match) -> None:
         self._time = Time.from_metar(match, self._year, self._month)
+        # The valid period if the report doesn't have a valid group
+        self._valid = Valid.from_taf(None, self._time.time)
 
         self._concatenate_string(self._time)
 
-- 
2.43.0


From 7edbe6df90f939500e5a2fcf3d16dd95dc7c2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:22 +0000
Subject: [PATCH 28/36] fix: a vertical bar in the report was taken as a
 section separator

---
 aeromet_py/utils/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index ab443c9..fa9e6bd 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -48,8 +48,8 @@ def split_sentence(
         pattern = re.compile(kw)
         sentence = re.sub(
             pattern,
-            "|" + kw.lstrip(),
+            "\n" + kw.lstrip(),
             sentence,
             count=count,
         )
-    return sentence.split("|")
+    return sentence.split("\n")
-- 
2.43.0


From cda7ec3ba5a88a383ba032e2db4bcb236e25a74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 29/36] fix: only the last of several remarks was kept

---
 aeromet_py/reports/metar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1680ff..df0f832 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -278,7 +278,7 @@ class Metar(
             ):
                 trend += section + " "
             elif section.startswith("RMK"):
-                remark = section
+                remark = f"{remark} {section}".strip()
             else:
                 body = section
 
-- 
2.43.0


From 6ec6dfc24448033e6982587edadd88a5719feced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 30/36] fix: text of a TAF showed outdated end times of the FM
 periods

---
 aeromet_py/reports/taf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index a917d1a..a6c1063 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -145,8 +145,6 @@ class Taf(
         cf: ChangeForecasted = ChangeForecasted(code, self._valid)
         self._changes_forecasted.add(cf)
 
-        self._concatenate_string(cf)
-
     @property
     def changes_forecasted(self) -> TafChangesForecasted:
         """Get the weather change periods data of the TAF if provided."""
@@ -186,7 +184,9 @@ class Taf(
             if change != "":
                 self._handle_change_forecasted(change)
 
+        # The period of a change can be modified by the following ones
         for cp in self._changes_forecasted:
+            self._concatenate_string(cp)
             self._unparsed_groups += cp.unparsed_groups
 
         if self.unparsed_groups and self._truncate:
-- 
2.43.0


From 5bcb90510c160817baa4c02b1a69a4f85a0b6164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 31/36] fix: FM periods less than one hour apart ended before
 they began

---
 aeromet_py/reports/models/taf/change_indicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 19862a5..e7944d6 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -62,7 +62,10 @@ class TafChangeIndicator(ChangeIndicator):
             until (Time): the until time period that this change indicator
             applies to.
         """
-        until = Time(time=until.time - timedelta(hours=1))
+        # A period can't end before it begins
+        until = Time(
+            time=max(until.time - timedelta(hours=1), self._valid.period_from.time)
+        )
         if self._code is not None and self._code.startswith("FM"):
             self._valid = Valid(None, self._valid.period_from, until)
             self._translation = f"{self._valid}"
-- 
2.43.0


From 318c8b91406acbfe6d90c7e91a8e496831e06f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 32/36] fix: values equal to zero were shown as not reported or
 without units

---
 aeromet_py/reports/models/base/cloud.py         | 4 ++--
 aeromet_py/reports/models/base/distance.py      | 2 +-
 aeromet_py/reports/models/base/pressure.py      | 2 +-
 aeromet_py/reports/models/base/temperature.py   | 2 +-
 aeromet_py/reports/models/base/wind.py          | 7 ++++---
 aeromet_py/reports/models/metar/runway_range.py | 6 +++++-
 aeromet_py/reports/models/metar/sea_state.py    | 4 ++--
 aeromet_py/reports/models/metar/temperatures.py | 2 +-
 aeromet_py/reports/models/metar/wind.py         | 2 +-
 9 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 8c05dcd..f51ae2b 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -119,14 +119,14 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value:
+        if self._type and self._height.value is not None:
             return "{} at {:.1f} feet of {}".format(
                 self._cover,
                 self.height_in_feet,
                 self._type,
             )
 
-        if self._height.value:
+        if self._height.value is not None:
             return "{} at {:.1f} feet".format(
                 self._cover,
                 self.height_in_feet,
diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index 38075d6..38b88a0 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -22,7 +22,7 @@ class Distance(Numeric):
             super().__init__(_distance)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " m"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index 2e600a5..2e0673a 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -19,7 +19,7 @@ class Pressure(Numeric):
             super().__init__(_pressure)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " hPa"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index 000e7ca..015793f 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -26,7 +26,7 @@ class Temperature(Numeric):
             super().__init__(_temperature)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°C"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 4eac983..c3c92aa 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -56,7 +56,7 @@ class Direction(Numeric):
         if self._variable:
             return "variable wind"
 
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°"
 
         return super().__str__()
@@ -152,7 +152,7 @@ class Speed(Numeric):
             super().__init__(_speed)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " kt"
 
         return super().__str__()
@@ -199,7 +199,8 @@ class Wind:
         cardinal: str = self.cardinal_direction if self.cardinal_direction else ""
 
         direction: str = str(self._direction)
-        direction = f"({self._direction})" if self._direction.value else direction
+        if self._direction.value is not None:
+            direction = f"({self._direction})"
 
         s: str = "{} {} {}".format(
             cardinal,
diff --git a/aeromet_py/reports/models/metar/runway_range.py b/aeromet_py/reports/models/metar/runway_range.py
index a9e0e95..78c9b7b 100755
--- a/aeromet_py/reports/models/metar/runway_range.py
+++ b/aeromet_py/reports/models/metar/runway_range.py
@@ -100,7 +100,11 @@ class MetarRunwayRange(Group):
         return "runway {} {}{}{}".format(
             self._name,
             self.low_range,
-            f" varying to {self.high_range}" if self._high_range.value else "",
+            (
+                f" varying to {self.high_range}"
+                if self._high_range.value is not None
+                else ""
+            ),
             ", " + self._trend if self._trend else "",
         )
 
diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index 3fbf8d9..f41b3fd 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -64,12 +64,12 @@ class MetarSeaState(Group):
 
         s: str = ""
 
-        if self._temperature.value:
+        if self._temperature.value is not None:
             s += f"temperature {self._temperature}, "
         else:
             s += "no temperature, "
 
-        if self._height.value:
+        if self._height.value is not None:
             s += f"significant wave height {self._height}, "
         else:
             s += "no significant wave height, "
diff --git a/aeromet_py/reports/models/metar/temperatures.py b/aeromet_py/reports/models/metar/temperatures.py
index 62b3230..e520575 100755
--- a/aeromet_py/reports/models/metar/temperatures.py
+++ b/aeromet_py/reports/models/metar/temperatures.py
@@ -28,7 +28,7 @@ class MetarTemperatures(Group):
     def __str__(self) -> str:
         if self._temperature.value is None and self._dewpoint.value is None:
             return ""
-        elif self._temperature.value is None and self._dewpoint.value:
+        elif self._temperature.value is None and self._dewpoint.value is not None:
             return f"no temperature | dewpoint: {self._dewpoint}"
         elif self._temperature.value is not None and self._dewpoint.value is None:
             return f"temperature: {self._temperature} | no dewpoint"
diff --git a/aeromet_py/reports/models/metar/wind.py b/aeromet_py/reports/models/metar/wind.py
index 1721bd8..476771c 100755
--- a/aeromet_py/reports/models/metar/wind.py
+++ b/aeromet_py/reports/models/metar/wind.py
@@ -29,7 +29,7 @@ class MetarWind(Wind, Group):
             self._gust = Speed(_gst)
 
     def __str__(self) -> str:
-        gust: str = " gust of " + str(self._gust) if self._gust.value else ""
+        gust: str = " gust of " + str(self._gust) if self._gust.value is not None else ""
 
         return super().__str__() + gust
 
-- 
2.43.0


From c850ecc7affa42a906a4a736d85c49822c830743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:30 +0000
Subject: [PATCH 33/36] fix: text of a TAF change lost its decoded conditions

---
 aeromet_py/reports/models/taf/change_forecast.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 2d29a13..cd5a812 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -30,10 +30,8 @@ class ChangeForecasted(Forecast):
         self._parse()
 
     def __str__(self) -> str:
-        self._string = ""
-        self._concatenate_string(self._change_indicator)
-
-        return self._string
+        # The period of the change can be modified by the following ones
+        return f"{self._change_indicator}\n{self._string}".strip()
 
     def _handle_change_indicator(self, match: re.Match) -> None:
         self._change_indicator = TafChangeIndicator(match, self._valid)
-- 
2.43.0


From 9de3d69c99a559c6cf2a3fac2794bf8f2c0baa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 34/36] fix: text of a cloud layer without height lost its type
 of cloud

---
 aeromet_py/reports/models/base/cloud.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f51ae2b..1ea207e 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -132,17 +132,12 @@ class Cloud(Group):
                 self.height_in_feet,
             )
 
-        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///"]]:
-            return self._cover
+        type_: str = f" of {self._type}" if self._type else ""
 
-        if self._cover == SKY_COVER["VV"]:
-            if self._height.value:
-                return self._cover + f" at {self.height_in_feet} feet"
-            return self._cover
+        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///", "VV"]]:
+            return self._cover + type_
 
-        return "{} at undefined height".format(
-            self._cover,
-        )
+        return "{} at undefined height{}".format(self._cover, type_)
 
     @property
     def cover(self) -> Optional[str]:
-- 
2.43.0


From 052826e576fcdca4703263f4d73c9620fac9558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:18 +0000
Subject: [PATCH 35/36] fix: the names of wind shear runways contained None for
 WS ALL RWY

---
 aeromet_py/reports/models/metar/windshear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/windshear.py b/aeromet_py/reports/models/metar/windshear.py
index 5a5d7d1..8fc4dfb 100755
--- a/aeromet_py/reports/models/metar/windshear.py
+++ b/aeromet_py/reports/models/metar/windshear.py
@@ -76,7 +76,7 @@ class MetarWindshearList(GroupList[MetarWindshearRunway]):
         if self.all_runways:
             return []
 
-        return [runway.name for runway in self._list]
+        return [runway.name for runway in self._list if runway.name is not None]
 
     @property
     def all_runways(self) -> bool:
-- 
2.43.0


From c0c4e4656c25309ef56e2899f7d9e6942708b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:03 +0000
Subject: [PATCH 36/36] fix: METARs with a runway state could not be pickled

---
 aeromet_py/reports/models/metar/runway_state.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/metar/runway_state.py b/aeromet_py/reports/models/metar/runway_state.py
index be9eefe..9ecf6ce 100755
--- a/aeromet_py/reports/models/metar/runway_state.py
+++ b/aeromet_py/reports/models/metar/runway_state.py
@@ -71,7 +71,8 @@ class MetarRunwayState(Group):
     def __init__(self, match: Optional[re.Match]) -> None:
         self._snoclo: bool = False
         self._clrd: bool = False
-        self._match = match
+        # Not the match itself, which can't be pickled
+        self._groups = None if match is None else match.groupdict()
 
         if match is None:
             super().__init__(None)
@@ -126,8 +127,8 @@ class MetarRunwayState(Group):
 
     def _deposits_to_str(self) -> str:
         """Helper to convert deposits to string."""
-        deposit = self._match.group("deposit")
-        depth = self._match.group("depth")
+        deposit = self._groups["deposit"]
+        depth = self._groups["depth"]
 
         if deposit == "/":
             if depth == "99" or depth == "//":
@@ -155,7 +156,7 @@ class MetarRunwayState(Group):
 
     def _surface_friction_to_str(self) -> str:
         """Helper to convert the surface friction to string."""
-        friction = self._match.group("fric")
+        friction = self._groups["fric"]
 
         if friction is not None:
             try:
@@ -171,7 +172,7 @@ class MetarRunwayState(Group):
             return ""
 
     def __str__(self) -> str:
-        if self._match is None:
+        if self._groups is None:
             return ""
 
         if self.snoclo:
-- 
2.43.0

