From 55e9ea373d3b6d241ea3004462f89393ee4de016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:19 +0000
Subject: [PATCH 01/60] fix: take the other operand's nanoseconds into account
 in Time.__lt__

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1ef0531..d9cd4c0 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1173,7 +1173,7 @@ class Time(_ImmutableBase):
     def __lt__(self, other: Time) -> bool:
         if not isinstance(other, Time):
             return NotImplemented
-        return (self._py_time, self._nanos) < (other._py_time, self._nanos)
+        return (self._py_time, self._nanos) < (other._py_time, other._nanos)
 
     def __le__(self, other: Time) -> bool:
         if not isinstance(other, Time):
-- 
2.43.0


From 5640a769716591b71b80e7721546ee4290496947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 02/60] fix: round to nearest correctly for odd increments

---
 pysrc/whenever/_pywhenever.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d9cd4c0..1c12245 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1122,7 +1122,7 @@ class Time(_ImmutableBase):
         )
 
         if mode == "half_even":  # check the default mode first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1130,7 +1130,7 @@ class Time(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
@@ -1553,7 +1553,7 @@ class TimeDelta(_ImmutableBase):
         quotient, remainder_ns = divmod(self._total_ns, increment_ns)
 
         if mode == "half_even":  # check the default case first
-            threshold_ns = increment_ns // 2 + (quotient % 2 == 0) or 1
+            threshold_ns = (increment_ns + 1 + (quotient % 2 == 0)) // 2
         elif mode == "ceil":
             threshold_ns = 1  # Always round up
         elif mode == "floor":
@@ -1561,7 +1561,7 @@ class TimeDelta(_ImmutableBase):
         elif mode == "half_floor":
             threshold_ns = increment_ns // 2 + 1
         elif mode == "half_ceil":
-            threshold_ns = increment_ns // 2 or 1
+            threshold_ns = (increment_ns + 1) // 2
         else:
             raise ValueError(f"Invalid rounding mode: {mode!r}")
 
-- 
2.43.0


From 6ca0e1383eba875508ca7aefd07ddf2d97ec1da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 03/60] fix: parse fractional seconds of durations without
 precision loss

---
 pysrc/whenever/_pywhenever.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 1c12245..3228fb3 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1781,12 +1781,18 @@ def _unpkl_tdelta(data: bytes) -> TimeDelta:
     return TimeDelta(seconds=s, nanoseconds=ns)
 
 
+def _parse_seconds(s: str) -> int:
+    """Convert (fractional) seconds to nanoseconds, without losing precision"""
+    whole, _, fraction = s.partition(".")
+    return int(whole) * 1_000_000_000 + int(fraction.ljust(9, "0"))
+
+
 def _parse_timedelta_component(s: str, exc: Exception) -> tuple[str, int, str]:
     if (match := _match_next_timedelta_component(s)) is None:
         raise exc
     digits_maybe_fractional, unit = match.groups()
     if unit == "S":
-        value = int(float(digits_maybe_fractional) * 1_000_000_000)
+        value = _parse_seconds(digits_maybe_fractional)
     else:
         try:
             value = int(digits_maybe_fractional)
@@ -2297,7 +2303,7 @@ class DateTimeDelta(_ImmutableBase):
             days=int(days or 0),
             hours=int(hours or 0),
             minutes=int(minutes or 0),
-            seconds=float(seconds or 0),
+            nanoseconds=_parse_seconds(seconds or "0"),
         )
         return -parsed if sign == "-" else parsed
 
-- 
2.43.0


From dd8a0b5e7133769baee5aacd16216c1ea66aedae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 04/60] fix: reject durations with a seconds unit but no digits

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 3228fb3..5283ca7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5979,7 +5979,7 @@ _match_rfc3339 = re.compile(
 ).fullmatch
 _match_datetimedelta = re.compile(
     r"([-+]?)P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?"
-    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)?S)?)?",
+    r"(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+(?:\.\d{1,9})?)S)?)?",
     re.ASCII,
 ).fullmatch
 _match_time = re.compile(
-- 
2.43.0


From dbd7610975f41255d3714a5d2cdaddf85d41c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 05/60] fix: split large DateTimeDelta times without float
 precision loss

---
 pysrc/whenever/_pywhenever.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 5283ca7..c8520a7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2222,8 +2222,10 @@ class DateTimeDelta(_ImmutableBase):
         >>> d.in_months_days_secs_nanos()
         (0, 18, 14_400, 2000)
         """
-        subsec_nanos = int(fmod(self._time_part._total_ns, 1_000_000_000))
-        whole_seconds = int(self._time_part._total_ns / 1_000_000_000)
+        total_ns = self._time_part._total_ns
+        whole_seconds, subsec_nanos = divmod(abs(total_ns), 1_000_000_000)
+        if total_ns < 0:
+            whole_seconds, subsec_nanos = -whole_seconds, -subsec_nanos
         return self._date_part.in_months_days() + (whole_seconds, subsec_nanos)
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From 3cf6461e41a9f84fa0ead6567fd117b99087bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 06/60] fix: reject mixed signs when adding date and time
 deltas

---
 pysrc/whenever/_pywhenever.py | 36 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index c8520a7..7e534b6 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2000,19 +2000,13 @@ class DateDelta(_ImmutableBase):
                 days=self._days + other._days,
             )
         elif isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         else:
             return NotImplemented
 
     def __radd__(self, other: TimeDelta) -> DateTimeDelta:
         if isinstance(other, TimeDelta):
-            new = _object_new(DateTimeDelta)
-            new._date_part = self
-            new._time_part = other
-            return new
+            return DateTimeDelta._from_parts(self, other)
         return NotImplemented
 
     @overload
@@ -2318,19 +2312,18 @@ class DateTimeDelta(_ImmutableBase):
         >>> d + DateTimeDelta(months=2, days=3, minutes=90)
         DateTimeDelta(P1M1W14DT5H30M)
         """
-        new = _object_new(DateTimeDelta)
         if isinstance(other, DateTimeDelta):
-            new._date_part = self._date_part + other._date_part
-            new._time_part = self._time_part + other._time_part
+            d = self._date_part + other._date_part
+            t = self._time_part + other._time_part
         elif isinstance(other, TimeDelta):
-            new._date_part = self._date_part
-            new._time_part = self._time_part + other
+            d = self._date_part
+            t = self._time_part + other
         elif isinstance(other, DateDelta):
-            new._date_part = self._date_part + other
-            new._time_part = self._time_part
+            d = self._date_part + other
+            t = self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __radd__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
         if isinstance(other, (TimeDelta, DateDelta)):
@@ -2362,16 +2355,15 @@ class DateTimeDelta(_ImmutableBase):
         return self._from_parts(d, t)
 
     def __rsub__(self, other: TimeDelta | DateDelta) -> DateTimeDelta:
-        new = _object_new(DateTimeDelta)
         if isinstance(other, TimeDelta):
-            new._date_part = -self._date_part
-            new._time_part = other - self._time_part
+            d = -self._date_part
+            t = other - self._time_part
         elif isinstance(other, DateDelta):
-            new._date_part = other - self._date_part
-            new._time_part = -self._time_part
+            d = other - self._date_part
+            t = -self._time_part
         else:
             return NotImplemented
-        return new
+        return self._from_parts(d, t)
 
     def __eq__(self, other: object) -> bool:
         """Compare for equality
-- 
2.43.0


From f0ac95060a0508ee616cc1fa8c84e7e486489ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 07/60] fix: don't lose precision when dividing a TimeDelta by
 one of its divisors

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 7e534b6..54902ea 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1709,6 +1709,8 @@ class TimeDelta(_ImmutableBase):
         """
         if isinstance(other, TimeDelta):
             return self._total_ns / other._total_ns
+        elif isinstance(other, int) and self._total_ns % other == 0:
+            return TimeDelta(nanoseconds=self._total_ns // other)
         elif isinstance(other, (int, float)):
             return TimeDelta(nanoseconds=int(self._total_ns / other))
         return NotImplemented
-- 
2.43.0


From 8db59f06d54ebcbd52471c9ee6b356707a901d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 08/60] fix: only accept YYYY-MM-DD in Date.parse_common_iso

---
 pysrc/whenever/_pywhenever.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 54902ea..3b2a50a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -308,8 +308,8 @@ class Date(_ImmutableBase):
         >>> Date.parse_common_iso("2021-01-02")
         Date(2021-01-02)
         """
-        if s[5] == "W" or not s.isascii():
-            # prevent isoformat from parsing week dates
+        if not _match_date(s):
+            # prevent isoformat from parsing basic format and week dates
             raise ValueError(f"Invalid format: {s!r}")
         try:
             return cls._from_py_unchecked(_date.fromisoformat(s))
@@ -5987,6 +5987,7 @@ _match_next_timedelta_component = re.compile(
 _match_next_datedelta_component = re.compile(
     r"^(\d{1,8})([YMWD])", re.ASCII
 ).match
+_match_date = re.compile(r"\d{4}-\d{2}-\d{2}", re.ASCII).fullmatch
 _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
-- 
2.43.0


From bcc7be903d6def3ad7371a4ee5f7961ae0bcf16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 09/60] fix: take the timezone ID into account in
 ZonedDateTime.exact_eq

---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 3b2a50a..d4906a7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2989,12 +2989,12 @@ class _KnowsInstant(_BasicConversions):
             self._py_dt,  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
-            type(self._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(self, "tz", None),
         ) == (
             other._py_dt,  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
-            type(other._py_dt.tzinfo),  # type: ignore[attr-defined]
+            getattr(other, "tz", None),
         )
 
     def difference(
-- 
2.43.0


From b350c37806317f334cc2096a5e0ce72a4c9aa4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 10/60] fix: don't accept skipped local times when parsing
 ZonedDateTime

---
 pysrc/whenever/_pywhenever.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d4906a7..0297c7a 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -6075,6 +6075,11 @@ def _adjust_fold_to_offset(dt: _datetime, offset: _timedelta) -> _datetime:
         dt = dt.replace(fold=1)
         if dt.utcoffset() != offset:
             raise InvalidOffset()
+    # Skipped times have no valid offset
+    if dt.astimezone(_UTC).astimezone(dt.tzinfo).replace(
+        tzinfo=None
+    ) != dt.replace(tzinfo=None):
+        raise InvalidOffset()
     return dt
 
 
-- 
2.43.0


From d7cf04224f51e4605e45e7aed8b83c95edce4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 11/60] fix: validate nanosecond in LocalDateTime constructor

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 0297c7a..aabe2ba 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5286,6 +5286,8 @@ class LocalDateTime(_KnowsLocal):
         nanosecond: int = 0,
     ) -> None:
         self._py_dt = _datetime(year, month, day, hour, minute, second)
+        if nanosecond < 0 or nanosecond >= 1_000_000_000:
+            raise ValueError(f"nanosecond out of range: {nanosecond}")
         self._nanos = nanosecond
 
     def format_common_iso(self) -> str:
-- 
2.43.0


From d92607b17e09971f9b197e8575dcea22d2c79518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 12/60] fix: handle tiny negative float timestamps

---
 pysrc/whenever/_pywhenever.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index aabe2ba..0da48ca 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3258,9 +3258,9 @@ class Instant(_KnowsInstant):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC), nanos
         )
 
     @classmethod
@@ -3760,10 +3760,10 @@ class OffsetDateTime(_KnowsInstantAndLocal):
         """
         if ignore_dst is not True:
             raise ImplicitlyIgnoringDST(TIMESTAMP_DST_MSG)
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
             _fromtimestamp(secs, _load_offset(offset)),
-            int(fract * 1_000_000_000),
+            nanos,
         )
 
     @classmethod
@@ -4371,9 +4371,9 @@ class ZonedDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, ZoneInfo(tz)), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, ZoneInfo(tz)), nanos
         )
 
     @classmethod
@@ -4878,9 +4878,9 @@ class SystemDateTime(_KnowsInstantAndLocal):
 
         The inverse of the ``timestamp()`` method.
         """
-        secs, fract = divmod(i, 1)
+        secs, nanos = _split_timestamp(i)
         return cls._from_py_unchecked(
-            _fromtimestamp(secs, _UTC).astimezone(), int(fract * 1_000_000_000)
+            _fromtimestamp(secs, _UTC).astimezone(), nanos
         )
 
     @classmethod
@@ -5994,6 +5994,13 @@ _match_yearmonth = re.compile(r"\d{4}-\d{2}", re.ASCII).fullmatch
 _match_monthday = re.compile(r"--\d{2}-\d{2}", re.ASCII).fullmatch
 
 
+def _split_timestamp(i: int | float) -> tuple[int | float, int]:
+    secs, fract = divmod(i, 1)
+    if fract == 1:  # tiny negative floats are rounded up by divmod()
+        return secs + 1, 0
+    return secs, int(fract * 1_000_000_000)
+
+
 def _check_utc_bounds(dt: _datetime) -> _datetime:
     try:
         dt.astimezone(_UTC)
-- 
2.43.0


From cec733c03bb706aee693f1852254745cef1eff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 13/60] fix: check the UTC range when creating OffsetDateTime

---
 pysrc/whenever/_pywhenever.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 0da48ca..e1008b1 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3991,7 +3991,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "RFC 2822 string with missing or -0000 offset "
                 f"cannot be parsed as OffsetDateTime: {s!r}"
             )
-        return cls._from_py_unchecked(parsed, 0)
+        return cls._from_py_unchecked(_check_utc_bounds(parsed), 0)
 
     def format_rfc3339(self) -> str:
         """Format as an RFC 3339 string ``YYYY-MM-DD HH:MM:SS±HH:MM``
@@ -4157,7 +4157,9 @@ class OffsetDateTime(_KnowsInstantAndLocal):
             tdelta._total_ns + self._nanos, 1_000_000_000
         )
         return self._from_py_unchecked(
-            (py_dt_with_new_date + _timedelta(seconds=delta_secs)),
+            _check_utc_bounds(
+                py_dt_with_new_date + _timedelta(seconds=delta_secs)
+            ),
             nanos,
         )
 
@@ -5612,7 +5614,10 @@ class LocalDateTime(_KnowsLocal):
         OffsetDateTime(2020-08-15 23:12:00+02:00)
         """
         return OffsetDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=_load_offset(offset)), self._nanos
+            _check_utc_bounds(
+                self._py_dt.replace(tzinfo=_load_offset(offset))
+            ),
+            self._nanos,
         )
 
     def assume_tz(
-- 
2.43.0


From 6d28dbcaebfae8f26ee3c10254c7f81fab6861f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 14/60] fix: don't leak the fold attribute into Time and
 LocalDateTime

---
 pysrc/whenever/_pywhenever.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index e1008b1..51ea942 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -1005,7 +1005,7 @@ class Time(_ImmutableBase):
         else:
             raise TypeError(f"Expected datetime.time, got {type(t)!r}")
         return cls._from_py_unchecked(
-            t.replace(microsecond=0), t.microsecond * 1_000
+            t.replace(microsecond=0, fold=0), t.microsecond * 1_000
         )
 
     def format_common_iso(self) -> str:
@@ -2666,7 +2666,9 @@ class _KnowsLocal(_BasicConversions, ABC):
 
         >>> time.on(date).assume_tz("Europe/Paris")
         """
-        return Time._from_py_unchecked(self._py_dt.time(), self._nanos)
+        return Time._from_py_unchecked(
+            self._py_dt.time().replace(fold=0), self._nanos
+        )
 
     # We document these methods as abtract,
     # but they are actually implemented slightly different per subclass
@@ -3191,7 +3193,7 @@ class _KnowsInstantAndLocal(_KnowsLocal, _KnowsInstant):
         which may require additional arguments.
         """
         return LocalDateTime._from_py_unchecked(
-            self._py_dt.replace(tzinfo=None),
+            self._py_dt.replace(tzinfo=None, fold=0),
             self._nanos,
         )
 
@@ -5331,7 +5333,8 @@ class LocalDateTime(_KnowsLocal):
                 f"got datetime with tzinfo={d.tzinfo!r}"
             )
         return cls._from_py_unchecked(
-            _strip_subclasses(d.replace(microsecond=0)), d.microsecond * 1_000
+            _strip_subclasses(d.replace(microsecond=0, fold=0)),
+            d.microsecond * 1_000,
         )
 
     def replace(self, /, **kwargs: Any) -> LocalDateTime:
-- 
2.43.0


From 0f3b9cd9b20cefd687a212117bc77dcec6a2fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 15/60] fix: keep the UTC offset if possible when ZonedDateTime
 lands in a gap

---
 pysrc/whenever/_pywhenever.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 51ea942..5d33e3c 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5881,16 +5881,14 @@ def _resolve_ambiguity_using_prev_offset(
     dt: _datetime,
     prev_offset: _timedelta,
 ) -> _datetime:
-    if prev_offset == dt.utcoffset():
-        pass
-    elif prev_offset == dt.replace(fold=not dt.fold).utcoffset():
-        dt = dt.replace(fold=not dt.fold)
-    else:
-        # No offset match. Setting fold=0 adopts the 'compatible' strategy
-        dt = dt.replace(fold=0)
-
-    # This roundtrip ensures skipped times are shifted
-    return dt.astimezone(_UTC).astimezone(dt.tzinfo)
+    # The roundtrip ensures skipped times are shifted
+    resolved = dt.replace(fold=0).astimezone(_UTC).astimezone(dt.tzinfo)
+    if resolved.utcoffset() != prev_offset:
+        alternative = dt.replace(fold=1).astimezone(_UTC).astimezone(dt.tzinfo)
+        if alternative.utcoffset() == prev_offset:
+            return alternative
+    # If there's no offset match, fold=0 adopts the 'compatible' strategy
+    return resolved
 
 
 # Whether the fold of a system time needs to be flipped in a gap
-- 
2.43.0


From 7abe9792b70bcaee5e05628be2d4fa8880c32882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 16/60] fix: round to day boundaries on days shorter than 24
 hours or starting at a DST transition

---
 pysrc/whenever/_pywhenever.py | 40 ++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 5d33e3c..2c3443e 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4739,12 +4739,13 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         """
         increment_ns = increment_to_ns(unit, increment, any_hour_ok=False)
         if unit == "day":
-            increment_ns = day_ns = self.day_length()._total_ns
-        else:
-            day_ns = 86_400_000_000_000
+            if _rounds_to_next_day(self, mode):
+                next_date = self.date()._add_days(1)
+                return next_date.at(Time.MIDNIGHT).assume_tz(self.tz)
+            return self.start_of_day()
 
         rounded_local = self.local()._round_unchecked(
-            increment_ns, mode, day_ns
+            increment_ns, mode, 86_400_000_000_000
         )
         return self._from_py_unchecked(
             _resolve_ambiguity_using_prev_offset(
@@ -5219,12 +5220,13 @@ class SystemDateTime(_KnowsInstantAndLocal):
         """
         increment_ns = increment_to_ns(unit, increment, any_hour_ok=False)
         if unit == "day":
-            increment_ns = day_ns = self.day_length()._total_ns
-        else:
-            day_ns = 86_400_000_000_000
+            if _rounds_to_next_day(self, mode):
+                next_date = self.date()._add_days(1)
+                return next_date.at(Time.MIDNIGHT).assume_system_tz()
+            return self.start_of_day()
 
         rounded_local = self.local()._round_unchecked(
-            increment_ns, mode, day_ns
+            increment_ns, mode, 86_400_000_000_000
         )
         return self._from_py_unchecked(
             _resolve_system_ambiguity_using_prev_offset(
@@ -6007,6 +6009,28 @@ def _split_timestamp(i: int | float) -> tuple[int | float, int]:
     return secs, int(fract * 1_000_000_000)
 
 
+def _rounds_to_next_day(
+    dt: ZonedDateTime | SystemDateTime, mode: str
+) -> bool:
+    if mode == "floor":
+        return False
+    elif mode == "ceil":
+        return dt != dt.start_of_day()
+
+    # Days can be shorter or longer than 24 hours
+    twice_ns, day_ns = (
+        2 * dt.time()._to_ns_since_midnight(),
+        dt.day_length()._total_ns,
+    )
+    # Being halfway rounds down for 'half_even' as well: the quotient is 0
+    if mode in ("half_even", "half_floor"):
+        return twice_ns > day_ns
+    elif mode == "half_ceil":
+        return twice_ns >= day_ns
+    else:
+        raise ValueError(f"Invalid rounding mode: {mode!r}")
+
+
 def _check_utc_bounds(dt: _datetime) -> _datetime:
     try:
         dt.astimezone(_UTC)
-- 
2.43.0


From 93b3e6f2730205c2ff076c522bcc5efd0fd46554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 17/60] fix: restore the outer patch when patch_current_time is
 nested, and shift all types

---
 pysrc/whenever/__init__.py | 54 ++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/pysrc/whenever/__init__.py b/pysrc/whenever/__init__.py
index 9a6c035..26aed53 100644
--- a/pysrc/whenever/__init__.py
+++ b/pysrc/whenever/__init__.py
@@ -49,6 +49,7 @@ except ModuleNotFoundError as e:
 
     _EXTENSION_LOADED = False
 
+import time as _time
 from contextlib import contextmanager as _contextmanager
 from dataclasses import dataclass as _dataclass
 from typing import Iterator as _Iterator
@@ -56,24 +57,38 @@ from typing import Iterator as _Iterator
 from ._pywhenever import __version__
 
 
-@_dataclass
+@_dataclass(eq=False)
 class _TimePatch:
     _pin: "Instant | ZonedDateTime | OffsetDateTime | SystemDateTime"
     _keep_ticking: bool
+    _pinned_at: int  # actual time of pinning, as UNIX timestamp in nanoseconds
 
     def shift(self, *args, **kwargs):
+        self._pin = self._current().add(*args, **kwargs)
+        self._pinned_at = _time.time_ns()
+        if _active_patches and _active_patches[-1] is self:
+            self._apply()
+
+    def _current(self):
+        if not self._keep_ticking:
+            return self._pin
+        elapsed = TimeDelta(nanoseconds=_time.time_ns() - self._pinned_at)
+        if isinstance(self._pin, OffsetDateTime):
+            return self._pin.add(elapsed, ignore_dst=True)
+        return self._pin + elapsed
+
+    def _apply(self):
+        now = self._current()
+        instant = now if isinstance(now, Instant) else now.instant()
+        _unpatch_time()
         if self._keep_ticking:
-            self._pin = new = (self._pin + (Instant.now() - self._pin)).add(
-                *args, **kwargs
-            )
-            _patch_time_keep_ticking(
-                new if isinstance(new, Instant) else new.instant()
-            )
+            _patch_time_keep_ticking(instant)
         else:
-            self._pin = new = self._pin.add(*args, **kwargs)
-            _patch_time_frozen(
-                new if isinstance(new, Instant) else new.instant()
-            )
+            _patch_time_frozen(instant)
+
+
+# Patches may be nested. The innermost one comes last.
+_active_patches: "list[_TimePatch]" = []
 
 
 @_contextmanager
@@ -119,13 +134,14 @@ def patch_current_time(
     ...     sleep(0.000001)
     ...     assert hours(8) < (Instant.now() - i) < hours(8.1)
     """
-    instant = dt if isinstance(dt, Instant) else dt.instant()
-    if keep_ticking:
-        _patch_time_keep_ticking(instant)
-    else:
-        _patch_time_frozen(instant)
-
+    patch = _TimePatch(dt, keep_ticking, _time.time_ns())
+    patch._apply()
+    _active_patches.append(patch)
     try:
-        yield _TimePatch(dt, keep_ticking)
+        yield patch
     finally:
-        _unpatch_time()
+        _active_patches.remove(patch)
+        if _active_patches:
+            _active_patches[-1]._apply()
+        else:
+            _unpatch_time()
-- 
2.43.0


From 7dd9c9d6ae1a5810d949b36eee409856b2b82a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 18/60] fix: reject aware instances of time subclasses in
 Time.from_py_time

---
 pysrc/whenever/_pywhenever.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 2c3443e..302ff21 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -996,14 +996,13 @@ class Time(_ImmutableBase):
 
         `fold` value is ignored.
         """
-        if type(t) is _time:
-            if t.tzinfo is not None:
-                raise ValueError("Time must be naive")
-        elif isinstance(t, _time):
+        if not isinstance(t, _time):
+            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
+        elif t.tzinfo is not None:
+            raise ValueError("Time must be naive")
+        elif type(t) is not _time:
             # subclass-safe way to ensure we have exactly a datetime.time
             t = _time(t.hour, t.minute, t.second, t.microsecond)
-        else:
-            raise TypeError(f"Expected datetime.time, got {type(t)!r}")
         return cls._from_py_unchecked(
             t.replace(microsecond=0, fold=0), t.microsecond * 1_000
         )
-- 
2.43.0


From 2f69333bf8b59d3b790514f4c371b794ce09a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:05 +0000
Subject: [PATCH 19/60] fix: reject ZoneInfo without a key in
 ZonedDateTime.from_py_datetime

---
 pysrc/whenever/_pywhenever.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 302ff21..8390f7d 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4423,6 +4423,10 @@ class ZonedDateTime(_KnowsInstantAndLocal):
                 "Can only create ZonedDateTime from tzinfo=ZoneInfo (exactly), "
                 f"got datetime with tzinfo={d.tzinfo!r}"
             )
+        elif d.tzinfo.key is None:
+            raise ValueError(
+                "Can't create ZonedDateTime from a ZoneInfo without a key"
+            )
 
         # This ensures skipped times are disambiguated according to the fold.
         d = d.astimezone(_UTC).astimezone(d.tzinfo)
-- 
2.43.0


From 09e52e7929f7dd249968fcffe9213b80e0422aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 20/60] fix: recognize the same timezone in
 ZonedDateTime.replace by its ID

---
 pysrc/whenever/_pywhenever.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 8390f7d..d27907f 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -4497,7 +4497,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
             pass
         else:
             kwargs["tzinfo"] = zoneinfo_new = ZoneInfo(tz)
-            if zoneinfo_new is not self._py_dt.tzinfo:
+            if zoneinfo_new.key != self.tz:
                 disambiguate = disambiguate or "compatible"
         nanos = _pop_nanos_kwarg(kwargs, self._nanos)
 
-- 
2.43.0


From 39572b1516bb2c58b992045c3c10cad74569830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 21/60] fix: make exact_eq independent of the identity of
 ZoneInfo objects

---
 pysrc/whenever/_pywhenever.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index d27907f..a0a7609 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2987,12 +2987,12 @@ class _KnowsInstant(_BasicConversions):
         if type(self) is not type(other):
             raise TypeError("Cannot compare different types")
         return (
-            self._py_dt,  # type: ignore[attr-defined]
+            self._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             self._py_dt.utcoffset(),  # type: ignore[attr-defined]
             self._nanos,  # type: ignore[attr-defined]
             getattr(self, "tz", None),
         ) == (
-            other._py_dt,  # type: ignore[attr-defined]
+            other._py_dt.replace(tzinfo=None),  # type: ignore[attr-defined]
             other._py_dt.utcoffset(),  # type: ignore[attr-defined]
             other._nanos,  # type: ignore[attr-defined]
             getattr(other, "tz", None),
-- 
2.43.0


From 0c3d4e52f023520e2beb188e3d7a6f105ec22b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 22/60] fix: declare day_length() in the type stubs instead of
 hours_in_day()

---
 pysrc/whenever/__init__.pyi | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 7023537..0b52b8d 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -714,7 +714,7 @@ class ZonedDateTime(_KnowsInstantAndLocal):
         disambiguate: Literal["compatible", "raise", "earlier", "later"] = ...,
     ) -> ZonedDateTime: ...
     def is_ambiguous(self) -> bool: ...
-    def hours_in_day(self) -> float: ...
+    def day_length(self) -> TimeDelta: ...
     def start_of_day(self) -> ZonedDateTime: ...
     def round(
         self,
@@ -871,7 +871,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
         disambiguate: Literal["compatible", "raise", "earlier", "later"] = ...,
     ) -> SystemDateTime: ...
     def is_ambiguous(self) -> bool: ...
-    def hours_in_day(self) -> float: ...
+    def day_length(self) -> TimeDelta: ...
     def start_of_day(self) -> ZonedDateTime: ...
     def round(
         self,
-- 
2.43.0


From c2887d832a49a59de5b6bdc99fd67effd8b35d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 23/60] fix: correct the declared return type of
 SystemDateTime.start_of_day()

---
 pysrc/whenever/__init__.pyi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysrc/whenever/__init__.pyi b/pysrc/whenever/__init__.pyi
index 0b52b8d..1ec1695 100644
--- a/pysrc/whenever/__init__.pyi
+++ b/pysrc/whenever/__init__.pyi
@@ -872,7 +872,7 @@ class SystemDateTime(_KnowsInstantAndLocal):
     ) -> SystemDateTime: ...
     def is_ambiguous(self) -> bool: ...
     def day_length(self) -> TimeDelta: ...
-    def start_of_day(self) -> ZonedDateTime: ...
+    def start_of_day(self) -> SystemDateTime: ...
     def round(
         self,
         unit: Literal[
-- 
2.43.0


From c302982c7a9db5101645a761b078367918dd2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 24/60] fix: don't allow setting attributes on LocalDateTime
 instances

---
 pysrc/whenever/_pywhenever.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index a0a7609..72074f7 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5283,6 +5283,8 @@ class LocalDateTime(_KnowsLocal):
       time in a simulation game.
     """
 
+    __slots__ = ()
+
     def __init__(
         self,
         year: int,
-- 
2.43.0


From c3acf8e0908564224ccd17e8fa592de4b0487f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 25/60] fix: don't read past the end of the input in the
 extension's parsers

---
 src/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index f85ca97..0dea094 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -62,7 +62,7 @@ macro_rules! type_err(
 
 #[inline]
 pub(crate) fn parse_digit(s: &[u8], index: usize) -> Option<u8> {
-    match s[index] {
+    match *s.get(index)? {
         c if c.is_ascii_digit() => Some(c - b'0'),
         _ => None,
     }
@@ -70,7 +70,7 @@ pub(crate) fn parse_digit(s: &[u8], index: usize) -> Option<u8> {
 
 #[inline]
 pub(crate) fn parse_digit_max(s: &[u8], index: usize, max: u8) -> Option<u8> {
-    match s[index] {
+    match *s.get(index)? {
         c if c >= b'0' && c <= max => Some(c - b'0'),
         _ => None,
     }
-- 
2.43.0


From b74b5864764cf3b3a659a5eb978686e545d14e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 26/60] fix: handle truncated and huge components when parsing
 durations (Rust extension)

---
 src/time_delta.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index a2641d9..2af16f6 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -793,8 +793,8 @@ fn parse_nano_fractions(s: &[u8]) -> Option<i128> {
     }
     // at this point we've parsed 9 fractional digits successfully.
     // Only encountering `S` is valid. Nothing more, nothing less.
-    match s[9..] {
-        [b'S'] => Some(tally),
+    match s.get(9..) {
+        Some([b'S']) => Some(tally),
         _ => None,
     }
 }
@@ -805,7 +805,8 @@ fn parse_component(s: &mut &[u8]) -> Option<(i128, Unit)> {
         return None;
     }
     let mut tally: i128 = 0;
-    // We limit parsing to 35 characters to prevent overflow of i128
+    // We limit parsing to 35 characters to prevent overflow of i128 here.
+    // Multiplication with the unit may still overflow and needs to be checked.
     for i in 0..min(s.len(), 35) {
         match s[i] {
             c if c.is_ascii_digit() => tally = tally * 10 + i128::from(c - b'0'),
@@ -819,13 +820,15 @@ fn parse_component(s: &mut &[u8]) -> Option<(i128, Unit)> {
             }
             b'S' => {
                 *s = &s[i + 1..];
-                return Some((tally * 1_000_000_000, Unit::Nanoseconds));
+                return Some((tally.checked_mul(1_000_000_000)?, Unit::Nanoseconds));
             }
             b'.' if i > 0 => {
-                let result = parse_nano_fractions(&s[i + 1..])
-                    .map(|ns| (tally * 1_000_000_000 + ns, Unit::Nanoseconds));
+                let fraction = parse_nano_fractions(&s[i + 1..])?;
                 *s = &[];
-                return result;
+                return Some((
+                    tally.checked_mul(1_000_000_000)?.checked_add(fraction)?,
+                    Unit::Nanoseconds,
+                ));
             }
             _ => break,
         }
@@ -835,18 +838,18 @@ fn parse_component(s: &mut &[u8]) -> Option<(i128, Unit)> {
 
 pub(crate) unsafe fn parse_all_components(s: &mut &[u8]) -> Option<(i128, bool)> {
     let mut prev_unit: Option<Unit> = None;
-    let mut nanos = 0;
+    let mut nanos: i128 = 0;
     while !s.is_empty() {
         let (value, unit) = parse_component(s)?;
         match (unit, prev_unit.replace(unit)) {
             (Unit::Hours, None) => {
-                nanos += value * 3_600_000_000_000;
+                nanos = value.checked_mul(3_600_000_000_000)?;
             }
             (Unit::Minutes, None | Some(Unit::Hours)) => {
-                nanos += value * 60_000_000_000;
+                nanos = nanos.checked_add(value.checked_mul(60_000_000_000)?)?;
             }
             (Unit::Nanoseconds, _) => {
-                nanos += value;
+                nanos = nanos.checked_add(value)?;
                 if s.is_empty() {
                     break;
                 }
-- 
2.43.0


From 0ba875b7998e28a79f3abb86ce436d99d1bea0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 27/60] fix: reject trailing garbage and out-of-range dates in
 DateTimeDelta parsing (Rust extension)

---
 src/datetime_delta.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 21ba63d..c4804eb 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -430,7 +430,7 @@ pub(crate) fn parse_date_components(s: &mut &[u8]) -> Option<DateDelta> {
             _ => None?, // i.e. the order of the components is wrong
         }
     }
-    Some(DateDelta { months, days })
+    DateDelta::from_same_sign(months, days)
 }
 
 unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn {
@@ -450,7 +450,8 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
     let mut tdelta = if s.is_empty() {
         TimeDelta::ZERO
     } else {
-        *s = &s[1..];
+        // the date components may only be followed by the time components
+        *s = s.strip_prefix(b"T").ok_or_else(raise)?;
         let (nanos, _) = time_delta::parse_all_components(s).ok_or_else(raise)?;
         TimeDelta::from_nanos(nanos).ok_or_value_err("TimeDelta out of range")?
     };
-- 
2.43.0


From 8f88a37f2ba043d8f60310558ecc67afa0df3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 28/60] fix: detect mixed signs of deltas with a time part
 under one second (Rust extension)

---
 src/datetime_delta.rs | 12 +++---------
 src/time_delta.rs     |  8 ++++++++
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index c4804eb..8c21571 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -26,8 +26,8 @@ impl DateTimeDelta {
     }
 
     pub(crate) fn new(ddelta: DateDelta, tdelta: TimeDelta) -> Option<Self> {
-        if ddelta.months >= 0 && ddelta.days >= 0 && tdelta.secs >= 0
-            || ddelta.months <= 0 && ddelta.days <= 0 && tdelta.secs <= 0
+        if ddelta.months >= 0 && ddelta.days >= 0 && !tdelta.is_negative()
+            || ddelta.months <= 0 && ddelta.days <= 0 && !tdelta.is_positive()
         {
             Some(Self { ddelta, tdelta })
         } else {
@@ -50,13 +50,7 @@ impl DateTimeDelta {
             .checked_add(other.tdelta)
             .ok_or(InitError::TooBig)?;
         // Confirm the signs of date- and timedelta didn't get out of sync
-        if ddelta.months >= 0 && ddelta.days >= 0 && tdelta.secs >= 0
-            || ddelta.months <= 0 && ddelta.days <= 0 && tdelta.secs <= 0
-        {
-            Ok(Self { ddelta, tdelta })
-        } else {
-            Err(InitError::MixedSign)
-        }
+        Self::new(ddelta, tdelta).ok_or(InitError::MixedSign)
     }
 }
 
diff --git a/src/time_delta.rs b/src/time_delta.rs
index 2af16f6..aebf04c 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -64,6 +64,14 @@ impl TimeDelta {
         self.secs == 0 && self.nanos == 0
     }
 
+    pub(crate) const fn is_negative(&self) -> bool {
+        self.secs < 0
+    }
+
+    pub(crate) const fn is_positive(&self) -> bool {
+        !self.is_negative() && !self.is_zero()
+    }
+
     pub(crate) fn abs(self) -> Self {
         if self.secs >= 0 {
             self
-- 
2.43.0


From 31e1744336df2a2c24669ebff4f2ac224fbf844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 29/60] fix: raise TypeError for unsupported operands of
 DateTimeDelta (Rust extension)

---
 src/datetime_delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 8c21571..367dac6 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -326,7 +326,7 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
                 }
             } else {
                 // We can safely discount other types within our module
-                return Err(value_err!(
+                return Err(type_err!(
                     "unsupported operand type(s) for +/-: {} and {}",
                     (type_a as *mut PyObject).repr(),
                     (type_b as *mut PyObject).repr()
-- 
2.43.0


From b7fdadaf7dfc30f9dd48a7450dcdceaf7cd32d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 30/60] fix: don't lose precision in TimeDelta.in_* methods and
 TimeDelta ratios (Rust extension)

---
 src/time_delta.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index aebf04c..89776e5 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -459,7 +459,7 @@ unsafe fn __truediv__(slf: *mut PyObject, factor_obj: *mut PyObject) -> PyReturn
         if factor == 0 {
             Err(py_err!(PyExc_ZeroDivisionError, "Division by zero"))?
         }
-        return (TimeDelta::extract(slf).total_nanos() as f64 / factor as f64).to_py();
+        return divide_exactly(TimeDelta::extract(slf).total_nanos(), factor);
     } else {
         return Ok(newref(Py_NotImplemented()));
     }
@@ -638,38 +638,38 @@ pub(crate) unsafe fn unpickle(module: *mut PyObject, arg: *mut PyObject) -> PyRe
     .to_obj(State::for_mod(module).time_delta_type)
 }
 
+// Divide two integers into the nearest float. This is left to Python's integers,
+// since converting the operands to floats first would lose precision.
+unsafe fn divide_exactly(a: i128, b: i128) -> PyReturn {
+    PyNumber_TrueDivide(steal!(a.to_py()?), steal!(b.to_py()?)).as_result()
+}
+
 unsafe fn in_nanoseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
     TimeDelta::extract(slf).total_nanos().to_py()
 }
 
 unsafe fn in_microseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 * 1e6 + nanos as f64 * 1e-3).to_py()
+    divide_exactly(TimeDelta::extract(slf).total_nanos(), 1_000)
 }
 
 unsafe fn in_milliseconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 * 1e3 + nanos as f64 * 1e-6).to_py()
+    divide_exactly(TimeDelta::extract(slf).total_nanos(), 1_000_000)
 }
 
 unsafe fn in_seconds(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 + nanos as f64 * 1e-9).to_py()
+    divide_exactly(TimeDelta::extract(slf).total_nanos(), 1_000_000_000)
 }
 
 unsafe fn in_minutes(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 60.0 + nanos as f64 * 1e-9 / 60.0).to_py()
+    divide_exactly(TimeDelta::extract(slf).total_nanos(), 60_000_000_000)
 }
 
 unsafe fn in_hours(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 3600.0 + nanos as f64 * 1e-9 / 3600.0).to_py()
+    divide_exactly(TimeDelta::extract(slf).total_nanos(), 3_600_000_000_000)
 }
 
 unsafe fn in_days_of_24h(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-    let TimeDelta { secs, nanos } = TimeDelta::extract(slf);
-    (secs as f64 / 86_400.0 + nanos as f64 * 1e-9 / 86_400.0).to_py()
+    divide_exactly(TimeDelta::extract(slf).total_nanos(), 86_400_000_000_000)
 }
 
 unsafe fn from_py_timedelta(cls: *mut PyObject, d: *mut PyObject) -> PyReturn {
-- 
2.43.0


From 107870eb794bc580d050f450d82ca9a68561053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 31/60] fix: reject duration components without digits (Rust
 extension)

---
 src/time_delta.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 89776e5..4c2c15e 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -818,15 +818,15 @@ fn parse_component(s: &mut &[u8]) -> Option<(i128, Unit)> {
     for i in 0..min(s.len(), 35) {
         match s[i] {
             c if c.is_ascii_digit() => tally = tally * 10 + i128::from(c - b'0'),
-            b'H' => {
+            b'H' if i > 0 => {
                 *s = &s[i + 1..];
                 return Some((tally, Unit::Hours));
             }
-            b'M' => {
+            b'M' if i > 0 => {
                 *s = &s[i + 1..];
                 return Some((tally, Unit::Minutes));
             }
-            b'S' => {
+            b'S' if i > 0 => {
                 *s = &s[i + 1..];
                 return Some((tally.checked_mul(1_000_000_000)?, Unit::Nanoseconds));
             }
-- 
2.43.0


From 5c46f9b7defe3ce486e27a6d741113d0eb1de695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 32/60] fix: check the full range in
 TimeDelta.from_py_timedelta (Rust extension)

---
 src/time_delta.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/time_delta.rs b/src/time_delta.rs
index 4c2c15e..a8ce9ca 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -678,14 +678,10 @@ unsafe fn from_py_timedelta(cls: *mut PyObject, d: *mut PyObject) -> PyReturn {
     }
     let secs = i64::from(PyDateTime_DELTA_GET_DAYS(d)) * SECS_PER_DAY
         + i64::from(PyDateTime_DELTA_GET_SECONDS(d));
-    if !(-MAX_SECS..=MAX_SECS).contains(&secs) {
-        Err(value_err!("TimeDelta out of range"))?;
-    }
-    TimeDelta {
-        secs,
-        nanos: PyDateTime_DELTA_GET_MICROSECONDS(d) as u32 * 1_000,
-    }
-    .to_obj(cls.cast())
+    let nanos = i128::from(PyDateTime_DELTA_GET_MICROSECONDS(d)) * 1_000;
+    TimeDelta::from_nanos(i128::from(secs) * 1_000_000_000 + nanos)
+        .ok_or_value_err("TimeDelta out of range")?
+        .to_obj(cls.cast())
 }
 
 unsafe fn py_timedelta(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
-- 
2.43.0


From 96f983ac6c3aa8279ca1bf723c8a15b64aa36820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 33/60] fix: parse date durations of seven digits (Rust
 extension)

---
 src/date_delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/date_delta.rs b/src/date_delta.rs
index 4a0cde0..4200701 100644
--- a/src/date_delta.rs
+++ b/src/date_delta.rs
@@ -474,7 +474,7 @@ pub(crate) enum Unit {
 
 fn finish_parsing_component(s: &mut &[u8], mut value: i32) -> Option<(i32, Unit)> {
     // We limit parsing to a number of digits to prevent overflow
-    for i in 1..min(s.len(), 7) {
+    for i in 1..min(s.len(), 8) {
         match s[i] {
             c if c.is_ascii_digit() => value = value * 10 + i32::from(c - b'0'),
             b'D' => {
-- 
2.43.0


From 5696c381b60603cb2f02bd640527f08f65bf83e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 34/60] fix: reject UTC offsets of exactly 24 hours (Rust
 extension)

---
 src/offset_datetime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index bd875e3..10c7306 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -247,13 +247,13 @@ pub(crate) unsafe fn extract_offset(
             // We've checked before that it's a py int
             .unwrap();
         Ok(
-            clamp(given_int, 24i32).ok_or_value_err("offset must be between -24 and 24 hours")?
+            clamp(given_int, 23i32).ok_or_value_err("offset must be between -24 and 24 hours")?
                 * 3600,
         )
     } else if Py_TYPE(obj) == tdelta_cls {
         let TimeDelta { secs, nanos } = TimeDelta::extract(obj);
         if nanos == 0 {
-            clamp(secs, 24i32 * 3600).ok_or_value_err("offset must be between -24 and 24 hours")
+            clamp(secs, 24i32 * 3600 - 1).ok_or_value_err("offset must be between -24 and 24 hours")
         } else {
             Err(value_err!("offset must be a whole number of seconds"))
         }
-- 
2.43.0


From 8958eb170a1e1822333399d6dddc9066ade46e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 35/60] fix: check the range of local dates in
 OffsetDateTime.now() and from_timestamp*() (Rust extension)

---
 src/offset_datetime.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 10c7306..ff3e441 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -637,13 +637,10 @@ unsafe fn now(
 
     let offset_secs = extract_offset(offset, state.time_delta_type)?;
     // FUTURE: Conversion to Instant can be done a bit more efficiently
-    let DateTime { date, time } =
-        Instant::from_timestamp_nanos(secs as i128 * 1_000_000_000 + i128::from(subsec_nanos))
-            .ok_or_value_err("SystemTime out of range")?
-            .shift_secs_unchecked(offset_secs.into())
-            .to_datetime();
-    // Technically this can fail if the system time is set beyond year 9999
-    OffsetDateTime::new_unchecked(date, time, offset_secs).to_obj(cls.cast())
+    Instant::from_timestamp_nanos(secs as i128 * 1_000_000_000 + i128::from(subsec_nanos))
+        .and_then(|inst| inst.to_offset(offset_secs))
+        .ok_or_value_err("SystemTime out of range")?
+        .to_obj(cls.cast())
 }
 
 unsafe fn from_py_datetime(cls: *mut PyObject, dt: *mut PyObject) -> PyReturn {
@@ -886,10 +883,8 @@ unsafe fn from_timestamp(
                 .ok_or_type_err("Timestamp must be an integer or float")?,
         ),
     }
+    .and_then(|inst| inst.to_offset(offset_secs))
     .ok_or_value_err("Timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
@@ -907,10 +902,8 @@ unsafe fn from_timestamp_millis(
             .to_i64()?
             .ok_or_type_err("timestamp must be an integer")?,
     )
+    .and_then(|inst| inst.to_offset(offset_secs))
     .ok_or_value_err("timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
@@ -928,10 +921,8 @@ unsafe fn from_timestamp_nanos(
             .to_i128()?
             .ok_or_type_err("timestamp must be an integer")?,
     )
+    .and_then(|inst| inst.to_offset(offset_secs))
     .ok_or_value_err("timestamp is out of range")?
-    .shift_secs_unchecked(offset_secs as i64)
-    .to_datetime()
-    .with_offset_unchecked(offset_secs)
     .to_obj(cls)
 }
 
-- 
2.43.0


From ab59908ba13f1bcc79b10825c78bc9951b772a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 36/60] fix: check the UTC range when rounding OffsetDateTime
 (Rust extension)

---
 src/offset_datetime.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index ff3e441..1d183f2 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -1117,12 +1117,9 @@ unsafe fn round(
             Err(value_err!("Resulting datetime out of range"))?
         }
     }
-    OffsetDateTime {
-        date,
-        time: time_rounded,
-        offset_secs,
-    }
-    .to_obj(cls)
+    OffsetDateTime::new(date, time_rounded, offset_secs)
+        .ok_or_value_err("Resulting datetime out of range")?
+        .to_obj(cls)
 }
 
 static mut METHODS: &[PyMethodDef] = &[
-- 
2.43.0


From da319457873e4e285f761eab85201418fc8b7e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 37/60] fix: split float timestamps without precision loss
 (Rust extension)

---
 src/instant.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index e5fae4a..c78a07c 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -119,9 +119,15 @@ impl Instant {
     pub(crate) fn from_timestamp_f64(timestamp: f64) -> Option<Self> {
         (MIN_EPOCH as f64..MAX_EPOCH as f64)
             .contains(&timestamp)
-            .then(|| Instant {
-                secs: (timestamp.floor() as i64 + UNIX_EPOCH_INSTANT),
-                nanos: (timestamp * 1_000_000_000_f64).rem_euclid(1_000_000_000_f64) as u32,
+            .then(|| {
+                let floor = timestamp.floor();
+                // Subtracting the whole seconds first ensures no precision is lost
+                // NOTE: tiny negative timestamps may round up to a whole second
+                let nanos = ((timestamp - floor) * 1_000_000_000_f64) as u32;
+                Instant {
+                    secs: floor as i64 + UNIX_EPOCH_INSTANT + i64::from(nanos / 1_000_000_000),
+                    nanos: nanos % 1_000_000_000,
+                }
             })
     }
 
-- 
2.43.0


From 2356ec154942336d3aafb0bdb5c3fc108c096b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 38/60] fix: require digits after the decimal point of seconds
 (Rust extension)

---
 src/time.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/time.rs b/src/time.rs
index 19c8844..e9ad2b0 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -144,6 +144,8 @@ impl Time {
         let mut nanos: u32 = 0;
         let mut end_index = 8;
         if s.len() > 8 && s[8] == b'.' {
+            // at least one digit must follow the decimal point
+            parse_digit(s, 9)?;
             for (i, factor) in (9..s.len()).zip(&[
                 100_000_000,
                 10_000_000,
-- 
2.43.0


From 719d97f18d8fc4b525f70cab2ca445d4570e82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 39/60] fix: round half-way values correctly for odd increments
 and negative deltas (Rust extension)

---
 src/time.rs       |  4 ++--
 src/time_delta.rs | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index e9ad2b0..d7a14b5 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -181,11 +181,11 @@ impl Time {
         let remainder = total_nanos % increment;
 
         let threshold = match mode {
-            round::Mode::HalfEven => std::cmp::max(increment / 2 + (quotient % 2 == 0) as u64, 1),
+            round::Mode::HalfEven if quotient % 2 == 0 => increment / 2 + 1,
+            round::Mode::HalfEven | round::Mode::HalfCeil => increment.div_ceil(2),
             round::Mode::Ceil => 1,
             round::Mode::Floor => increment + 1,
             round::Mode::HalfFloor => increment / 2 + 1,
-            round::Mode::HalfCeil => std::cmp::max(increment / 2, 1),
         };
         let round_up = remainder >= threshold;
         let ns_since_midnight = (quotient + round_up as u64) * increment;
diff --git a/src/time_delta.rs b/src/time_delta.rs
index a8ce9ca..33a2a00 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -101,7 +101,7 @@ impl TimeDelta {
         } = self;
 
         if increment < 1_000_000_000 {
-            nanos = Self::round_subsec(nanos, increment as u32, mode);
+            nanos = Self::round_subsec(secs, nanos, increment as u32, mode);
             secs += (nanos / 1_000_000_000) as i64;
             nanos %= 1_000_000_000;
         } else {
@@ -116,17 +116,23 @@ impl TimeDelta {
         Some(Self { secs, nanos })
     }
 
-    fn round_subsec(nanos: u32, increment: u32, mode: round::Mode) -> u32 {
+    fn round_subsec(secs: i64, nanos: u32, increment: u32, mode: round::Mode) -> u32 {
         debug_assert!(increment < 1_000_000_000);
         debug_assert!(1_000_000_000 % increment == 0);
         let quotient = nanos / increment;
         let remainder = nanos % increment;
         let threshold = match mode {
-            round::Mode::HalfEven => std::cmp::max(increment / 2 + (quotient % 2 == 0) as u32, 1),
+            // NOTE: the number of increments in a second may be odd, so the whole
+            //       seconds play a role in determining what is even.
+            round::Mode::HalfEven
+                if (quotient + (secs % 2 != 0) as u32 * (1_000_000_000 / increment)) % 2 == 0 =>
+            {
+                increment / 2 + 1
+            }
+            round::Mode::HalfEven | round::Mode::HalfCeil => increment.div_ceil(2),
             round::Mode::Ceil => 1,
             round::Mode::Floor => increment + 1,
             round::Mode::HalfFloor => increment / 2 + 1,
-            round::Mode::HalfCeil => std::cmp::max(increment / 2, 1),
         };
         let round_up = remainder >= threshold;
         (quotient + u32::from(round_up)) * increment
@@ -138,10 +144,9 @@ impl TimeDelta {
         let quotient = secs.div_euclid(increment_s);
         let remainder_ns = secs.rem_euclid(increment_s) * 1_000_000_000 + nanos as i64;
         let threshold_ns = match mode {
-            round::Mode::HalfEven => {
-                std::cmp::max(increment_ns / 2 + (quotient % 2 == 0) as i64, 1)
-            }
-            round::Mode::HalfCeil => std::cmp::max(increment_ns / 2, 1),
+            // NOTE: the increment is a whole number of seconds, so always even
+            round::Mode::HalfEven => increment_ns / 2 + (quotient % 2 == 0) as i64,
+            round::Mode::HalfCeil => increment_ns / 2,
             round::Mode::Ceil => 1,
             round::Mode::Floor => increment_ns + 1,
             round::Mode::HalfFloor => increment_ns / 2 + 1,
-- 
2.43.0


From f676fc12da8f45b593ed4c4874a8484e382ae311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 40/60] fix: allow rounding increments of 1000 (Rust extension)

---
 src/round.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/round.rs b/src/round.rs
index f6fcde2..f6fa21b 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -89,7 +89,7 @@ impl Unit {
         hours_increment_always_ok: bool,
     ) -> PyResult<i64> {
         let inc = v.to_i64()?.ok_or_type_err("increment must be an integer")?;
-        if inc <= 0 || inc >= 1000 {
+        if inc <= 0 || inc > 1000 {
             Err(value_err!("increment must be between 0 and 1000"))?;
         }
         match self {
-- 
2.43.0


From 51fe4a9bcd47fc5749c6a6addc66b71b2bf78fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 41/60] fix: round Instant relative to the start of the (UTC)
 day (Rust extension)

---
 src/instant.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/instant.rs b/src/instant.rs
index c78a07c..f6b33ea 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -293,13 +293,6 @@ impl Instant {
             hash_combine((self.secs >> 32) as Py_hash_t, self.nanos as Py_hash_t),
         )
     }
-
-    fn to_delta(self) -> TimeDelta {
-        TimeDelta {
-            secs: self.secs,
-            nanos: self.nanos,
-        }
-    }
 }
 
 unsafe fn __new__(_: *mut PyTypeObject, _: *mut PyObject, _: *mut PyObject) -> PyReturn {
@@ -848,15 +841,13 @@ unsafe fn round(
     if unit == round::Unit::Day {
         Err(value_err!(doc::CANNOT_ROUND_DAY_MSG))?;
     }
-    let TimeDelta { secs, nanos } = Instant::extract(slf)
-        .to_delta()
-        .round(increment, mode)
-        .unwrap(); // safe unwrap: delta has higher range than instant
-
-    if secs > MAX_INSTANT {
-        Err(value_err!("Resulting Instant out of range"))?;
-    }
-    Instant { secs, nanos }.to_obj(cls)
+    // Like the other types, round relative to the start of the day
+    let DateTime { date, time } = Instant::extract(slf).to_datetime();
+    let (time_rounded, next_day) = time.round(increment as u64, mode);
+    Instant::from_datetime(date, time_rounded)
+        .shift_secs(next_day as i64 * 86_400)
+        .ok_or_value_err("Resulting Instant out of range")?
+        .to_obj(cls)
 }
 
 static mut METHODS: &[PyMethodDef] = &[
-- 
2.43.0


From a4cf2c970cbe7750c1795c3c6186fee395597a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 42/60] fix: don't accept skipped local times when parsing
 ZonedDateTime (Rust extension)

---
 src/zoned_datetime.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index b175a32..a5704ce 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1150,9 +1150,11 @@ fn parse_offset_partial(s: &mut &[u8]) -> Option<i32> {
         return None;
     }
     // the HH:MM part
-    // FUTURE: technically, this eliminates 2x:00 offsets. There
-    // are no such offsets in the IANA database, but may be possible...
-    let secs = (parse_digit_max(s, 1, b'1')? * 10 + parse_digit(s, 2)?) as i32 * 3600
+    let hours = parse_digit_max(s, 1, b'2')? * 10 + parse_digit(s, 2)?;
+    if hours > 23 {
+        return None;
+    }
+    let secs = hours as i32 * 3600
         + (parse_digit_max(s, 4, b'5')? * 10 + parse_digit(s, 5)?) as i32 * 60;
     // the optional seconds part
     match s.get(6) {
@@ -1207,9 +1209,9 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
     defer_decref!(zoneinfo);
     let offset_is_valid = match OffsetResult::for_tz(py_api, date, time, zoneinfo)? {
         OffsetResult::Unambiguous(o) => o == offset_secs,
-        OffsetResult::Gap(o1, o2) | OffsetResult::Fold(o1, o2) => {
-            o1 == offset_secs || o2 == offset_secs
-        }
+        OffsetResult::Fold(o1, o2) => o1 == offset_secs || o2 == offset_secs,
+        // skipped times don't exist, so no offset is valid
+        OffsetResult::Gap(_, _) => false,
     };
     if offset_is_valid {
         ZonedDateTime::new(date, time, offset_secs, zoneinfo)
-- 
2.43.0


From 22196318a306cb9219e000e5dc55f8c297376b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 43/60] fix: don't accept skipped local times when parsing
 ZonedDateTime (Rust extension): formatting

---
 src/zoned_datetime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index a5704ce..0f1a7b7 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1154,8 +1154,8 @@ fn parse_offset_partial(s: &mut &[u8]) -> Option<i32> {
     if hours > 23 {
         return None;
     }
-    let secs = hours as i32 * 3600
-        + (parse_digit_max(s, 4, b'5')? * 10 + parse_digit(s, 5)?) as i32 * 60;
+    let secs =
+        hours as i32 * 3600 + (parse_digit_max(s, 4, b'5')? * 10 + parse_digit(s, 5)?) as i32 * 60;
     // the optional seconds part
     match s.get(6) {
         Some(b':') => {
-- 
2.43.0


From a8dc73feb5121342b9846d2617c6728ce81a9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 44/60] fix: make exact_eq independent of the identity of
 ZoneInfo objects (Rust extension)

---
 src/zoned_datetime.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 0f1a7b7..14a1a79 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -20,7 +20,7 @@ use crate::{
     State,
 };
 
-#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Copy, Clone)]
+#[derive(Debug, Copy, Clone)]
 pub(crate) struct ZonedDateTime {
     date: Date,
     time: Time,
@@ -558,9 +558,21 @@ static mut SLOTS: &[PyType_Slot] = &[
     },
 ];
 
+// NOTE: equal timezones aren't always the same object, since
+// the zoneinfo cache may be cleared or bypassed.
+unsafe fn is_same_tz(a: *mut PyObject, b: *mut PyObject) -> bool {
+    a == b || zoneinfo_key(a) == zoneinfo_key(b)
+}
+
 unsafe fn exact_eq(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     if Py_TYPE(obj_a) == Py_TYPE(obj_b) {
-        (ZonedDateTime::extract(obj_a) == ZonedDateTime::extract(obj_b)).to_py()
+        let a = ZonedDateTime::extract(obj_a);
+        let b = ZonedDateTime::extract(obj_b);
+        (a.date == b.date
+            && a.time == b.time
+            && a.offset_secs == b.offset_secs
+            && is_same_tz(a.zoneinfo, b.zoneinfo))
+        .to_py()
     } else {
         Err(type_err!(
             "Argument must be ZonedDateTime, got {}",
-- 
2.43.0


From 965d1f34265b3226594950e026bc93c5007da3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 45/60] fix: recognize the same timezone in
 ZonedDateTime.replace by its ID, and keep it alive (Rust extension)

---
 src/zoned_datetime.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 14a1a79..07d5193 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -836,14 +836,16 @@ unsafe fn replace(
     let mut second = time.second.into();
     let mut nanos = time.nanos as _;
     let mut dis = None;
+    // keeps the new timezone alive until we're done with it
+    let mut _zoneinfo_ref = None;
 
     handle_kwargs("replace", kwargs, |key, value, eq| {
         if eq(key, state.str_tz) {
-            let zoneinfo_new = call1(state.zoneinfo_type, value)?;
-            if (zoneinfo_new as *mut _) != zoneinfo {
+            let zoneinfo_new: *mut PyObject = call1(state.zoneinfo_type, value)?;
+            if !is_same_tz(zoneinfo_new, zoneinfo) {
                 dis.get_or_insert(Disambiguate::Compatible);
             };
-            defer_decref!(zoneinfo_new);
+            _zoneinfo_ref = Some(DecrefOnDrop(zoneinfo_new));
             zoneinfo = zoneinfo_new;
         } else if eq(key, state.str_disambiguate) {
             dis = Some(Disambiguate::from_py(value)?);
-- 
2.43.0


From bade98d0b2e7c33512b818699396994c74f6befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 46/60] fix: reject ZoneInfo without a key in
 ZonedDateTime.from_py_datetime (Rust extension)

---
 src/zoned_datetime.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 07d5193..4102b41 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -944,6 +944,13 @@ unsafe fn from_py_datetime(cls: *mut PyObject, dt: *mut PyObject) -> PyReturn {
             (Py_TYPE(tzinfo) as *mut PyObject).repr()
         ))?;
     }
+    let key = PyObject_GetAttrString(tzinfo, c"key".as_ptr()).as_result()?;
+    defer_decref!(key);
+    if is_none(key) {
+        Err(value_err!(
+            "Can't create ZonedDateTime from a ZoneInfo without a key"
+        ))?;
+    }
 
     let fold = PyDateTime_DATE_GET_FOLD(dt);
     let date = Date {
-- 
2.43.0


From d0d4c3c30ddb0cb967bdd238aa7ab2722092730b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 47/60] fix: raise ValueError for out-of-range LocalDateTime
 components (Rust extension)

---
 src/local_datetime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index fb355e0..a58c2b0 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -177,8 +177,8 @@ unsafe fn __new__(cls: *mut PyTypeObject, args: *mut PyObject, kwargs: *mut PyOb
     }
 
     DateTime {
-        date: Date::from_longs(year, month, day).ok_or_type_err("Invalid date")?,
-        time: Time::from_longs(hour, minute, second, nanos).ok_or_type_err("Invalid time")?,
+        date: Date::from_longs(year, month, day).ok_or_value_err("Invalid date")?,
+        time: Time::from_longs(hour, minute, second, nanos).ok_or_value_err("Invalid time")?,
     }
     .to_obj(cls)
 }
-- 
2.43.0


From d905526e9eb5748281e7fc7b194feb48c3ac5e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 48/60] fix: support current times before 1970, and let patched
 time tick with the (possibly mocked) clock (Rust extension)

---
 src/lib.rs | 78 +++++++++++++++++++++++-------------------------------
 1 file changed, 33 insertions(+), 45 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e5e384d..fbfb48f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,22 +98,11 @@ unsafe fn _patch_time(module: *mut PyObject, arg: *mut PyObject, freeze: bool) -
         Err(type_err!("Expected an Instant"))?
     }
     let inst = instant::Instant::extract(arg);
-    let pin = (
-        inst.whole_secs()
-            .checked_sub(UNIX_EPOCH_INSTANT as _)
-            .ok_or_type_err("Cannot set time before 1970")?,
-        inst.subsec_nanos(),
-    );
+    let pin = inst.timestamp_nanos();
     state.time_patch = if freeze {
         TimePatch::Frozen(pin)
     } else {
-        TimePatch::KeepTicking {
-            pin: std::time::Duration::new(pin.0 as _, pin.1),
-            at: SystemTime::now()
-                .duration_since(SystemTime::UNIX_EPOCH)
-                .ok()
-                .ok_or_type_err("System time before 1970")?,
-        }
+        TimePatch::KeepTicking(pin - state.unpatched_time_ns()?)
     };
     Py_None().as_result()
 }
@@ -734,11 +723,10 @@ struct State {
 
 enum TimePatch {
     Unset,
-    Frozen((i64, u32)),
-    KeepTicking {
-        pin: std::time::Duration,
-        at: std::time::Duration,
-    },
+    // nanoseconds since the UNIX epoch
+    Frozen(i128),
+    // nanoseconds ahead of the actual time
+    KeepTicking(i128),
 }
 
 impl State {
@@ -757,43 +745,43 @@ impl State {
             .unwrap()
     }
 
+    // The current time (patched or not), in (whole, nano)seconds since the UNIX epoch
     unsafe fn time_ns(&self) -> PyResult<(i64, u32)> {
-        match self.time_patch {
-            TimePatch::Unset => {
-                if self.time_machine_exists {
-                    self.time_ns_py()
-                } else {
-                    self.time_ns_rust()
-                }
-            }
-            TimePatch::Frozen(e) => Ok(e),
-            TimePatch::KeepTicking { pin, at } => {
-                let dur = pin
-                    + SystemTime::now()
-                        .duration_since(SystemTime::UNIX_EPOCH)
-                        .ok()
-                        .ok_or_py_err(PyExc_OSError, "System time out of range")?
-                    - at;
-                Ok((dur.as_secs() as i64, dur.subsec_nanos()))
-            }
+        let ns = match self.time_patch {
+            TimePatch::Unset => self.unpatched_time_ns()?,
+            TimePatch::Frozen(ns) => ns,
+            TimePatch::KeepTicking(ahead) => self
+                .unpatched_time_ns()?
+                .checked_add(ahead)
+                .ok_or_py_err(PyExc_OSError, "System time out of range")?,
+        };
+        instant::Instant::from_timestamp_nanos(ns)
+            .ok_or_value_err("System time out of range")
+            .map(|i| (i.whole_secs() - UNIX_EPOCH_INSTANT, i.subsec_nanos()))
+    }
+
+    unsafe fn unpatched_time_ns(&self) -> PyResult<i128> {
+        if self.time_machine_exists {
+            self.time_ns_py()
+        } else {
+            self.time_ns_rust()
         }
     }
 
-    unsafe fn time_ns_py(&self) -> PyResult<(i64, u32)> {
+    unsafe fn time_ns_py(&self) -> PyResult<i128> {
         let ts = PyObject_CallNoArgs(self.time_ns).as_result()?;
         defer_decref!(ts);
-        let ns = (ts as *mut PyObject)
-            .to_i64()?
-            .ok_or_py_err(PyExc_RuntimeError, "time_ns() returned a non-integer")?;
-        Ok((ns / 1_000_000_000, (ns % 1_000_000_000) as u32))
+        (ts as *mut PyObject)
+            .to_i128()?
+            .ok_or_py_err(PyExc_RuntimeError, "time_ns() returned a non-integer")
     }
 
-    unsafe fn time_ns_rust(&self) -> PyResult<(i64, u32)> {
-        let dur = SystemTime::now()
+    unsafe fn time_ns_rust(&self) -> PyResult<i128> {
+        SystemTime::now()
             .duration_since(SystemTime::UNIX_EPOCH)
             .ok()
-            .ok_or_py_err(PyExc_OSError, "System time out of range")?;
-        Ok((dur.as_secs() as i64, dur.subsec_nanos()))
+            .ok_or_py_err(PyExc_OSError, "System time out of range")
+            .map(|dur| dur.as_nanos() as i128)
     }
 }
 
-- 
2.43.0


From 543097d778f2316a942c19621359158c13c465ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 49/60] fix: make Weekday picklable (Rust extension)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index fbfb48f..b4babb6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,6 +369,10 @@ unsafe extern "C" fn module_exec(module: *mut PyObject) -> c_int {
         ],
     )) as *mut _;
     defer_decref!(weekday_enum);
+    // Without this, the enum can't be pickled
+    if PyObject_SetAttrString(weekday_enum, c"__module__".as_ptr(), module_name) != 0 {
+        return -1;
+    }
     if PyModule_AddType(module, weekday_enum.cast()) != 0 {
         return -1;
     }
-- 
2.43.0


From 23bb83196c4569bf5d38accc0e5fb2e9dc6537f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 50/60] fix: normalize negative UTC offsets of created
 datetimes (Rust extension)

---
 src/offset_datetime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 1d183f2..a694e78 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -96,7 +96,7 @@ impl OffsetDateTime {
             offset_secs,
             ..
         } = self;
-        let tz = TimeZone_FromTimeZone(Delta_FromDelta(0, offset_secs, 0, 0, DeltaType), NULL());
+        let tz = TimeZone_FromTimeZone(Delta_FromDelta(0, offset_secs, 0, 1, DeltaType), NULL());
         defer_decref!(tz);
         DateTime_FromDateAndTime(
             year.into(),
-- 
2.43.0


From 4221eef55deeffe3786e9f150d9d596c5a927d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 51/60] fix: round to day boundaries on days shorter than 24
 hours or starting at a DST transition (Rust extension)

---
 src/date.rs            |  4 ++++
 src/system_datetime.rs | 40 +++++++++++++++++++++++-----------------
 src/zoned_datetime.rs  | 36 +++++++++++++++++++-----------------
 3 files changed, 46 insertions(+), 34 deletions(-)

diff --git a/src/date.rs b/src/date.rs
index 0e15e63..ff817c8 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -198,6 +198,10 @@ impl Date {
         Date { year, month, day }
     }
 
+    pub(crate) fn checked_increment(self) -> Option<Self> {
+        (self != MAX).then(|| self.increment())
+    }
+
     pub(crate) const fn decrement(self) -> Self {
         let Date {
             mut year,
diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index f940fd1..27e6677 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -938,7 +938,8 @@ unsafe fn day_length(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
     .instant();
     let start_of_next_day = OffsetDateTime::resolve_system_tz_using_disambiguate(
         py_api,
-        date.increment(),
+        date.checked_increment()
+            .ok_or_value_err("Resulting datetime out of range")?,
         MIDNIGHT,
         Disambiguate::Compatible,
         exc_repeated,
@@ -989,7 +990,11 @@ unsafe fn _round_day(
     state: &State,
     mode: round::Mode,
 ) -> PyResult<OffsetDateTime> {
-    let OffsetDateTime { date, time, .. } = OffsetDateTime::extract(slf);
+    let OffsetDateTime {
+        date,
+        time,
+        offset_secs,
+    } = OffsetDateTime::extract(slf);
     let &State {
         py_api,
         exc_repeated,
@@ -1009,33 +1014,34 @@ unsafe fn _round_day(
     let get_ceil = || {
         OffsetDateTime::resolve_system_tz_using_disambiguate(
             py_api,
-            date.increment(),
+            date.checked_increment()
+                .ok_or_value_err("Resulting datetime out of range")?,
             MIDNIGHT,
             Disambiguate::Compatible,
             exc_repeated,
             exc_skipped,
         )
     };
+    let floor = get_floor()?;
     match mode {
+        round::Mode::Floor => Ok(floor),
+        // exactly at the start of the day: nothing to round
+        round::Mode::Ceil
+            if floor.date == date && floor.time == time && floor.offset_secs == offset_secs =>
+        {
+            Ok(floor)
+        }
         round::Mode::Ceil => get_ceil(),
-        round::Mode::Floor => get_floor(),
         _ => {
-            let time_ns = time.total_nanos();
-            let floor = get_floor()?;
+            let time_ns = i128::from(time.total_nanos());
             let ceil = get_ceil()?;
-            let day_ns = ceil.instant().diff(floor.instant()).total_nanos() as u64;
-            debug_assert!(day_ns > 1);
-            let threshold = match mode {
-                round::Mode::HalfEven => day_ns / 2 + (time_ns % 2 == 0) as u64,
-                round::Mode::HalfFloor => day_ns / 2 + 1,
-                round::Mode::HalfCeil => day_ns / 2,
+            let day_ns = ceil.instant().diff(floor.instant()).total_nanos();
+            let round_up = match mode {
+                round::Mode::HalfEven | round::Mode::HalfFloor => time_ns * 2 > day_ns,
+                round::Mode::HalfCeil => time_ns * 2 >= day_ns,
                 _ => unreachable!(),
             };
-            if time_ns >= threshold {
-                Ok(ceil)
-            } else {
-                Ok(floor)
-            }
+            Ok(if round_up { ceil } else { floor })
         }
     }
 }
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 4102b41..8e4fb0f 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1405,7 +1405,8 @@ unsafe fn day_length(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
     .instant();
     let start_of_next_day = ZonedDateTime::resolve_using_disambiguate(
         py_api,
-        date.increment(),
+        date.checked_increment()
+            .ok_or_value_err("Resulting datetime out of range")?,
         MIDNIGHT,
         zoneinfo,
         Disambiguate::Compatible,
@@ -1463,7 +1464,7 @@ unsafe fn _round_day(
         date,
         time,
         zoneinfo,
-        ..
+        offset_secs,
     } = ZonedDateTime::extract(slf);
     let &State {
         py_api,
@@ -1485,7 +1486,8 @@ unsafe fn _round_day(
     let get_ceil = || {
         ZonedDateTime::resolve_using_disambiguate(
             py_api,
-            date.increment(),
+            date.checked_increment()
+                .ok_or_value_err("Resulting datetime out of range")?,
             MIDNIGHT,
             zoneinfo,
             Disambiguate::Compatible,
@@ -1493,26 +1495,26 @@ unsafe fn _round_day(
             exc_skipped,
         )
     };
+    let floor = get_floor()?;
     match mode {
+        round::Mode::Floor => Ok(floor),
+        // exactly at the start of the day: nothing to round
+        round::Mode::Ceil
+            if floor.date == date && floor.time == time && floor.offset_secs == offset_secs =>
+        {
+            Ok(floor)
+        }
         round::Mode::Ceil => get_ceil(),
-        round::Mode::Floor => get_floor(),
         _ => {
-            let time_ns = time.total_nanos();
-            let floor = get_floor()?;
+            let time_ns = i128::from(time.total_nanos());
             let ceil = get_ceil()?;
-            let day_ns = ceil.instant().diff(floor.instant()).total_nanos() as u64;
-            debug_assert!(day_ns > 1);
-            let threshold = match mode {
-                round::Mode::HalfEven => day_ns / 2 + (time_ns % 2 == 0) as u64,
-                round::Mode::HalfFloor => day_ns / 2 + 1,
-                round::Mode::HalfCeil => day_ns / 2,
+            let day_ns = ceil.instant().diff(floor.instant()).total_nanos();
+            let round_up = match mode {
+                round::Mode::HalfEven | round::Mode::HalfFloor => time_ns * 2 > day_ns,
+                round::Mode::HalfCeil => time_ns * 2 >= day_ns,
                 _ => unreachable!(),
             };
-            if time_ns >= threshold {
-                Ok(ceil)
-            } else {
-                Ok(floor)
-            }
+            Ok(if round_up { ceil } else { floor })
         }
     }
 }
-- 
2.43.0


From f41174962da62cb387ae49294f5e754eecefd5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 52/60] fix: raise ImplicitlyIgnoringDST for an explicit
 ignore_dst=False (Rust extension)

---
 src/offset_datetime.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index a694e78..67a181a 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -494,10 +494,12 @@ pub(crate) unsafe fn check_ignore_dst_kwarg(
     msg: &str,
 ) -> PyResult<()> {
     match kwargs.next() {
-        Some((key, value))
-            if kwargs.len() == 1 && key.kwarg_eq(state.str_ignore_dst) && value == Py_True() =>
-        {
-            Ok(())
+        Some((key, value)) if kwargs.len() == 1 && key.kwarg_eq(state.str_ignore_dst) => {
+            if value == Py_True() {
+                Ok(())
+            } else {
+                Err(py_err!(state.exc_implicitly_ignoring_dst, msg))
+            }
         }
         Some((key, _)) => Err(type_err!("Unknown keyword argument: {}", key.repr())),
         _ => Err(py_err!(state.exc_implicitly_ignoring_dst, msg)),
-- 
2.43.0


From df52e7a1d9dd0850bdbc56a86610b5c8bb2e5a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 53/60] fix: export the Weekday members, as declared in the
 type stubs (Rust extension)

---
 src/lib.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b4babb6..cec5ade 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -386,6 +386,22 @@ unsafe extern "C" fn module_exec(module: *mut PyObject) -> c_int {
         PyObject_GetAttrString(weekday_enum, c"SATURDAY".as_ptr()),
         PyObject_GetAttrString(weekday_enum, c"SUNDAY".as_ptr()),
     ];
+    for (name, member) in [
+        c"MONDAY",
+        c"TUESDAY",
+        c"WEDNESDAY",
+        c"THURSDAY",
+        c"FRIDAY",
+        c"SATURDAY",
+        c"SUNDAY",
+    ]
+    .iter()
+    .zip(state.weekday_enum_members)
+    {
+        if PyObject_SetAttrString(module, name.as_ptr(), member) != 0 {
+            return -1;
+        }
+    }
 
     state.str_years = PyUnicode_InternFromString(c"years".as_ptr());
     state.str_months = PyUnicode_InternFromString(c"months".as_ptr());
-- 
2.43.0


From 7085b42bc6543e31c77be94b0a795733a1b4b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:30 +0000
Subject: [PATCH 54/60] fix: OffsetDateTime.strptime() accepted offsets with a
 fraction of a second

---
 pysrc/whenever/_pywhenever.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index 72074f7..fd3a2a8 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -3945,10 +3945,7 @@ class OffsetDateTime(_KnowsInstantAndLocal):
                 "Parsed datetime must have an offset. "
                 "Use %z, %Z, or %:z in the format string"
             )
-        return cls._from_py_unchecked(
-            _check_utc_bounds(parsed.replace(microsecond=0)),
-            parsed.microsecond * 1_000,
-        )
+        return cls.from_py_datetime(parsed)
 
     def format_rfc2822(self) -> str:
         """Format as an RFC 2822 string.
-- 
2.43.0


From 23aa2246fc57724fbe9a088edea7882873721d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:12 +0000
Subject: [PATCH 55/60] fix: DateTimeDelta * x raised AttributeError for
 operands that define multiplication

---
 pysrc/whenever/_pywhenever.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index fd3a2a8..edd529b 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -2425,13 +2425,17 @@ class DateTimeDelta(_ImmutableBase):
         >>> d * 2
         DateTimeDelta(P2W22DT8H)
         """
+        if not isinstance(other, int):
+            return NotImplemented
         # OPTIMIZE: use unchecked constructor
         return self._from_parts(
             self._date_part * other, self._time_part * other
         )
 
     def __rmul__(self, other: int) -> DateTimeDelta:
-        return self * other
+        if isinstance(other, int):
+            return self * other
+        return NotImplemented
 
     def __neg__(self) -> DateTimeDelta:
         """Negate the delta
-- 
2.43.0


From a690ad1b83a65330f17f5a72f7ca087f91bdac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 56/60] fix: operators left an exception set, or raised
 TypeError, before the other operand could handle the operation (Rust
 extension)

---
 src/common.rs          | 10 ++++++++++
 src/date.rs            | 25 ++++++++++---------------
 src/date_delta.rs      |  4 ++--
 src/datetime_delta.rs  |  4 ++--
 src/instant.rs         | 11 ++++-------
 src/local_datetime.rs  |  4 ++--
 src/offset_datetime.rs |  4 ++--
 src/system_datetime.rs | 11 ++++-------
 src/time_delta.rs      |  4 ++--
 src/zoned_datetime.rs  | 11 ++++-------
 10 files changed, 42 insertions(+), 46 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 0dea094..1aa24b7 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -393,6 +393,16 @@ impl PyErrOccurred {
 pub(crate) type PyResult<T> = Result<T, PyErrOccurred>;
 pub(crate) type PyReturn = PyResult<&'static mut PyObject>;
 
+// Like PyType_GetModule(), but doesn't set an exception
+// if the type isn't associated with a module (e.g. most Python classes)
+pub(crate) unsafe fn type_module(tp: *mut PyTypeObject) -> *mut PyObject {
+    let module = PyType_GetModule(tp);
+    if module.is_null() {
+        PyErr_Clear();
+    }
+    module
+}
+
 pub(crate) trait PyObjectExt {
     #[allow(clippy::wrong_self_convention)]
     unsafe fn as_result<'a>(self) -> PyResult<&'a mut PyObject>;
diff --git a/src/date.rs b/src/date.rs
index ff817c8..b688f01 100644
--- a/src/date.rs
+++ b/src/date.rs
@@ -502,8 +502,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = type_module(type_a);
+        let mod_b = type_module(type_b);
         if mod_a == mod_b && type_b == State::for_type(type_a).date_delta_type {
             let DateDelta { months, days } = DateDelta::extract(obj_b);
             Date::extract(obj_a)
@@ -512,12 +512,9 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
                 .ok_or_value_err("Resulting date out of range")?
                 .to_obj(type_a)
         } else {
-            // FUTURE: do we unnecessarily eliminate classes implementing __rsub__?
-            // We can safely discount other types within our module
-            Err(type_err!(
-                "unsupported operand type(s) for -: 'Date' and '{}'",
-                (type_b as *mut PyObject).repr()
-            ))?
+            // Python raises the TypeError if the other operand
+            // doesn't handle the operation either
+            Ok(newref(Py_NotImplemented()))
         }
     }
 }
@@ -526,8 +523,8 @@ unsafe fn __add__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // We need to be careful since this method can be called reflexively
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
-    let mod_a = PyType_GetModule(type_a);
-    let mod_b = PyType_GetModule(type_b);
+    let mod_a = type_module(type_a);
+    let mod_b = type_module(type_b);
     if mod_a == mod_b && type_b == State::for_mod(mod_a).date_delta_type {
         let DateDelta { months, days } = DateDelta::extract(obj_b);
         Date::extract(obj_a)
@@ -536,11 +533,9 @@ unsafe fn __add__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
             .ok_or_value_err("Resulting date out of range")?
             .to_obj(type_a)
     } else {
-        // We can safely discount other types within our module
-        Err(type_err!(
-            "unsupported operand type(s) for +: 'Date' and '{}'",
-            (type_b as *mut PyObject).repr()
-        ))?
+        // Python raises the TypeError if the other operand
+        // doesn't handle the operation either
+        Ok(newref(Py_NotImplemented()))
     }
 }
 
diff --git a/src/date_delta.rs b/src/date_delta.rs
index 4200701..2ea8a65 100644
--- a/src/date_delta.rs
+++ b/src/date_delta.rs
@@ -347,8 +347,8 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
             })?
             .to_obj(type_a)
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = type_module(type_a);
+        let mod_b = type_module(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             if type_b == state.time_delta_type {
diff --git a/src/datetime_delta.rs b/src/datetime_delta.rs
index 367dac6..5c659e3 100644
--- a/src/datetime_delta.rs
+++ b/src/datetime_delta.rs
@@ -310,8 +310,8 @@ unsafe fn _add_method(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool)
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = type_module(type_a);
+        let mod_b = type_module(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             let delta_b = if type_b == state.date_delta_type {
diff --git a/src/instant.rs b/src/instant.rs
index f6b33ea..adb112c 100644
--- a/src/instant.rs
+++ b/src/instant.rs
@@ -404,8 +404,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = type_module(type_a);
+        let mod_b = type_module(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).zoned_datetime_type {
                 ZonedDateTime::extract(obj_b).instant()
@@ -427,7 +427,7 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
 }
 
 unsafe fn __add__(dt: *mut PyObject, delta_obj: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(dt)) == PyType_GetModule(Py_TYPE(delta_obj)) {
+    if type_module(Py_TYPE(dt)) == type_module(Py_TYPE(delta_obj)) {
         _shift(dt, delta_obj, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -436,10 +436,7 @@ unsafe fn __add__(dt: *mut PyObject, delta_obj: *mut PyObject) -> PyReturn {
 
 #[inline]
 unsafe fn _shift(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
-    debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
-    );
+    debug_assert_eq!(type_module(Py_TYPE(obj_a)), type_module(Py_TYPE(obj_b)));
     let type_a = Py_TYPE(obj_a);
     let mut delta = if Py_TYPE(obj_b) == State::for_type(type_a).time_delta_type {
         TimeDelta::extract(obj_b)
diff --git a/src/local_datetime.rs b/src/local_datetime.rs
index a58c2b0..04a7397 100644
--- a/src/local_datetime.rs
+++ b/src/local_datetime.rs
@@ -242,8 +242,8 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
     let type_b = Py_TYPE(obj_b);
     let type_a = Py_TYPE(obj_a);
 
-    let mod_a = PyType_GetModule(type_a);
-    let mod_b = PyType_GetModule(type_b);
+    let mod_a = type_module(type_a);
+    let mod_b = type_module(type_b);
 
     if mod_a == mod_b {
         let state = State::for_mod(mod_a);
diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 67a181a..360c00e 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -327,8 +327,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = type_module(type_a);
+        let mod_b = type_module(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             let inst_b = if type_b == state.instant_type {
diff --git a/src/system_datetime.rs b/src/system_datetime.rs
index 27e6677..48488e1 100644
--- a/src/system_datetime.rs
+++ b/src/system_datetime.rs
@@ -301,10 +301,7 @@ unsafe fn __richcmp__(a_obj: *mut PyObject, b_obj: *mut PyObject, op: c_int) ->
 
 #[inline]
 unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
-    debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
-    );
+    debug_assert_eq!(type_module(Py_TYPE(obj_a)), type_module(Py_TYPE(obj_b)));
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
     let &State {
@@ -355,7 +352,7 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
 }
 
 unsafe fn __add__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(obj_a)) == PyType_GetModule(Py_TYPE(obj_b)) {
+    if type_module(Py_TYPE(obj_a)) == type_module(Py_TYPE(obj_b)) {
         _shift_operator(obj_a, obj_b, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -376,8 +373,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = type_module(type_a);
+        let mod_b = type_module(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).instant_type {
                 Instant::extract(obj_b)
diff --git a/src/time_delta.rs b/src/time_delta.rs
index 33a2a00..0ce7288 100644
--- a/src/time_delta.rs
+++ b/src/time_delta.rs
@@ -534,8 +534,8 @@ unsafe fn _add_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool
             .to_obj(type_a)
     // Careful argument handling since the method may be called with args reversed
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = type_module(type_a);
+        let mod_b = type_module(type_b);
         if mod_a == mod_b {
             let state = State::for_mod(mod_a);
             if type_b == state.date_delta_type {
diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 8e4fb0f..2457ae3 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -427,10 +427,7 @@ unsafe extern "C" fn __hash__(slf: *mut PyObject) -> Py_hash_t {
 
 #[inline]
 unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bool) -> PyReturn {
-    debug_assert_eq!(
-        PyType_GetModule(Py_TYPE(obj_a)),
-        PyType_GetModule(Py_TYPE(obj_b))
-    );
+    debug_assert_eq!(type_module(Py_TYPE(obj_a)), type_module(Py_TYPE(obj_b)));
     let type_a = Py_TYPE(obj_a);
     let type_b = Py_TYPE(obj_b);
     let &State {
@@ -481,7 +478,7 @@ unsafe fn _shift_operator(obj_a: *mut PyObject, obj_b: *mut PyObject, negate: bo
 }
 
 unsafe fn __add__(slf: *mut PyObject, arg: *mut PyObject) -> PyReturn {
-    if PyType_GetModule(Py_TYPE(slf)) == PyType_GetModule(Py_TYPE(arg)) {
+    if type_module(Py_TYPE(slf)) == type_module(Py_TYPE(arg)) {
         _shift_operator(slf, arg, false)
     } else {
         Ok(newref(Py_NotImplemented()))
@@ -502,8 +499,8 @@ unsafe fn __sub__(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
     // by reflexive operations with arbitrary types.
     // We need to eliminate them carefully.
     } else {
-        let mod_a = PyType_GetModule(type_a);
-        let mod_b = PyType_GetModule(type_b);
+        let mod_a = type_module(type_a);
+        let mod_b = type_module(type_b);
         if mod_a == mod_b {
             let inst_b = if type_b == State::for_mod(mod_a).instant_type {
                 Instant::extract(obj_b)
-- 
2.43.0


From 094684b84220ac924f03d18091f019ee4a38ce17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 57/60] fix: every raised error leaked its message (Rust
 extension)

---
 src/common.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 1aa24b7..bd4adde 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -28,14 +28,20 @@ macro_rules! py_err(
     };
     ($exc:expr, $msg:expr) => {{
         match $msg.to_py() {
-            Ok(msg) => PyErr_SetObject($exc, msg),
+            Ok(msg) => {
+                PyErr_SetObject($exc, msg);
+                Py_DECREF(msg)
+            }
             Err(_) => {},
         }
         PyErrOccurred()
     }};
     ($exc:expr, $msg:literal, $($args:tt)*) => {{
         match format!($msg, $($args)*).to_py() {
-            Ok(msg) => PyErr_SetObject($exc, msg),
+            Ok(msg) => {
+                PyErr_SetObject($exc, msg);
+                Py_DECREF(msg)
+            }
             Err(_) => {},
         }
         PyErrOccurred()
@@ -565,7 +571,8 @@ impl<T> OptionExt<T> for Option<T> {
             // If conversion to a Python object fails (MemoryError likely),
             // a message is already set for us.
             if let Ok(msg) = msg.to_py() {
-                PyErr_SetObject(exc, msg)
+                PyErr_SetObject(exc, msg);
+                Py_DECREF(msg)
             };
             PyErrOccurred()
         })
-- 
2.43.0


From 880e9eaa8419ddbcf73a0f0dfba5597b04c193e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 58/60] fix: conversions to datetime leaked intermediate
 objects (Rust extension)

---
 src/common.rs          | 11 +++++------
 src/offset_datetime.rs |  8 ++++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index bd4adde..0a8445a 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -791,12 +791,11 @@ unsafe fn system_offset(
     if PyDict_SetItemString(kwargs, c"tzinfo".as_ptr(), Py_None()) == -1 {
         return Err(PyErrOccurred());
     }
-    let shifted_naive = PyObject_Call(
-        PyObject_GetAttrString(aware, c"replace".as_ptr()).as_result()?,
-        PyTuple_New(0),
-        kwargs,
-    )
-    .as_result()?;
+    let replace = PyObject_GetAttrString(aware, c"replace".as_ptr()).as_result()?;
+    defer_decref!(replace);
+    let args = PyTuple_New(0).as_result()?;
+    defer_decref!(args);
+    let shifted_naive = PyObject_Call(replace, args, kwargs).as_result()?;
     defer_decref!(shifted_naive);
     let shifted = match PyObject_RichCompareBool(naive, shifted_naive, Py_EQ) {
         1 => false,
diff --git a/src/offset_datetime.rs b/src/offset_datetime.rs
index 360c00e..2aebe9b 100644
--- a/src/offset_datetime.rs
+++ b/src/offset_datetime.rs
@@ -96,7 +96,9 @@ impl OffsetDateTime {
             offset_secs,
             ..
         } = self;
-        let tz = TimeZone_FromTimeZone(Delta_FromDelta(0, offset_secs, 0, 1, DeltaType), NULL());
+        let offset = Delta_FromDelta(0, offset_secs, 0, 1, DeltaType).as_result()?;
+        defer_decref!(offset);
+        let tz = TimeZone_FromTimeZone(offset, NULL()).as_result()?;
         defer_decref!(tz);
         DateTime_FromDateAndTime(
             year.into(),
@@ -1042,7 +1044,9 @@ unsafe fn format_rfc2822(slf: *mut PyObject, _: *mut PyObject) -> PyReturn {
         py_api,
         ..
     } = State::for_obj(slf);
-    call1(format_rfc2822, OffsetDateTime::extract(slf).to_py(py_api)?)
+    let py_dt = OffsetDateTime::extract(slf).to_py(py_api)?;
+    defer_decref!(py_dt);
+    call1(format_rfc2822, py_dt)
 }
 
 #[cfg(Py_3_10)]
-- 
2.43.0


From 55a35e6482d19763d87bd734a49a2c3b268c45e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 59/60] fix: a failing allocation crashed ZonedDateTime or made
 it print ??? as timezone (Rust extension)

---
 src/zoned_datetime.rs | 64 ++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/src/zoned_datetime.rs b/src/zoned_datetime.rs
index 2457ae3..4b00b88 100644
--- a/src/zoned_datetime.rs
+++ b/src/zoned_datetime.rs
@@ -1,7 +1,6 @@
 use core::ffi::{c_int, c_long, c_void, CStr};
 use core::{mem, ptr::null_mut as NULL};
 use pyo3_ffi::*;
-use std::fmt::{self, Display, Formatter};
 
 use crate::common::*;
 use crate::datetime_delta::set_units_from_kwargs;
@@ -96,7 +95,7 @@ impl ZonedDateTime {
                         "{} {} is repeated in timezone '{}'",
                         date,
                         time,
-                        zoneinfo_key(zoneinfo)
+                        zoneinfo_key(zoneinfo)?
                     ))?,
                 };
                 ZonedDateTime::new(date, time, offset_secs, zoneinfo)
@@ -110,7 +109,7 @@ impl ZonedDateTime {
                         "{} {} is skipped in timezone '{}'",
                         date,
                         time,
-                        zoneinfo_key(zoneinfo)
+                        zoneinfo_key(zoneinfo)?
                     ))?,
                 };
                 DateTime { date, time }
@@ -268,33 +267,10 @@ impl PyWrapped for ZonedDateTime {
     }
 }
 
-impl Display for ZonedDateTime {
-    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        let &ZonedDateTime {
-            date,
-            time,
-            offset_secs,
-            zoneinfo,
-        } = self;
-        write!(
-            f,
-            "{}T{}{}[{}]",
-            date,
-            time,
-            offset_fmt(offset_secs),
-            unsafe { zoneinfo_key(zoneinfo) }
-        )
-    }
-}
-
-unsafe fn zoneinfo_key(zoneinfo: *mut PyObject) -> String {
-    let key_obj = PyObject_GetAttrString(zoneinfo, c"key".as_ptr());
+unsafe fn zoneinfo_key(zoneinfo: *mut PyObject) -> PyResult<String> {
+    let key_obj: *mut PyObject = PyObject_GetAttrString(zoneinfo, c"key".as_ptr()).as_result()?;
     defer_decref!(key_obj);
-    match key_obj.to_str() {
-        Ok(Some(s)) => s,
-        _ => "???",
-    }
-    .to_string()
+    Ok(key_obj.to_str()?.unwrap_or("???").to_string())
 }
 
 unsafe fn __new__(cls: *mut PyTypeObject, args: *mut PyObject, kwargs: *mut PyObject) -> PyReturn {
@@ -389,13 +365,26 @@ unsafe fn __repr__(slf: *mut PyObject) -> PyReturn {
         date,
         time,
         offset_fmt(offset_secs),
-        zoneinfo_key(zoneinfo)
+        zoneinfo_key(zoneinfo)?
     )
     .to_py()
 }
 
 unsafe fn __str__(slf: *mut PyObject) -> PyReturn {
-    format!("{}", ZonedDateTime::extract(slf)).to_py()
+    let ZonedDateTime {
+        date,
+        time,
+        offset_secs,
+        zoneinfo,
+    } = ZonedDateTime::extract(slf);
+    format!(
+        "{}T{}{}[{}]",
+        date,
+        time,
+        offset_fmt(offset_secs),
+        zoneinfo_key(zoneinfo)?
+    )
+    .to_py()
 }
 
 unsafe fn __richcmp__(a_obj: *mut PyObject, b_obj: *mut PyObject, op: c_int) -> PyReturn {
@@ -557,8 +546,8 @@ static mut SLOTS: &[PyType_Slot] = &[
 
 // NOTE: equal timezones aren't always the same object, since
 // the zoneinfo cache may be cleared or bypassed.
-unsafe fn is_same_tz(a: *mut PyObject, b: *mut PyObject) -> bool {
-    a == b || zoneinfo_key(a) == zoneinfo_key(b)
+unsafe fn is_same_tz(a: *mut PyObject, b: *mut PyObject) -> PyResult<bool> {
+    Ok(a == b || zoneinfo_key(a)? == zoneinfo_key(b)?)
 }
 
 unsafe fn exact_eq(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
@@ -568,7 +557,7 @@ unsafe fn exact_eq(obj_a: *mut PyObject, obj_b: *mut PyObject) -> PyReturn {
         (a.date == b.date
             && a.time == b.time
             && a.offset_secs == b.offset_secs
-            && is_same_tz(a.zoneinfo, b.zoneinfo))
+            && is_same_tz(a.zoneinfo, b.zoneinfo)?)
         .to_py()
     } else {
         Err(type_err!(
@@ -660,7 +649,8 @@ unsafe fn py_datetime(slf: &mut PyObject, _: &mut PyObject) -> PyReturn {
             (nanos / 1_000) as _,
             zdt.zoneinfo,
             DateTimeType,
-        )),
+        )
+        .as_result()?),
     )
 }
 
@@ -839,7 +829,7 @@ unsafe fn replace(
     handle_kwargs("replace", kwargs, |key, value, eq| {
         if eq(key, state.str_tz) {
             let zoneinfo_new: *mut PyObject = call1(state.zoneinfo_type, value)?;
-            if !is_same_tz(zoneinfo_new, zoneinfo) {
+            if !is_same_tz(zoneinfo_new, zoneinfo)? {
                 dis.get_or_insert(Disambiguate::Compatible);
             };
             _zoneinfo_ref = Some(DecrefOnDrop(zoneinfo_new));
@@ -1239,7 +1229,7 @@ unsafe fn parse_common_iso(cls: *mut PyObject, s_obj: *mut PyObject) -> PyReturn
         Err(py_err!(
             exc_invalid_offset,
             "Invalid offset for timezone {}",
-            zoneinfo_key(zoneinfo)
+            zoneinfo_key(zoneinfo)?
         ))
     }
 }
-- 
2.43.0


From c552bc8548c4844b97f1e075740fc1e7d9c45413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:30 +0000
Subject: [PATCH 60/60] fix: SystemDateTime + a delta without calendar part
 resolved the local time again (unlike add())

---
 pysrc/whenever/_pywhenever.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pysrc/whenever/_pywhenever.py b/pysrc/whenever/_pywhenever.py
index edd529b..b45ac10 100644
--- a/pysrc/whenever/_pywhenever.py
+++ b/pysrc/whenever/_pywhenever.py
@@ -5007,13 +5007,10 @@ class SystemDateTime(_KnowsInstantAndLocal):
             return self._from_py_unchecked(
                 (py_dt + _timedelta(seconds=delta_secs)).astimezone(), nanos
             )
-        elif isinstance(delta, DateDelta):
-            return self.replace_date(self.date() + delta)
-        elif isinstance(delta, DateTimeDelta):
-            return (
-                self.replace_date(self.date() + delta._date_part)
-                + delta._time_part
-            )
+        elif isinstance(delta, (DateDelta, DateTimeDelta)):
+            # Without a calendar part, this must not resolve the local time
+            # again: the offset needn't be that of the current timezone.
+            return self._shift(1, delta)
         return NotImplemented
 
     @overload
-- 
2.43.0

