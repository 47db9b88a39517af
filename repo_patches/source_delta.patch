From de3ffb889b18740047cff1b25483eabe86e8edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 01/13] fix: dtrange gives an empty range, not a negative
 length, when stop is behind start

Like range(), a range whose stop doesn't lie in the direction of step is
empty; and a full-clock time range (start == stop) with a negative step
goes backward around the whole clock.
---
 src/fauxdoc/dtrange.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b196d0b..e88d28f 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -349,9 +349,14 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
         # 24-hour clock as a time range. E.g., midnight to midnight is
         # a 24-hour range instead of an empty range.
         start_refdate = datetime.combine(date(99, 1, 1), start_obj)
-        stop_refdate = start_refdate + timedelta(days=1)
+        day = timedelta(days=1)
+        stop_refdate = start_refdate + (
+            day if step_td > timedelta(0) else -day
+        )
         length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
     length += 1 if rem else 0
-    return DateOrTimeRange(start_obj, length, step_td)
+    # Like `range`: if 'stop' doesn't lie in the direction of 'step' from
+    # 'start', then the range is empty.
+    return DateOrTimeRange(start_obj, max(length, 0), step_td)
-- 
2.43.0


From 45c13130068906d5f2ff829348df4296fdb67595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:41 +0000
Subject: [PATCH 02/13] fix: looking up a value not comparable to a date/time
 range is a miss, not a TypeError

---
 src/fauxdoc/dtrange.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index e88d28f..7633d1a 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -240,9 +240,15 @@ class DateOrTimeRange(Sequence[DT]):
                 index value.
         """
         if isinstance(value, type(self.start)):
-            index, rem = _value_to_index(value, self._start, self._step)
-            if not rem and index in self._index_range[start:stop]:
-                return index
+            try:
+                index, rem = _value_to_index(value, self._start, self._step)
+            except TypeError:
+                # `value` can't be compared to this range's values, e.g.
+                # a datetime vs a date, or naive vs timezone-aware.
+                pass
+            else:
+                if not rem and index in self._index_range[start:stop]:
+                    return index
         raise ValueError(f'{value} is not in range')
 
     def __contains__(self, value: object) -> bool:
-- 
2.43.0


From ca36eb17bdcc0fa06e5553769ca8613a315b49f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 03/13] fix: slices of date/time ranges with fewer than two
 values don't fail

A slice with no values computed its unused start value, which could
overflow; a slice with one value computed its unused step, which could
overflow or be rejected for a time range.
---
 src/fauxdoc/dtrange.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 7633d1a..6029439 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -179,8 +179,11 @@ class DateOrTimeRange(Sequence[DT]):
         """Returns the requested value or values from the range."""
         if isinstance(index, slice):
             slc = self._index_range[index]
+            if not slc:
+                return type(self)(self.start, 0, self.step)
             start = _index_to_value(slc.start, self.start, self.step)
-            return type(self)(start, len(slc), self.step * slc.step)
+            step = self.step * slc.step if len(slc) > 1 else self.step
+            return type(self)(start, len(slc), step)
         try:
             index_num = self._index_range[index]
         except IndexError:
-- 
2.43.0


From 7fa1ea7b93edeb150dba42a2cb29d4fb2bdd9940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 04/13] fix: Text emits an empty string, not nothing, for a
 text of zero words

emit raised an IndexError and emit_many returned fewer values than
requested when the numwords emitter emitted 0, and too few separators
were generated (or a negative number was requested).
---
 src/fauxdoc/emitters/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 3c33bc8..89472f9 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -287,11 +287,13 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         lengths = self._emitters['numwords'](number)
         total_words = sum(lengths)
         words = self._get_words_iterator(total_words)
-        seps = iter(self._emitters['sep'](total_words - number))
+        total_seps = sum([max(length - 1, 0) for length in lengths])
+        seps = iter(self._emitters['sep'](total_seps))
         for length in lengths:
+            render = []
             if length:
-                render = [next(words)]
+                render.append(next(words))
                 for _ in range(1, length):
                     render.extend([next(seps, ' '), next(words)])
-                texts.append(''.join(render))
+            texts.append(''.join(render))
         return texts
-- 
2.43.0


From ab332e4083a63e913e99e0d990d2863ee0f0c30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 05/13] fix: Text.num_unique_values is an int when a text may
 have zero words

---
 src/fauxdoc/emitters/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 89472f9..58d1f6b 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -219,7 +219,8 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
             nums: List[int] = []
             for length in numwords.items:
                 n_uw = self._emitters['word'].num_unique_values ** length
-                n_us = self._emitters['sep'].num_unique_values ** (length - 1)
+                n_us = (self._emitters['sep'].num_unique_values
+                        ** max(length - 1, 0))
                 nums.append(n_uw * n_us)
             self._num_unique_values = sum(nums)
 
-- 
2.43.0


From c5cffe0e3a2be72c17eb4eb5b54b6ed73415bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 06/13] fix: weighted_shuffle doesn't fail on a weight or a
 random draw of 0

A zero weight (explicit, or from gaussian/poisson underflow) raised a
ZeroDivisionError, and a random() result of 0.0 a math domain error.
---
 src/fauxdoc/mathtools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 7291ee2..5051408 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -1,6 +1,7 @@
 """Contains math utility functions used in the data module."""
 import math
 import random
+import sys
 from typing import List, Optional, Sequence
 
 from fauxdoc.typing import F, T
@@ -129,7 +130,13 @@ def weighted_shuffle(items: Sequence[T],
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions.
-        scores = zip((math.log(rng.random()) / w for w in weights), items)
+        # Items with a weight of 0 always have the lowest score. (Note
+        # `rng.random()` may be 0.0, for which there is no logarithm.)
+        scores = zip(
+            (math.log(rng.random() or sys.float_info.min) / w if w
+             else -math.inf for w in weights),
+            items
+        )
 
         # Note: to pick the highest scoring k items, reverse sorting
         # the whole list is faster than using the `heapq.nlargest`
-- 
2.43.0


From fe66f0de005bab28f64675517c0753a4e4d1611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 07/13] fix: poisson doesn't raise an OverflowError for large x

math.factorial(x) is too large for a float when x > 170, so
poisson_choice failed for any sequence of more than 170 items.
---
 src/fauxdoc/mathtools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 5051408..63f7799 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -20,7 +20,11 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    try:
+        return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    except OverflowError:
+        # The terms are too large to be floats, so use logarithms.
+        return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From a5656becf6429ecde091f6b3a8ca907544db2f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 08/13] fix: Field.multi_valued looks at what its repeat
 emitter's items are, not at their container

---
 src/fauxdoc/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 42f11e0..79e7cf1 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -135,7 +135,8 @@ class Field(RandomWithChildrenMixin, Generic[T]):
     def multi_valued(self) -> bool:
         """See the 'multi_valued' attribute."""
         if hasattr(self.repeat_emitter, 'items'):
-            return bool(self.repeat_emitter.items != [None])
+            items = self.repeat_emitter.items
+            return any(item is not None for item in items)
         return True
 
     @property
-- 
2.43.0


From 49af65f0c1276de3db56ff287175f99231735c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 09/13] fix: poisson doesn't raise a ValueError for large x and
 mu of 0

---
 src/fauxdoc/mathtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 63f7799..71c4928 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -24,6 +24,8 @@ def poisson(x: int, mu: float = 1) -> float:
         return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
     except OverflowError:
         # The terms are too large to be floats, so use logarithms.
+        if not mu:
+            return 0.0
         return math.exp(x * math.log(mu) - mu - math.lgamma(x + 1))
 
 
-- 
2.43.0


From 76f113e5152df1f15f776c0add3143ef59cbdb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 10/13] fix: time ranges that wrap around for about a century
 no longer overflow

---
 src/fauxdoc/dtrange.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 6029439..76b6892 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -13,10 +13,11 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
     if isinstance(start, time):
         # We can't do timedelta operations on time objects, so we have
         # to fake it by combining the time with a reference date, doing
-        # the math, and returning the time.
+        # the math, and returning the time. (Whole days don't change the
+        # time, and too many of them would overflow.)
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).time()
+        return (ref_dt + delta % timedelta(days=1)).time()
     return start + delta
 
 
-- 
2.43.0


From 010ed1e1545d9063645249c9c1daa17ba394502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 11/13] fix: values of a range of timezone-aware times keep
 their timezone

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 76b6892..9429b5c 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -17,7 +17,7 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # time, and too many of them would overflow.)
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta % timedelta(days=1)).time()
+        return (ref_dt + delta % timedelta(days=1)).timetz()
     return start + delta
 
 
-- 
2.43.0


From a5868a0ac8b01f26cbff93ca67097ca50adfd608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 12/13] fix: dates and times equal to a value of a range of a
 date/time subclass are found in it

---
 src/fauxdoc/dtrange.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 9429b5c..64ac9f1 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -243,7 +243,7 @@ class DateOrTimeRange(Sequence[DT]):
             stop: (Optional.) Limit your search based on this stop
                 index value.
         """
-        if isinstance(value, type(self.start)):
+        if isinstance(value, (date, datetime, time)):
             try:
                 index, rem = _value_to_index(value, self._start, self._step)
             except TypeError:
@@ -257,7 +257,7 @@ class DateOrTimeRange(Sequence[DT]):
 
     def __contains__(self, value: object) -> bool:
         """Returns True if a value is in this range."""
-        if isinstance(value, type(self.start)):
+        if isinstance(value, (date, datetime, time)):
             try:
                 self.index(value)
             except ValueError:
-- 
2.43.0


From c6d238833ba6fd7c64486db3286833bcffec9e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:39 +0000
Subject: [PATCH 13/13] fix: equal date/time ranges have equal hashes also if
 one is of a subclass

---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 64ac9f1..22b1730 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -228,7 +228,7 @@ class DateOrTimeRange(Sequence[DT]):
         my_len = len(self)
         start = self.start if my_len > 0 else None
         step = self.step if my_len > 1 else None
-        return hash((type(self), my_len, start, step))
+        return hash((DateOrTimeRange, my_len, start, step))
 
     def index(self,
               value: DT,
-- 
2.43.0

