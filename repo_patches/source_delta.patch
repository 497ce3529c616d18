From 8775464de36137e42fdf12f1f58f3aaee80f2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 01/74] fix: evaluate uniform points exactly at the points
 despite rounding

(x - x0) / interval can be slightly off an integer at a point, so that
previous/next interpolation picked the neighbouring point and the last
point could raise an IndexError (e.g. spacing 0.1).
---
 curvepy/points.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index f51ad21..3ea24f5 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -285,7 +285,13 @@ class Points(Curve):
         if self.is_uniform:
             if self.interval is None:
                 return 0
-            return (x - self._points[0][0]) / self.interval
+            i = (x - self._points[0][0]) / self.interval
+            if math.isfinite(i):
+                # Avoid rounding errors at the points themselves
+                nearest_i = round(i)
+                if 0 <= nearest_i < len(self._points) and self._points[nearest_i][0] == x:
+                    return float(nearest_i)
+            return i
         else:
             i1 = _bisect_points(self._points, x)
             i0 = i1 - 1
-- 
2.43.0


From d2908e255c219a3203bc3431b678eeea5287885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 02/74] fix: check the spacing of every point, and against the
 right interval

Only the last point was compared with the expected end, so uneven points
counted as evenly spaced (wrong values between points) when the last one
happened to fit, an uneven series became 'even' again after an append,
set() compared the new points with the interval of the points it
replaces, and rounding (spacing 0.1) made even points count as uneven.
---
 curvepy/points.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 3ea24f5..48f76f4 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -77,7 +77,7 @@ class Points(Curve):
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
         self.begin_update(domain)
-        self._is_equally_spaced = self._points_equally_spaced(self._points, points)
+        self._is_equally_spaced = self._is_equally_spaced and self._points_equally_spaced(self._points, points)
         if self._force_equally_spaced and not self._is_equally_spaced:
             raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
         self._points += points
@@ -139,6 +139,8 @@ class Points(Curve):
             self.set([])
             return
         points = head + tail
+        if self._force_equally_spaced and not self._points_equally_spaced(head, tail):
+            raise Exception('Attempting to reset points leaving non-regular intervals')
 
         update_start = self._points[0][0]
         update_start_open = False
@@ -207,22 +209,21 @@ class Points(Curve):
         if new_points_len == 0 or old_points_len + new_points_len < 2:
             return True
 
-        if old_points_len != 0:
-            start = old_points[-1][0]
-            steps = new_points_len
-        else:
-            start = new_points[0][0]
-            steps = new_points_len - 1
+        points = old_points[-1:] + list(new_points)
+        start = points[0][0]
 
-        if self.interval is not None:
+        if old_points_len != 0 and self.interval is not None:
             interval = self.interval
-        elif old_points_len == 1:
-            interval = new_points[0][0] - old_points[-1][0]
         else:
-            interval = new_points[1][0] - new_points[0][0]
-
-        expected_last_x = start + interval * steps
-        return new_points[-1][0] == expected_last_x
+            interval = points[1][0] - start
+
+        for i in range(1, len(points)):
+            x = points[i][0]
+            # Allow for rounding errors
+            tol = abs(interval) * 1e-6 + abs(x) * 1e-15
+            if abs(x - (start + interval * i)) > tol:
+                return False
+        return True
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From 6dd7e759ec1de083da72f7d59f94b247540a83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 03/74] fix: reject invalid edits of points before announcing
 an update

A rejected append, set or reset left the curve marked as updating, and
observers missed later updates.
---
 curvepy/points.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 48f76f4..0eceb82 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -72,14 +72,16 @@ class Points(Curve):
         if points[0][0] <= self._points[-1][0]:
             raise Exception('Attempting to append points in non-ascending order')
 
+        is_equally_spaced = self._is_equally_spaced and self._points_equally_spaced(self._points, points)
+        if self._force_equally_spaced and not is_equally_spaced:
+            raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
+
         if self.domain.is_empty:
             domain = Interval.closed(points[0][0], points[-1][0])
         else:
             domain = Interval(self.domain.end, points[-1][0], start_open=True, end_open=False)
         self.begin_update(domain)
-        self._is_equally_spaced = self._is_equally_spaced and self._points_equally_spaced(self._points, points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
-            raise Exception('Attempting to append points at non-regular intervals: {}{} + {}{}'.format('...' if len(self._points) > 2 else '', self._points[len(self._points) - 2:], points[:2], '...' if len(points) > 2 else ''))
+        self._is_equally_spaced = is_equally_spaced
         self._points += points
         self._did_change_points()
         self.end_update(domain)
@@ -168,10 +170,11 @@ class Points(Curve):
                 update_domain = self.domain
             else:
                 update_domain = Interval.union([self.domain, Interval.closed(points[0][0], points[-1][0])])
-        self.begin_update(update_domain)
-        self._is_equally_spaced = self._points_equally_spaced([], points)
-        if self._force_equally_spaced and not self._is_equally_spaced:
+        is_equally_spaced = self._points_equally_spaced([], points)
+        if self._force_equally_spaced and not is_equally_spaced:
             raise Exception('Attempting to set points at non-regular intervals')
+        self.begin_update(update_domain)
+        self._is_equally_spaced = is_equally_spaced
         self._points = list(points)
         self._did_change_points()
         self.end_update(update_domain)
-- 
2.43.0


From 04e4b5b7a2245b53ca78f312ab89cfbcfdae805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 04/74] fix: announce the whole change when replacing a point

Only the point itself was announced, though the interpolated values up to
the neighbouring points change too; an invalid replace left the curve
marked as updating.
---
 curvepy/points.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index 0eceb82..cf6a218 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -93,22 +93,37 @@ class Points(Curve):
             else:
                 raise Exception('Attempting to replace point outside of bounds')
 
-        update_domain = Interval.point(point[0])
-        self.begin_update(update_domain)
-
         nearest_i = int(math.ceil(self.x_index(point[0])))
         nearest_p = self._points[nearest_i]
-        if point[0] != nearest_p[0]:
-            if self._force_equally_spaced:
-                raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
-            else:
-                self._points.insert(nearest_i, point)
-                self._is_equally_spaced = False
+        insert = point[0] != nearest_p[0]
+        if insert and self._force_equally_spaced:
+            raise Exception('Attempting to replace point {} between existing points. The nearest is {}.'.format(point, nearest_p))
+
+        # Values change up to the neighbouring points
+        update_start = point[0]
+        update_start_open = False
+        if nearest_i > 0:
+            update_start = self._points[nearest_i - 1][0]
+            update_start_open = True
+
+        update_end = point[0]
+        update_end_open = False
+        next_i = nearest_i if insert else nearest_i + 1
+        if next_i < len(self._points):
+            update_end = self._points[next_i][0]
+            update_end_open = True
+
+        update_domain = Interval(update_start, update_end, start_open=update_start_open, end_open=update_end_open)
+        self.begin_update(update_domain)
+
+        if insert:
+            self._points.insert(nearest_i, point)
+            self._is_equally_spaced = False
         else:
             self._points[nearest_i] = point
 
         self._did_change_points()
-        self.end_update(update_domain)    
+        self.end_update(update_domain)
 
     def reset(self, domain=None):
         points_len = len(self._points)
-- 
2.43.0


From 1aed0dbf4a881c3794d0ad8e85f9aea016f9f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 05/74] fix: scale the slope of a sine by its angular frequency

---
 curvepy/sin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 9af1e9a..0045b71 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -40,5 +40,5 @@ class Sin(Curve):
         return self.amplitude * math.sin(self.x_coef * x + self.phase)
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-        return self.amplitude * math.cos(self.x_coef * x + self.phase)
+        return self.amplitude * self.x_coef * math.cos(self.x_coef * x + self.phase)
         
\ No newline at end of file
-- 
2.43.0


From acc56e5855a129b0f5c0c4f68e16a89a342a0570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:15 +0000
Subject: [PATCH 06/74] fix: reject an invalid sine before changing it

A rejected set() left the curve half changed and marked as updating.
---
 curvepy/sin.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/curvepy/sin.py b/curvepy/sin.py
index 0045b71..c4683b7 100644
--- a/curvepy/sin.py
+++ b/curvepy/sin.py
@@ -20,20 +20,21 @@ class Sin(Curve):
         self.set(amplitude=amplitude, frequency=frequency, period=period, phase=phase, phase_x=phase_x)
     
     def set(self, amplitude=None, frequency=None, period=None, phase=0, phase_x=None):
-        self.begin_update(self.domain)
-        self.amplitude = amplitude
-        self.phase = phase
-
-        self.x_coef = None
+        x_coef = None
         if period is not None:
             frequency = 1.0 / period
         if frequency is not None:
-            self.x_coef = frequency * math.pi * 2.0
-        if phase_x is not None:
-            self.phase = phase_x * self.x_coef
+            x_coef = frequency * math.pi * 2.0
+        if phase_x is not None and x_coef is not None:
+            phase = phase_x * x_coef
 
-        if self.amplitude is None or self.x_coef is None or self.phase is None:
+        if amplitude is None or x_coef is None or phase is None:
             raise Exception("Invalid sin function description")
+
+        self.begin_update(self.domain)
+        self.amplitude = amplitude
+        self.x_coef = x_coef
+        self.phase = phase
         self.end_update(self.domain)
 
     def y(self, x):
-- 
2.43.0


From c0fde3fe2726d4650f9420bc66a6c925397da2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 07/74] fix: encode an appended quote only once

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 77bf383..2dc5fb3 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -183,7 +183,7 @@ class Quotes(Curve):
         or in a suitable form for `encoder`, in strict ascending order with no gaps
         and with the same duration as the receiver.
         """
-        self.append_list([self.encode_one(quote_point)])
+        self.append_list([quote_point])
 
     def append_list(self, quote_points):
         """
-- 
2.43.0


From 79b498278c6e9e6b415ea489bb4a4e17245563e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 08/74] fix: trailing_low is the lowest low

---
 curvepy/quotes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 2dc5fb3..432d62d 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -175,7 +175,7 @@ class Quotes(Curve):
         return self.high.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def trailing_low(self, degree, is_period=False):
-        return self.low.trailing_max(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
+        return self.low.trailing_min(degree, is_period=is_period, interpolation=-1, uniform=self.duration.is_uniform)
 
     def append(self, quote_point):
         """
-- 
2.43.0


From 00532761c78428ea611c2eca8b6ab7d5955936d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 09/74] fix: step through piecewise functions

x_next() and x_previous() never returned the point they found, so
sampling a piecewise function skipped to its end.
---
 curvepy/piecewise.py | 48 ++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index e43c5e9..de1f165 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -34,31 +34,31 @@ class Piecewise(Curve):
         return None
     
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x - min_step, enforce_end=False):
-            return None
-        x_map = map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_previous_f(z):
-            x, d = z
-            return d.contains(x)
-        z = max(filter(x_previous_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[0].contains(x):
-            return self.domains[0].start
+        x_max = x - min_step
+        for f, d in reversed(list(zip(self.funcs, self.domains))):
+            if not d.contains(x_max, enforce_end=False):
+                continue
+            if x_max >= d.end and not d.end_open:
+                return d.end
+            x1 = f.x_previous(min(x, d.end), min_step=min_step, limit=limit)
+            if d.contains(x1):
+                return x1
+            if not d.start_open:
+                return d.start
+        return None
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        # FIXME: infinite funcs don't work (unit tests disabled)
         min_step = self.resolve_min_step(min_step)
-        if not self.domain.contains(x + min_step, enforce_end=False):
-            return None
-        x_map = map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs)
-        x_map_d = zip(x_map, self.domains)
-        def x_next_f(z):
-            x, d = z
-            return d.contains(x)
-        z = min(filter(x_next_f, x_map_d), default=None)
-        x1 = z[0] if z is not None else None
-        if x1 is None and self.domains[-1].contains(x):
-            return self.domains[-1].end
+        x_min = x + min_step
+        for f, d in zip(self.funcs, self.domains):
+            if not d.contains(x_min, enforce_start=False):
+                continue
+            if x_min <= d.start and not d.start_open:
+                return d.start
+            x1 = f.x_next(max(x, d.start), min_step=min_step, limit=limit)
+            if d.contains(x1):
+                return x1
+            if not d.end_open:
+                return d.end
+        return None
-- 
2.43.0


From f0bcb5956d145ea93d5fc922c0732f296fd9ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 10/74] fix: allow adding and removing observers during
 callbacks

Removing an observer from a callback raised a KeyError or skipped
another observer's callback.
---
 curvepy/curve.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 3bc1a4a..709bb33 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -434,7 +434,10 @@ class Curve:
         if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
             return
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
-        for token in self._ordered_observer_tokens:
+        for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by a previous callback
+                continue
             _, callback_interval, callback, _, callback_with_interval, _ = self._observer_data[token]
             if callback_interval is None or domain.intersects(callback_interval):
                 if callback is not None:
@@ -457,6 +460,9 @@ class Curve:
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
         for token in list(self._ordered_observer_tokens):
+            if token not in self._observer_data:
+                # Removed by a previous callback
+                continue
             _, callback_interval, _, callback, _, callback_with_interval = self._observer_data[token]
             if callback_interval is None or update_interval.intersects(callback_interval):
                 if callback is not None:
-- 
2.43.0


From 25e00fdfa732da3cf486b785560982454e7cc8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 11/74] fix: sample half open intervals and any spacing

An open end was included, an open start without further points raised an
IndexError, a point interval was sampled twice, and rounding half to even
raised for valid steps (such as points at 0.5, 1.5 and 2.5 with
min_step=1).
---
 curvepy/curve.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 709bb33..a436028 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -176,33 +176,36 @@ class Curve:
         elif not domain.is_finite:
             raise Exception("Cannot sample points on an infinite domain {}. Specify a finite domain.".format(domain))
         x_start, x_end = domain
-        x_end_bin = round(x_end / min_step) if min_step is not None else x_end
+
+        def is_within_end(x):
+            return x < x_end or (x == x_end and not domain.end_open)
+
         if domain.start_open:
             points = []
         else:
             points = [(x_start, self.y(x_start))]
         if step is not None:
             x = x_start + step
-            while x <= x_end:
+            while is_within_end(x):
                 y = self.y(x)
                 points.append((x, y))
                 x += step
         elif min_step is not None and min_step > 0:
-            x = self.x_next(x_start, min_step=min_step, limit=x_end)
-            while x is not None and x <= x_end:
+            x = None
+            if x_start != x_end:
+                x = self.x_next(x_start, min_step=min_step, limit=x_end)
+            while x is not None and is_within_end(x):
                 y = self.y(x)
                 points.append((x, y))
-                x_bin = round(x / min_step) if min_step is not None else x
-                if x_bin == x_end_bin:
+                if x >= x_end:
                     break
                 x1 = self.x_next(x, min_step=min_step, limit=x_end)
-                if x1 is not None:
-                    x1_bin = round(x1 / min_step) if min_step is not None else x1
-                    if x1_bin <= x_bin:
-                        raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
+                # The last step may be shorter. Allow for rounding errors.
+                if x1 is not None and x1 < x_end and x1 - x < min_step * 0.5:
+                    raise Exception('Next x value {} should be greater than the previous x value {} by at least the minimum step of {}'.format(x1, x, min_step))
                 x = x1
 
-            if not domain.end_open and points[-1][0] != x_end:
+            if not domain.end_open and (len(points) == 0 or points[-1][0] != x_end):
                 points.append((x_end, self.y(x_end)))
         else:
             raise Exception("Bad functions sample parameters.")
-- 
2.43.0


From 74cb6a1381d8241b7d02964bb052f488124c320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 12/74] fix: include the start in sample_points_from_x()

The first of the requested points was dropped unless open, and the
default min_step failed on most curves.
---
 curvepy/curve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index a436028..8f7749d 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -212,7 +212,7 @@ class Curve:
 
         return points
 
-    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=None):
+    def sample_points_from_x(self, x, limit, backward=False, open=False, min_step=MIN_STEP):
         assert limit is not None
         if limit < 0:
             limit = -limit
@@ -228,6 +228,7 @@ class Curve:
             y = self.y(x)
             if y is None:
                 return points
+            points.append((x, y))
             i += 1
 
         while limit is None or i < limit:
-- 
2.43.0


From 135bcf30865ca4ea917b0707d19364d43b0f2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 13/74] fix: ignore absent values in get_range()

An absent sampled value raised a TypeError.
---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 8f7749d..387409d 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -251,6 +251,8 @@ class Curve:
         low = None
         high = None
         for p in points:
+            if p[1] is None:
+                continue
             if low is None or p[1] < low:
                 low = p[1]
             if high is None or p[1] > high:
-- 
2.43.0


From d19f40c743810f9ea78014fcfa6f40d3917ef5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 14/74] fix: sample points at the requested steps

With a step equal to the mean interval the points themselves were
returned, even if uneven or not aligned with the requested start, and a
min_step between the smallest and the mean interval was ignored.
---
 curvepy/points.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/curvepy/points.py b/curvepy/points.py
index cf6a218..84d4013 100644
--- a/curvepy/points.py
+++ b/curvepy/points.py
@@ -200,18 +200,24 @@ class Points(Curve):
         if self.domain.is_empty:
             return []
 
-        if self.interval is not None and ((min_step is not None and min_step > self.interval) or (step is not None and step != self.interval)):
-            # Irregular sampling
-            return super().sample_points(domain=domain, min_step=min_step, step=step)
+        domain = Interval.intersection([self.domain, domain])
+        if domain.is_empty:
+            return []
 
-        if domain is None or domain.is_superset_of(self.domain):
+        if self.interval is not None:
+            if step is not None:
+                is_irregular = not self.is_uniform or step != self.interval or self.x_index(domain.start) % 1.0 != 0
+            else:
+                is_irregular = min_step is not None and min_step > self._min_interval()
+            if is_irregular:
+                # Irregular sampling
+                return super().sample_points(domain=domain, min_step=min_step, step=step)
+
+        if domain.is_superset_of(self.domain):
             # Sample all
             return list(self._points)
 
         # Sample some
-        domain = Interval.intersection([self.domain, domain])
-        if domain.is_empty:
-            return []
         i0, i1 = self._domain_indexes(domain)
         return self._points[i0:i1]
 
@@ -221,6 +227,11 @@ class Points(Curve):
         if len_points > 1:
             self.interval = (self._points[-1][0] - self._points[0][0]) / (len_points - 1)
 
+    def _min_interval(self):
+        if self.is_uniform:
+            return self.interval
+        return min(p2[0] - p1[0] for p1, p2 in zip(self._points, self._points[1:]))
+
     def _points_equally_spaced(self, old_points, new_points):
         old_points_len = len(old_points)
         new_points_len = len(new_points)
-- 
2.43.0


From b3517fa076a15c508650824b1904595f2fdce16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 15/74] fix: keep the domain of a generic function after an
 update

The domain became None after any update.
---
 curvepy/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/generic.py b/curvepy/generic.py
index 6d85f5f..f491718 100644
--- a/curvepy/generic.py
+++ b/curvepy/generic.py
@@ -4,12 +4,12 @@ from intervalpy import Interval
 class Generic(Curve):
 
     def get_domain(self):
-        return self._domain
+        return self._generic_domain
 
     def __init__(self, y_func, domain=None, min_step=MIN_STEP):
         super().__init__(min_step=min_step)
         self.y_func = y_func
-        self._domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        self._generic_domain = Interval.parse(domain) if domain is not None else Interval.infinite()
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From ed8480af4b0aa45621603ceaeee2db6c0566d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:16 +0000
Subject: [PATCH 16/74] fix: pass on updates from a curve to its subset

Curves derived from a subset were not told about updates of its source
and kept returning old values.
---
 curvepy/generic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/generic.py b/curvepy/generic.py
index f491718..034fd24 100644
--- a/curvepy/generic.py
+++ b/curvepy/generic.py
@@ -10,6 +10,8 @@ class Generic(Curve):
         super().__init__(min_step=min_step)
         self.y_func = y_func
         self._generic_domain = Interval.parse(domain) if domain is not None else Interval.infinite()
+        if isinstance(y_func, Curve):
+            y_func.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True)
 
     def y(self, x):
         if not self.domain.contains(x):
-- 
2.43.0


From fcd383b9a7c23cdc2ffb3134680a6f5d36ac47b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 17/74] fix: refresh extensions after every update of the
 extended curve

Only updates lying in the extension itself refreshed it, so replacing or
setting points kept the old end value or tangent, and the change of the
extension was not announced. Conversely, merely reading an extension
announced an update of everything (of its inner functions).
---
 curvepy/extension/extension.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 739f9df..da24248 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -36,10 +36,8 @@ class Extension(Curve):
         self.end_func = None
         if self.start:
             self.start_func = self.create_extension_func(start=True)
-            self.start_func.add_observer(self, begin=self.begin_update, end=self.end_update)
         if self.end:
             self.end_func = self.create_extension_func(start=False)
-            self.end_func.add_observer(self, begin=self.begin_update, end=self.end_update)
 
     def __del__(self):
         self.curve.remove_observer(self)
@@ -118,18 +116,23 @@ class Extension(Curve):
             (self.end and domain >= self.extension_interval)
 
     def begin_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self.begin_update(self.extension_interval)
-        else:
-            self.begin_update(domain)
+        self.begin_update(self._extended_update_interval(domain))
 
     def end_extension_update(self, domain):
-        if self.is_in_extension(domain):
-            self._extension_stale = True
-            self._update_extension_interval()
-            self.end_update(self.extension_interval)
-        else:
-            self.end_update(domain)
+        self._extension_stale = True
+        self._extension_interval_stale = True
+        self.end_update(self._extended_update_interval(domain))
+
+    def _extended_update_interval(self, domain):
+        # Any update may move an end or its tangent
+        if domain.is_empty:
+            return domain
+        domains = [domain]
+        if self.start:
+            domains.append(Interval.lte(domain.end))
+        if self.end:
+            domains.append(Interval.gte(domain.start))
+        return Interval.union(domains)
 
     def _update_extension_interval(self):
         if not self._extension_interval_stale:
-- 
2.43.0


From 847950d9be6d9cc9ff925e014fd480cd2cba521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 18/74] fix: extend an empty curve at one end by a constant

Reading it raised an AttributeError.
---
 curvepy/extension/constant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 73dbf24..9f78654 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -12,8 +12,10 @@ class ConstantExtension(Extension):
 
     def update_extension(self):
         if self.curve.domain.is_empty:
-            self.start_func.value = None
-            self.end_func.value = None
+            if self.start:
+                self.start_func.value = None
+            if self.end:
+                self.end_func.value = None
             return
 
         if self.start:
-- 
2.43.0


From 45934204dd1fe607a1cc607771663b2538af93e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:01 +0000
Subject: [PATCH 19/74] fix: tangent regression with fewer points than its
 degree

It raised a TypeError when the curve had fewer points than
regression_degree.
---
 curvepy/extension/tangent.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 2aa6eb4..64987df 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -32,7 +32,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x1 = x
                 for i in range(self.regression_degree):
-                    x1 = self.curve.x_next(x1, min_step=self.min_step)
+                    x_i = self.curve.x_next(x1, min_step=self.min_step)
+                    if x_i is None:
+                        break
+                    x1 = x_i
                 domain = Interval(x, x1)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
@@ -61,7 +64,10 @@ class TangentExtension(Extension):
             if self.regression_degree is not None:
                 x0 = x
                 for i in range(self.regression_degree):
-                    x0 = self.curve.x_previous(x0, min_step=self.min_step)
+                    x_i = self.curve.x_previous(x0, min_step=self.min_step)
+                    if x_i is None:
+                        break
+                    x0 = x_i
                 domain = Interval(x0, x)
                 tangent = self.curve.regression(domain, min_step=self.min_step)
                 if tangent is not None:
-- 
2.43.0


From 50cf67cf978ef7df683bde832e0542e18f2b1947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 20/74] fix: end the window of an SMA at the point it is
 evaluated at

For unevenly spaced points the window of a period was moved to the last
point within a period of its start, which averaged values after x.
---
 curvepy/sma.py | 68 +++++++++++++++++---------------------------------
 1 file changed, 23 insertions(+), 45 deletions(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 5f81533..9812af2 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -70,46 +70,38 @@ class SMA(Integral):
         if not self.domain.contains(x):
             return None
 
-        # Get step
         x0 = self._sma_start(x)
-        x1 = self._sma_end(x0)
-        if x0 == x or x0 == x1:
+        if x0 == x:
             # SMA step is smaller than or equal to the underlying step
             return self.curve.y(x)
 
-        # Values must be accessed in ascending order
-        y0 = super().y(x0)
-        if y0 is None:
+        # Get neighbouring points
+        x1 = self.curve.x_previous(x, min_step=self.min_step)
+        if x1 is None:
             return None
-        y1 = super().y(x1)
-        if y1 is None:
+        x2 = self.curve.x_next(x1, min_step=self.min_step)
+        if x2 is None:
             return None
 
-        sma1 = (y1 - y0) / (x1 - x0)
-        if x == x1:
-            return sma1
-
-        # Handle offset
-        if x > x1:
-            x2 = self.curve.x_next(x1, min_step=self.min_step)
-            if x2 == x:
-                return sma1
-            sma2 = self.y(x2)
-            if sma2 is None:
+        if x == x2:
+            # Values must be accessed in ascending order
+            y0 = super().y(x0)
+            if y0 is None:
                 return None
-            u = (x - x1) / (x2 - x1)
-            sma = u * sma2 + (1 - u) * sma1
-        else:
-            x01 = self.curve.x_previous(x1, min_step=self.min_step)
-            if x01 == x:
-                return sma1
-            sma01 = self.y(x01)
-            if sma01 is None:
+            y1 = super().y(x)
+            if y1 is None:
                 return None
-            u = (x - x01) / (x1 - x01)
-            sma = u * sma01 + (1 - u) * sma1
-            return sma
-        return sma
+            return (y1 - y0) / (x - x0)
+
+        # Handle offset
+        sma1 = self.y(x1)
+        if sma1 is None:
+            return None
+        sma2 = self.y(x2)
+        if sma2 is None:
+            return None
+        u = (x - x1) / (x2 - x1)
+        return u * sma2 + (1 - u) * sma1
 
     def _sma_start(self, x):
         if self.period is not None:
@@ -124,17 +116,3 @@ class SMA(Integral):
         else:
             raise Exception('Bad SMA configuration')
         return x0
-
-    def _sma_end(self, x):
-        if self.period is not None:
-            x0 = self.curve.x_previous(x + self.period, min_step=self.min_step)
-        elif self.degree is not None:
-            x0 = x
-            for _ in range(0, self.degree - 1):
-                x1 = self.curve.x_next(x0, min_step=self.min_step)
-                if x1 is None:
-                    return x0
-                x0 = x1
-        else:
-            raise Exception('Bad SMA configuration')
-        return x0
-- 
2.43.0


From 90573b3808d4cc12332cd5d4dac6cbd33c9c2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 21/74] fix: keep the steps of an SMA inside its domain

Stepping returned points before the first average, so that an average of
an average had no value at its first point.
---
 curvepy/scan.py |  5 ++++-
 curvepy/sma.py  | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index 32b0b7c..f523fb1 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -58,7 +58,7 @@ class Scan(Curve):
                 self.scan_start = self.init_scan(x)
                 current = self.scan_start
             else:
-                current = self.x_next(self.current, min_step=self.min_step, limit=x0)
+                current = self.scan_x_next(self.current, limit=x0)
             if current is None or not self.curve.domain.contains(current):
                 break
             if self.current is not None and current <= self.current:
@@ -66,6 +66,9 @@ class Scan(Curve):
             self.tfm(current, self.curve.y(current))
             self.current = current
 
+    def scan_x_next(self, x, limit=None):
+        return self.x_next(x, min_step=self.min_step, limit=limit)
+
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         min_step = self.resolve_min_step(min_step)
         if domain is None:
diff --git a/curvepy/sma.py b/curvepy/sma.py
index 9812af2..da8032f 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -65,6 +65,23 @@ class SMA(Integral):
     def offset_scan(self, x):
         return self._sma_start(x)
 
+    def scan_x_next(self, x, limit=None):
+        # The scan starts before the domain
+        return super().x_next(x, min_step=self.min_step, limit=limit)
+
+    def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        x1 = super().x_previous(x, min_step=min_step, limit=limit)
+        if not self.domain.contains(x1):
+            return None
+        return x1
+
+    def x_next(self, x, min_step=MIN_STEP, limit=None):
+        if self.domain.is_empty:
+            return None
+        if x + self.resolve_min_step(min_step) <= self.domain.start:
+            return self.domain.start
+        return super().x_next(x, min_step=min_step, limit=limit)
+
     def y(self, x):
         # Return the average slope as the SMA
         if not self.domain.contains(x):
-- 
2.43.0


From 67e80b71fba5f0fc0dd35a529539713a3aae1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 22/74] fix: a constant has no value outside its domain

---
 curvepy/constant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/constant.py b/curvepy/constant.py
index 2efa67b..34819eb 100644
--- a/curvepy/constant.py
+++ b/curvepy/constant.py
@@ -39,6 +39,8 @@ class Constant(Curve):
             return super().__repr__() + f'({e})'
 
     def y(self, x):
+        if not self.domain.contains(x):
+            return None
         return self.value
 
     def d_y(self, x, forward=False, min_step=MIN_STEP, limit=None):
-- 
2.43.0


From 5f03c61ef250723729e70008655dadfd049372e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 23/74] fix: keep the steps of an aggregate inside its domain

---
 curvepy/aggregate.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 74ecb87..a40574b 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -56,10 +56,28 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        return max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        d = self.domain
+        if x1 is None or d.contains(x1):
+            return x1
+        if d.is_empty or x1 <= d.start:
+            return None
+        # Step into the domain
+        if not d.end_open:
+            return d.end
+        return self.x_previous(d.end, min_step=min_step, limit=limit)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        return min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        d = self.domain
+        if x1 is None or d.contains(x1):
+            return x1
+        if d.is_empty or x1 >= d.end:
+            return None
+        # Step into the domain
+        if not d.start_open:
+            return d.start
+        return self.x_next(d.start, min_step=min_step, limit=limit)
 
 
 def min_or_none(iterable, gt):
-- 
2.43.0


From c92e8e54b5414b6a2ac62301ee9da0d5a7c7801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:18 +0000
Subject: [PATCH 24/74] fix: step back to points which were not accumulated yet

---
 curvepy/accumulator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index 8b711e6..be30b75 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -27,7 +27,10 @@ class Accumulator(Scan):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit) or self.curve.x_previous(x, min_step=min_step, limit=limit)
+        if self.accumulated_points.domain.contains(x - min_step):
+            return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit)
+        # There may be points which were not accumulated yet
+        return self.curve.x_previous(x, min_step=min_step, limit=limit)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         min_step = self.resolve_min_step(min_step)
-- 
2.43.0


From cb0d86472f5b84ef4bbf091032b03e51f78771c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 25/74] fix: keep the precision of an area far from zero

---
 curvepy/line.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/curvepy/line.py b/curvepy/line.py
index e576585..8390645 100644
--- a/curvepy/line.py
+++ b/curvepy/line.py
@@ -73,12 +73,7 @@ class Line(Curve):
         return self.ref_point[0] + (y - self.ref_point[1]) / self.slope
 
     def partial_integration(self, a, b):
-        # f(x) = slope / 2 * x ^ 2 + const * x + K
-        # integral = f(b) - f(a)
         if a is not None and a == b:
             return 0
-        const = self.const
-        slope = self.slope
-        ia = slope * 0.5 * a ** 2 + const * a
-        ib = slope * 0.5 * b ** 2 + const * b
-        return ib - ia
+        # Area of the trapezoid. The antiderivative would lose precision far from 0.
+        return (b - a) * (self.y(a) + self.y(b)) * 0.5
-- 
2.43.0


From 6559271e79e4714a7e70a6468435942ec6d815d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 26/74] fix: allow offsetting an offset curve

---
 curvepy/offset.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index b800bbf..9f125a2 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -16,11 +16,11 @@ class Offset(Curve):
     def __init__(self, func, offset, duration=None):
         super().__init__()
         self.curve = Curve.parse(func)
-        self.offset = offset
+        self._offset = offset
         self.duration = None
         if duration is not None:
             self.duration = Duration.parse(duration)
-            if type(self.offset) != int:
+            if type(self._offset) != int:
                 raise Exception('Offset must be an interger when duration is defined')
         self._observer_token = self.curve.add_observer(
             begin=self.begin_offset_update, end=self.end_offset_update, prioritize=True)
@@ -30,7 +30,7 @@ class Offset(Curve):
 
     def __repr__(self):
         try:
-            return f'{self.curve}.offset({self.offset})'
+            return f'{self.curve}.offset({self._offset})'
         except Exception as e:
             return super().__repr__() + f'({e})'
 
@@ -93,17 +93,17 @@ class Offset(Curve):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x + self.offset
+            return x + self._offset
         else:
-            return self._res_step(x, self.offset, floor=floor)
+            return self._res_step(x, self._offset, floor=floor)
 
     def _unoffset_x(self, x, floor=False):
         if x is None or math.isinf(x):
             return x
         if self.duration is None:
-            return x - self.offset
+            return x - self._offset
         else:
-            return self._res_step(x, -self.offset, floor=floor)
+            return self._res_step(x, -self._offset, floor=floor)
 
     def _res_step(self, x, count, floor=False):
         if count == 0:
-- 
2.43.0


From 0c6c165fbc274cb4d72f27ceb82d837a2409fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 27/74] fix: take no steps of straight operands in aggregates

---
 curvepy/aggregate.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index a40574b..8aeea37 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 from collections.abc import Sequence
@@ -15,8 +16,8 @@ class Aggregate(Curve):
     def __init__(self, funcs, *args, tfm=None, default=None, union=False, operator=None, name=None):
         if not isinstance(funcs, Sequence):
             funcs = [funcs] + list(args)
-        super().__init__()
         self.funcs = Curve.parse_many(funcs)
+        super().__init__(min_step=math.inf if all(map(is_straight, self.funcs)) else None)
         self.tfm = tfm
         self.is_union = union
         self.operator = operator
@@ -56,7 +57,10 @@ class Aggregate(Curve):
         return self.tfm(x, func_vals)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=limit), self.funcs), x)
+        # Straight operands have no points of their own between their ends
+        x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=None if is_straight(f) else limit), self.funcs), x)
+        if x1 == -math.inf and limit is not None:
+            x1 = limit
         d = self.domain
         if x1 is None or d.contains(x1):
             return x1
@@ -68,7 +72,10 @@ class Aggregate(Curve):
         return self.x_previous(d.end, min_step=min_step, limit=limit)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=limit), self.funcs), x)
+        # Straight operands have no points of their own between their ends
+        x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=None if is_straight(f) else limit), self.funcs), x)
+        if x1 == math.inf and limit is not None:
+            x1 = limit
         d = self.domain
         if x1 is None or d.contains(x1):
             return x1
@@ -80,6 +87,10 @@ class Aggregate(Curve):
         return self.x_next(d.start, min_step=min_step, limit=limit)
 
 
+def is_straight(func):
+    return func.min_step == math.inf
+
+
 def min_or_none(iterable, gt):
     min = None
     for item in iterable:
-- 
2.43.0


From 37f653689f8300fabbe74cc6ade9aa676b820da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 28/74] fix: extend no end of an empty curve by tangents

---
 curvepy/extension/tangent.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvepy/extension/tangent.py b/curvepy/extension/tangent.py
index 64987df..c2e1a03 100644
--- a/curvepy/extension/tangent.py
+++ b/curvepy/extension/tangent.py
@@ -23,6 +23,12 @@ class TangentExtension(Extension):
         super().__init__(func, **kwargs)
 
     def update_extension(self):
+        if self.curve.domain.is_empty:
+            # There is no end to extend
+            self.start_valid = False
+            self.end_valid = False
+            return
+
         if self.start:
             x = self.curve.domain.start
             if x is not None and self.curve.domain.start_open and self.curve.domain.contains(x + self.min_step):
-- 
2.43.0


From d074c303f38b3ffdfaa7243700bcd06d5ca7d22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 29/74] fix: amplitude of a sine extension at a zero

---
 curvepy/extension/sin.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/curvepy/extension/sin.py b/curvepy/extension/sin.py
index fb3264c..5f16728 100644
--- a/curvepy/extension/sin.py
+++ b/curvepy/extension/sin.py
@@ -29,9 +29,6 @@ class SinExtension(TangentExtension):
         phase = math.atan2(num, den)
 
         # amplitude
-        if (angle + phase) % math.pi != 0:
-            amplitude = y / math.sin(angle + phase)
-        else:
-            amplitude = dy / (x_coef * math.cos(angle + phase))
+        amplitude = math.hypot(y, dy / x_coef)
 
         sin.set(amplitude=amplitude, period=self.period, phase=phase)
-- 
2.43.0


From cc037ac263235145aac2b048c663aa2ca33c38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 30/74] fix: keep the precision of a regression far from zero

---
 curvepy/curve.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 387409d..669635a 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -378,14 +378,16 @@ class Curve:
         xy = np.vstack(points)
         x = xy[:,0]
         y = xy[:,1]
-        A = np.array([x, np.ones(count)])
 
-        # Regression
+        # Regression about the mean position to keep
+        # the precision of points far from zero
+        x_mean = x.mean()
+        A = np.array([x - x_mean, np.ones(count)])
         w = np.linalg.lstsq(A.T, y, rcond=None)[0]
         m = w[0]
         c = w[1]
 
-        return Line(const=c, slope=m)
+        return Line(const=c - m * x_mean, slope=m)
 
     def add_observer(self, *obj, domain=None, begin=None, end=None, autoremove=False, prioritize=False):
         if begin is None and end is None:
-- 
2.43.0


From 657a7088b61971e0d47d7685fe132413d3a55360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 31/74] fix: a blend has no value where either curve has none

---
 curvepy/curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 669635a..7d35fbe 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -547,6 +547,8 @@ class Curve:
         
         x_blend_period = x_blend_stop - x_blend_start
         def blend_f(x, ys):
+            if ys[0] is None or ys[1] is None:
+                return None
             u = (x - x_blend_start) / x_blend_period
             return (1.0 - u) * ys[0] + u * ys[1]
         c = Aggregate([self, func], tfm=blend_f, name='blend')
-- 
2.43.0


From 3384ea90d4a688954d886504413b24a5ea54f9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 32/74] fix: step into a piece with an open start

---
 curvepy/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index de1f165..a9b75ec 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -52,7 +52,7 @@ class Piecewise(Curve):
         min_step = self.resolve_min_step(min_step)
         x_min = x + min_step
         for f, d in zip(self.funcs, self.domains):
-            if not d.contains(x_min, enforce_start=False):
+            if x_min > d.end or (x_min == d.end and d.end_open):
                 continue
             if x_min <= d.start and not d.start_open:
                 return d.start
-- 
2.43.0


From 2765577cec79b2f6c59e4e32002099f2f1c02a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 33/74] fix: step across pieces by no more than the minimum
 step

---
 curvepy/piecewise.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index a9b75ec..d6849ad 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -41,7 +41,11 @@ class Piecewise(Curve):
                 continue
             if x_max >= d.end and not d.end_open:
                 return d.end
-            x1 = f.x_previous(min(x, d.end), min_step=min_step, limit=limit)
+            if x <= d.end:
+                x1 = f.x_previous(x, min_step=min_step, limit=limit)
+            else:
+                # Part of the step is outside of this piece
+                x1 = f.x_previous(d.end, min_step=max(d.end - x_max, min(min_step, MIN_STEP)), limit=limit)
             if d.contains(x1):
                 return x1
             if not d.start_open:
@@ -56,7 +60,11 @@ class Piecewise(Curve):
                 continue
             if x_min <= d.start and not d.start_open:
                 return d.start
-            x1 = f.x_next(max(x, d.start), min_step=min_step, limit=limit)
+            if x >= d.start:
+                x1 = f.x_next(x, min_step=min_step, limit=limit)
+            else:
+                # Part of the step is outside of this piece
+                x1 = f.x_next(d.start, min_step=max(x_min - d.start, min(min_step, MIN_STEP)), limit=limit)
             if d.contains(x1):
                 return x1
             if not d.end_open:
-- 
2.43.0


From f2911a9230321d48de5720513967686267ac4132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 34/74] fix: the date decorator converts strings only

---
 curvepy/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 7d35fbe..e403258 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1052,7 +1052,7 @@ class Curve:
                     fragment=True,
                     decorators=decorators
                 ) for v in d]
-            elif 'date' in decorators:
+            elif 'date' in decorators and isinstance(d, str):
                 return arrow.get(d).timestamp
             elif isinstance(d, Number):
                 if 'log' in decorators:
-- 
2.43.0


From 37fd85c46eac636d8c1276894a3a58cdb6dc01e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 35/74] fix: convert literals to the innermost log space

---
 curvepy/curve.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index e403258..80871b7 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -1055,14 +1055,13 @@ class Curve:
             elif 'date' in decorators and isinstance(d, str):
                 return arrow.get(d).timestamp
             elif isinstance(d, Number):
-                if 'log' in decorators:
-                    return math.log(d)
-                elif 'log2' in decorators:
-                    return math.log(d, 2)
-                elif 'log10' in decorators:
-                    return math.log(d, 10)
-                else:
-                    return d
+                # The innermost log space applies
+                for oname in reversed(decorators):
+                    if oname == 'log':
+                        return math.log(d)
+                    elif oname.startswith('log'):
+                        return math.log(d, int(oname[3:]))
+                return d
             else:
                 return d
         else:
-- 
2.43.0


From 74bdaf8dcda01fc24b1434c61cf67d4b0097fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 36/74] fix: convert arguments of a decorated function once

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 80871b7..05dde70 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -969,6 +969,10 @@ class Curve:
                         if len(d) != 1:
                             raise ValueError(f'A decorator (@...) can only have siblings in a fragment')
                         return v
+                    elif current_func is None:
+                        # Already parsed
+                        fragment_vals[k] = v
+                        continue
 
                 elif k.startswith('$'):
                     # This is function descriptor
-- 
2.43.0


From 071be249b85b7023440ea6630dc35ace73c9774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 37/74] fix: value range of quotes given as lists

---
 curvepy/quotes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/curvepy/quotes.py b/curvepy/quotes.py
index 432d62d..1649901 100644
--- a/curvepy/quotes.py
+++ b/curvepy/quotes.py
@@ -139,10 +139,10 @@ class Quotes(Curve):
         low = None
         high = None
         for q in quotes:
-            if low is None or q.low < low:
-                low = q.low
-            if high is None or q.high > high:
-                high = q.high
+            if low is None or q[LOW] < low:
+                low = q[LOW]
+            if high is None or q[HIGH] > high:
+                high = q[HIGH]
         if low is None or high is None:
             return Interval.empty()
         return Interval(low, high)
-- 
2.43.0


From 67ff33baf49f2cecb6252a2b791194c29eb1c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 38/74] fix: take no step of straight operands to a limit which
 was reached

---
 curvepy/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 8aeea37..ee504f4 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -60,7 +60,7 @@ class Aggregate(Curve):
         # Straight operands have no points of their own between their ends
         x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=None if is_straight(f) else limit), self.funcs), x)
         if x1 == -math.inf and limit is not None:
-            x1 = limit
+            x1 = limit if limit < x else None
         d = self.domain
         if x1 is None or d.contains(x1):
             return x1
@@ -75,7 +75,7 @@ class Aggregate(Curve):
         # Straight operands have no points of their own between their ends
         x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=None if is_straight(f) else limit), self.funcs), x)
         if x1 == math.inf and limit is not None:
-            x1 = limit
+            x1 = limit if limit > x else None
         d = self.domain
         if x1 is None or d.contains(x1):
             return x1
-- 
2.43.0


From 979500bf9e9634f76916089febf9b272ffe67786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 39/74] fix: step through accumulating curves as through their
 source

---
 curvepy/accumulator.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/curvepy/accumulator.py b/curvepy/accumulator.py
index be30b75..39cff07 100644
--- a/curvepy/accumulator.py
+++ b/curvepy/accumulator.py
@@ -25,17 +25,6 @@ class Accumulator(Scan):
         super().reset_scan()
         self.accumulated_points.reset()
 
-    def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        if self.accumulated_points.domain.contains(x - min_step):
-            return self.accumulated_points.x_previous(x, min_step=min_step, limit=limit)
-        # There may be points which were not accumulated yet
-        return self.curve.x_previous(x, min_step=min_step, limit=limit)
-
-    def x_next(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
-        return self.accumulated_points.x_next(x, min_step=min_step, limit=limit) or self.curve.x_next(x, min_step=min_step, limit=limit)
-
     def begin_update(self, domain):
         self.accumulated_points.reset(domain)
         super().begin_update(domain)
-- 
2.43.0


From eed06808fec2c6af672ff8c5829eedde2ae0e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 40/74] fix: interpolate an SMA right after a point

---
 curvepy/sma.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index da8032f..143bbc0 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -95,8 +95,12 @@ class SMA(Integral):
         # Get neighbouring points
         x1 = self.curve.x_previous(x, min_step=self.min_step)
         if x1 is None:
-            return None
+            x1 = self.curve.domain.start
         x2 = self.curve.x_next(x1, min_step=self.min_step)
+        if x2 is not None and x2 < x:
+            # Less than the minimum step after a point
+            x1 = x2
+            x2 = self.curve.x_next(x1, min_step=self.min_step)
         if x2 is None:
             return None
 
-- 
2.43.0


From a8d46c4b6c8bf58cbe7cdb64a58062f64326eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 41/74] fix: scan an SMA over one point at the points only

---
 curvepy/sma.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 143bbc0..3ed0701 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -63,7 +63,12 @@ class SMA(Integral):
         # return x0
 
     def offset_scan(self, x):
-        return self._sma_start(x)
+        x0 = self._sma_start(x)
+        if x0 != x:
+            return x0
+        # Scan points only
+        x1 = self.curve.x_previous(x + self.min_step, min_step=self.min_step)
+        return x if x1 is None else x1
 
     def scan_x_next(self, x, limit=None):
         # The scan starts before the domain
-- 
2.43.0


From 31313ab6b77990bb7bb8742348fcbc0f279df3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 42/74] fix: refresh an EMA when its initial curve changes

---
 curvepy/ema.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/curvepy/ema.py b/curvepy/ema.py
index 1a6479c..7fe2552 100644
--- a/curvepy/ema.py
+++ b/curvepy/ema.py
@@ -19,6 +19,16 @@ class EMA(Accumulator):
         else:
             self.alpha = degree
         super().__init__(func, self._ema_scan, min_step=min_step, uniform=uniform)
+        if self.init_func is not None:
+            self._init_observer_token = self.init_func.add_observer(
+                begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
+
+    def __del__(self):
+        super().__del__()
+        try:
+            self.init_func.remove_observer(self._init_observer_token)
+        except Exception:
+            pass
 
     def __repr__(self):
         try:
-- 
2.43.0


From 151c274b8d232c4248fa1c50cf37f7572aee47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 43/74] fix: announce the slopes towards updated points

---
 curvepy/curve.py |  8 +++++++-
 curvepy/map.py   | 17 +++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 05dde70..1eaf081 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -686,7 +686,13 @@ class Curve:
 
     def differential(self, forward=False):
         from .map import Map
-        d = Map(self, lambda x, y: self.d_y(x, forward=forward))
+        def update_interval(domain):
+            # The slopes towards the updated points change too
+            if domain.is_empty:
+                return domain
+            return Interval.lte(domain.end) if forward else Interval.gte(domain.start)
+
+        d = Map(self, lambda x, y: self.d_y(x, forward=forward), update_interval=update_interval)
         d.name = 'diff'
         return d
 
diff --git a/curvepy/map.py b/curvepy/map.py
index cda4fbd..22289a7 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -6,7 +6,7 @@ class Map(Curve):
     def get_domain(self):
         return self.curve.domain
 
-    def __init__(self, func, tfm, skip_none=False, min_step=MIN_STEP, name=None):
+    def __init__(self, func, tfm, skip_none=False, min_step=MIN_STEP, name=None, update_interval=None):
         if bool(func.min_step) and func.min_step > min_step:
             min_step = func.min_step
         super().__init__(min_step=min_step)
@@ -20,7 +20,9 @@ class Map(Curve):
         self._map_tfm_with_x = tfm_ags > 1
         self.map_tfm = tfm
 
-        self._observer_token = self.curve.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True)
+        # Maps an updated interval of the curve to an updated interval of the map
+        self.map_update_interval = update_interval
+        self._observer_token = self.curve.add_observer(begin=self.begin_map_update, end=self.end_map_update, prioritize=True)
     
     def __repr__(self):
         try:
@@ -46,6 +48,17 @@ class Map(Curve):
         min_step = self.resolve_min_step(min_step)
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
+    def begin_map_update(self, domain):
+        self.begin_update(self._update_interval(domain))
+
+    def end_map_update(self, domain):
+        self.end_update(self._update_interval(domain))
+
+    def _update_interval(self, domain):
+        if self.map_update_interval is None:
+            return domain
+        return self.map_update_interval(domain)
+
     def _map(self, x, y):
         if self._map_tfm_with_x:
             return self.map_tfm(x, y)
-- 
2.43.0


From 586548d7d190fa111060b99ffd699d880b825ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 44/74] fix: scan extremas again from the start of an update

---
 curvepy/extremas.py | 33 +++++++--------------------------
 1 file changed, 7 insertions(+), 26 deletions(-)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 7a4fd89..b263776 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -17,7 +17,8 @@ class Extremas(Scan):
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(begin=self.begin_update, end=self.end_update)
+        self._ref_observer_token = self.ref_func.add_observer(
+            begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
     def __del__(self):
         self.ref_func.remove_observer(self._ref_observer_token)
@@ -62,26 +63,11 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
-    def begin_update(self, domain):
-        super().begin_update(domain)
-        # remove stale points
-        for i in reversed(range(len(self.extremas))):
-            x = self.extrema_xs[i]
-            if domain.contains(x):
-                self._remove_extrema_index(i)
-            elif domain.start > x:
-                break
-
-        # scan from last extrema
-        extrema_count = len(self.extremas)
-        if extrema_count == 0:
-            self.current = None
-        else:
-            last_extrema = self.extremas[-1]
-            x = last_extrema[0]
-            self.current = x
-            self.possible_extrema = last_extrema
-            self.possible_extrema_phase = last_extrema[1] - self.ref_func(x)
+    def reset_scan(self):
+        super().reset_scan()
+        self.extremas = []
+        self.extrema_xs = []
+        self._did_update_extremas()
 
     def sample_points(self, domain=None, min_step=MIN_STEP, step=None):
         points = super().sample_points(domain=domain, min_step=min_step, step=step)
@@ -113,11 +99,6 @@ class Extremas(Scan):
             self.possible_extrema = (x, y)
             self.possible_extrema_phase = phase
     
-    def _remove_extrema_index(self, i):
-        del self.extremas[i]
-        del self.extrema_xs[i]
-        self._did_update_extremas()
-
     def _confirm_extrema(self):
         extrema = self.possible_extrema
 
-- 
2.43.0


From 9777f58ec23b0a9afad5a248c1417057caccba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 45/74] fix: discard what was scanned while the curve changed

---
 curvepy/scan.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/curvepy/scan.py b/curvepy/scan.py
index f523fb1..64ebf36 100644
--- a/curvepy/scan.py
+++ b/curvepy/scan.py
@@ -100,6 +100,16 @@ class Scan(Curve):
 
     def begin_scan_update(self, domain):
         domain = self._update_interval(domain)
+        self._reset_updated_scan(domain)
+        self.begin_update(domain)
+
+    def end_scan_update(self, domain):
+        domain = self._update_interval(domain)
+        # An observer may have continued the scan during the update
+        self._reset_updated_scan(domain)
+        self.end_update(domain)
+
+    def _reset_updated_scan(self, domain):
         if self.current is not None:
             if domain.start < self.current or (domain.start == self.current and not domain.start_open):
                 self.reset_scan()
@@ -107,11 +117,5 @@ class Scan(Curve):
         if self.current is not None and self.scan_start is not None and self.current < self.scan_start:
             self.reset_scan()
 
-        self.begin_update(domain)
-
-    def end_scan_update(self, domain):
-        domain = self._update_interval(domain)
-        self.end_update(domain)
-
     def _update_interval(self, domain):
         return Interval(domain.start, math.inf, start_open=domain.start_open, end_open=True)
-- 
2.43.0


From 2901200bb9272c7da13c3ba13147d5136894d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 46/74] fix: an extended empty curve is empty

---
 curvepy/extension/constant.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/curvepy/extension/constant.py b/curvepy/extension/constant.py
index 9f78654..1541139 100644
--- a/curvepy/extension/constant.py
+++ b/curvepy/extension/constant.py
@@ -11,11 +11,10 @@ class ConstantExtension(Extension):
     name = "constant"
 
     def update_extension(self):
-        if self.curve.domain.is_empty:
-            if self.start:
-                self.start_func.value = None
-            if self.end:
-                self.end_func.value = None
+        # An empty curve has no end to extend
+        self.start_valid = not self.curve.domain.is_empty
+        self.end_valid = self.start_valid
+        if not self.start_valid:
             return
 
         if self.start:
-- 
2.43.0


From 35149d05c8b8f0061533c80f95ca14d5717ff48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 47/74] fix: announce extremas confirmed before an update

---
 curvepy/extremas.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index b263776..1010618 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -63,6 +63,18 @@ class Extremas(Scan):
             return x1
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
+    def begin_update(self, domain):
+        super().begin_update(self._extrema_update_interval(domain))
+
+    def end_update(self, domain):
+        super().end_update(self._extrema_update_interval(domain))
+
+    def _extrema_update_interval(self, domain):
+        if domain.is_empty:
+            return domain
+        # Extremas are confirmed by points after them
+        return Interval.infinite()
+
     def reset_scan(self):
         super().reset_scan()
         self.extremas = []
-- 
2.43.0


From 22dd450a6cf52285ba10df31ba0cbd898e37d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 48/74] fix: announce a moved first window of an SMA

---
 curvepy/sma.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/curvepy/sma.py b/curvepy/sma.py
index 3ed0701..2a794e3 100644
--- a/curvepy/sma.py
+++ b/curvepy/sma.py
@@ -129,6 +129,14 @@ class SMA(Integral):
         u = (x - x1) / (x2 - x1)
         return u * sma2 + (1 - u) * sma1
 
+    def _update_interval(self, domain):
+        domain = super()._update_interval(domain)
+        d = self.curve.domain
+        if self.period is not None and not d.is_empty and domain.start < d.start + self.period:
+            # The first full window may be another one
+            domain = Interval.union([domain, Interval.gte(d.start)])
+        return Interval.union([domain, self.update_interval])
+
     def _sma_start(self, x):
         if self.period is not None:
             x0 = self.curve.x_next(x - self.period, min_step=self.min_step)
-- 
2.43.0


From 99052358e877b0c9c1e4284abddcd8bf282bd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 49/74] fix: announce the end of a change once every operand
 changed

---
 curvepy/aggregate.py |  3 +++
 curvepy/curve.py     | 11 ++++++++++-
 curvepy/ema.py       |  5 ++++-
 curvepy/extremas.py  | 12 +++++++++---
 curvepy/piecewise.py |  3 +++
 5 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index ee504f4..933310b 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -27,6 +27,9 @@ class Aggregate(Curve):
         self._observer_tokens = list(map(lambda f: f.add_observer(
             begin=self.begin_update, end=self.end_update, prioritize=True), unique_funcs))
 
+    def get_operands(self):
+        return self.funcs
+
     def __del__(self):
         for func, token in zip(self.funcs, self._observer_tokens):
             func.remove_observer(token)
diff --git a/curvepy/curve.py b/curvepy/curve.py
index 1eaf081..4bfcfed 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -155,6 +155,12 @@ class Curve:
     def get_domain(self):
         return Interval.empty()
 
+    def get_operands(self):
+        """
+        Curves which this curve depends on and waits for when updating.
+        """
+        return []
+
     def resolve_min_step(self, min_step):
         if min_step is None and self.min_step is None:
             return None
@@ -455,12 +461,15 @@ class Curve:
                         callback()
 
     def end_update(self, domain):
-        if domain.is_empty or self._end_update_interval.is_superset_of(domain):
+        if domain.is_empty:
             return
         self._end_update_interval = Interval.union([self._end_update_interval, domain])
         if not self._end_update_interval.is_superset_of(self._begin_update_interval):
             # Keep collecting updates
             return
+        if any(f.is_updating for f in self.get_operands()):
+            # Wait for the other operands
+            return
         
         # Updates complete
         update_interval = self._end_update_interval
diff --git a/curvepy/ema.py b/curvepy/ema.py
index 7fe2552..5fc8ca6 100644
--- a/curvepy/ema.py
+++ b/curvepy/ema.py
@@ -19,10 +19,13 @@ class EMA(Accumulator):
         else:
             self.alpha = degree
         super().__init__(func, self._ema_scan, min_step=min_step, uniform=uniform)
-        if self.init_func is not None:
+        if self.init_func is not None and self.init_func is not self.curve:
             self._init_observer_token = self.init_func.add_observer(
                 begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
 
+    def get_operands(self):
+        return [self.curve] if self.init_func is None else [self.curve, self.init_func]
+
     def __del__(self):
         super().__del__()
         try:
diff --git a/curvepy/extremas.py b/curvepy/extremas.py
index 1010618..5794484 100644
--- a/curvepy/extremas.py
+++ b/curvepy/extremas.py
@@ -17,11 +17,17 @@ class Extremas(Scan):
         self.possible_extrema_phase = None
         self._did_update_extremas()
         super().__init__(func, self._extrema_scan, min_step=min_step)
-        self._ref_observer_token = self.ref_func.add_observer(
-            begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
+        self._ref_observer_token = None
+        if self.ref_func is not self.curve:
+            self._ref_observer_token = self.ref_func.add_observer(
+                begin=self.begin_scan_update, end=self.end_scan_update, prioritize=True)
+
+    def get_operands(self):
+        return [self.curve, self.ref_func]
 
     def __del__(self):
-        self.ref_func.remove_observer(self._ref_observer_token)
+        if self._ref_observer_token is not None:
+            self.ref_func.remove_observer(self._ref_observer_token)
 
     def scanned_y(self, x):
         if not self.extrema_interval.contains(x):
diff --git a/curvepy/piecewise.py b/curvepy/piecewise.py
index d6849ad..4f49860 100644
--- a/curvepy/piecewise.py
+++ b/curvepy/piecewise.py
@@ -18,6 +18,9 @@ class Piecewise(Curve):
         unique_funcs = list(set(list(self.funcs)))
         self._observer_tokens = list(map(lambda f: f.add_observer(begin=self.begin_update, end=self.end_update, prioritize=True), unique_funcs))
 
+    def get_operands(self):
+        return self.funcs
+
     def __del__(self):
         for func, token in zip(self.funcs, self._observer_tokens):
             func.remove_observer(token)
-- 
2.43.0


From 1c18d70ffe8fdaa2ec4d536adb44e01eac205992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:24 +0000
Subject: [PATCH 50/74] fix: pass the limit of a step through an offset curve
 shifted

---
 curvepy/offset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 9f125a2..7fc7f0e 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -66,7 +66,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.previous(x)
         else:
-            x1 = self.curve.x_previous(x, min_step=min_step, limit=limit)
+            x1 = self.curve.x_previous(x, min_step=min_step, limit=self._unoffset_x(limit))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=False)
@@ -78,7 +78,7 @@ class Offset(Curve):
         if self.duration:
             x1 = self.duration.next(x)
         else:
-            x1 = self.curve.x_next(x, min_step=min_step, limit=limit)
+            x1 = self.curve.x_next(x, min_step=min_step, limit=self._unoffset_x(limit))
         if x1 is None or not self.curve.domain.contains(x1):
             return None
         return self._offset_x(x1, floor=True)
-- 
2.43.0


From 7d526e2d92b048f69aa20ebc8e091ef1e069b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 51/74] fix: step through an extended function without its
 limit

---
 curvepy/extension/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index da24248..c6fedbb 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -92,7 +92,7 @@ class Extension(Curve):
         x1 = self.curve.x_previous(x, min_step=min_step)
         if x1 is None and self.start:
             # Keep returning extension with same step
-            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step, limit=limit)
+            x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step)
             if x0 is None:
                 return None
             step = x0 - self.curve.domain.start
@@ -103,7 +103,7 @@ class Extension(Curve):
         x1 = self.curve.x_next(x, min_step=min_step)
         if x1 is None and self.end:
             # Keep returning extension with same step
-            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step, limit=limit)
+            x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step)
             if x0 is None:
                 return None
             step = self.curve.domain.end - x0
-- 
2.43.0


From 6442bed1d3075c1a04fed037d5ca97d512e08e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 52/74] fix: a bounded constant has no step from its end or
 beyond

---
 curvepy/curve.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 4bfcfed..ab0f35f 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -124,6 +124,8 @@ class Curve:
             x1 = limit
         if not self.domain.contains(x1, enforce_start=False):
             return None
+        if math.isinf(min_step) and x1 <= x:
+            return None
         return x1
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
@@ -136,6 +138,8 @@ class Curve:
             x1 = limit
         if not self.domain.contains(x1, enforce_end=False):
             return None
+        if math.isinf(min_step) and x1 >= x:
+            return None
         return x1
 
     def previous_point(self, x, min_step=MIN_STEP):
-- 
2.43.0


From 4582aec4bfa8f7f9fea8a44d3d15aff97160a201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 53/74] fix: step over a bounded constant by at least the
 minimum step

---
 curvepy/curve.py | 6 ++++++
 curvepy/map.py   | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index ab0f35f..4c81b91 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -115,9 +115,12 @@ class Curve:
         raise Exception("Not implemented")
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
+        asked_step = min_step
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.end
+            if x1 is not None and asked_step is not None and not math.isinf(asked_step):
+                x1 = max(x1, x + asked_step)
         else:
             x1 = x + min_step
         if limit is not None and x1 > limit:
@@ -129,9 +132,12 @@ class Curve:
         return x1
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
+        asked_step = min_step
         min_step = self.resolve_min_step(min_step)
         if math.isinf(min_step):
             x1 = self.domain.start
+            if x1 is not None and asked_step is not None and not math.isinf(asked_step):
+                x1 = min(x1, x - asked_step)
         else:
             x1 = x - min_step
         if limit is not None and x1 < limit:
diff --git a/curvepy/map.py b/curvepy/map.py
index 22289a7..39c0db4 100644
--- a/curvepy/map.py
+++ b/curvepy/map.py
@@ -1,3 +1,4 @@
+import math
 from .curve import Curve, MIN_STEP
 from intervalpy import Interval
 
@@ -41,11 +42,13 @@ class Map(Curve):
         return self._map(x, y)
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
+        if self.min_step is None or not math.isinf(self.min_step):
+            min_step = self.resolve_min_step(min_step)
         return self.curve.x_previous(x, min_step=min_step, limit=limit)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
-        min_step = self.resolve_min_step(min_step)
+        if self.min_step is None or not math.isinf(self.min_step):
+            min_step = self.resolve_min_step(min_step)
         return self.curve.x_next(x, min_step=min_step, limit=limit)
 
     def begin_map_update(self, domain):
-- 
2.43.0


From 8b158a690a41a85e54514d23efd2913b3cf2cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 54/74] fix: an extended empty curve has no steps

---
 curvepy/extension/extension.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index c6fedbb..447d706 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -90,7 +90,7 @@ class Extension(Curve):
 
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         x1 = self.curve.x_previous(x, min_step=min_step)
-        if x1 is None and self.start:
+        if x1 is None and self.start and not self.curve.domain.is_empty:
             # Keep returning extension with same step
             x0 = self.curve.x_next(self.curve.domain.start, min_step=min_step)
             if x0 is None:
@@ -101,7 +101,7 @@ class Extension(Curve):
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         x1 = self.curve.x_next(x, min_step=min_step)
-        if x1 is None and self.end:
+        if x1 is None and self.end and not self.curve.domain.is_empty:
             # Keep returning extension with same step
             x0 = self.curve.x_previous(self.curve.domain.end, min_step=min_step)
             if x0 is None:
-- 
2.43.0


From 4745f6ebbb5b2e0358647a0d4724c64f5949f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 55/74] fix: refuse an extension only for the ends that cannot
 be extended

---
 curvepy/extension/extension.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curvepy/extension/extension.py b/curvepy/extension/extension.py
index 447d706..1d0f5af 100644
--- a/curvepy/extension/extension.py
+++ b/curvepy/extension/extension.py
@@ -152,6 +152,8 @@ class Extension(Curve):
         self.update_extension_interval()
         if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
             if self.raise_on_empty:
+                self._extension_stale = True
+                self._extension_interval_stale = True
                 raise Exception('Unable to extend func')
             
     def _update_extension_if_needed(self):
@@ -161,7 +163,4 @@ class Extension(Curve):
         self._extension_interval_stale = True
 
         self.update_extension()
-        if (self.start and not self.extension_interval.is_negative_infinite) or (self.end and not self.extension_interval.is_positive_infinite):
-            if self.raise_on_empty:
-                raise Exception('Unable to extend func')
         self._update_extension_interval()
-- 
2.43.0


From 068b7b322d29825d9e1cf1ad6bed1712c3f7ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 56/74] fix: start a trend over when its scan starts over,
 instead of adding its points and lines again

---
 curvepy/trend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3128a5b..27b0c20 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -46,6 +46,12 @@ class Trend(Scan):
         
         super().__init__(func, self._trend_scan, min_step=min_step)
 
+    def reset_scan(self):
+        super().reset_scan()
+        self.points = []
+        self.nested_upper_lines = [[]]
+        self.nested_lower_lines = [[]]
+
     @property
     def lines(self):
         return self._scanned_lower(None) + self._scanned_upper(None)
-- 
2.43.0


From a6f82dcac0ea11cbdc90657e3f4daf3b5b64b747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 57/74] fix: keep the points of a trend line in order

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 27b0c20..a68ad3f 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -457,6 +457,7 @@ class TrendLine(Sequence):
             for p in coincident_points:
                 if _is_point_on_line(line, p, y_tol_rel=self.y_tol_rel, y_tol_abs=self.y_tol_abs):
                     resulting_points.append(p)
+            resulting_points.sort(key=lambda p: p[0])
             resulting_points.insert(0, line[0])
             resulting_points.append(line[1])
             return resulting_points
-- 
2.43.0


From 5675f283ab40d0e2089a7fa642d58944e2d94c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:08 +0000
Subject: [PATCH 58/74] fix: pass the minimum distance of points on to the
 lines of a trend

---
 curvepy/trend.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index a68ad3f..b29f85f 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -228,6 +228,7 @@ class Trend(Scan):
         return TrendLine(self.min_width,
             is_upper_trend=is_upper_trend,
             min_points=self.min_points, 
+            min_point_distance=self.min_point_distance,
             search_length_rel=self.search_length_rel, 
             search_length_int_rel=self.search_length_int_rel, 
             x_tol_rel=self.x_tol_rel, 
-- 
2.43.0


From 30a1b79d0ed6d134fe04e5158d5e4ca460255352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 59/74] fix: keep the points of a trend line in order when some
 lie beyond the ends it was chosen by

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index b29f85f..0d65909 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -458,9 +458,9 @@ class TrendLine(Sequence):
             for p in coincident_points:
                 if _is_point_on_line(line, p, y_tol_rel=self.y_tol_rel, y_tol_abs=self.y_tol_abs):
                     resulting_points.append(p)
-            resulting_points.sort(key=lambda p: p[0])
             resulting_points.insert(0, line[0])
             resulting_points.append(line[1])
+            resulting_points.sort(key=lambda p: p[0])
             return resulting_points
 
         final_points = add_coincident_points(final_line, coincident_points)
-- 
2.43.0


From 487fd598f9396ef586c1d84dc13abab05aac34b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:41 +0000
Subject: [PATCH 60/74] fix: look for the points of interest of a trend line
 within its new reach, not that of the line before it

---
 curvepy/trend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 0d65909..bfa9ca7 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -526,8 +526,9 @@ class TrendLine(Sequence):
         self._line = _line_fit(self.trend_points)
         self._update_trend_tolerance_lines()
         self.reset_points_of_interest()
-        self.update_points_of_interest(underlying_points)
+        # The points of interest are those within reach of the new line
         self.update_interval()
+        self.update_points_of_interest(underlying_points)
         self.reset_prediction()
         self.update_prediction(underlying_points)
 
-- 
2.43.0


From 7b9b948562595e8a00b1017f603b0e7a6efa981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:05 +0000
Subject: [PATCH 61/74] fix: take the limit of the slope of an offset curve in
 its own coordinates

---
 curvepy/offset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/offset.py b/curvepy/offset.py
index 7fc7f0e..83a7a5e 100644
--- a/curvepy/offset.py
+++ b/curvepy/offset.py
@@ -37,8 +37,8 @@ class Offset(Curve):
     def y(self, x):
         return self._interpolated_func(self.curve.y, x)
 
-    def d_y(self, x, **kwargs):
-        return self._interpolated_func(self.curve.d_y, x, **kwargs)
+    def d_y(self, x, limit=None, **kwargs):
+        return self._interpolated_func(self.curve.d_y, x, limit=self._unoffset_x(limit), **kwargs)
 
     def _interpolated_func(self, f, x, **kwargs):
         x0 = self._unoffset_x(x, floor=True)
-- 
2.43.0


From b68fbc2daa5fe08197669d0c0fd1a13400500051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 62/74] fix: announce a further change between those announced
 already, beyond the reach of each of them

---
 curvepy/curve.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvepy/curve.py b/curvepy/curve.py
index 4c81b91..24383a1 100644
--- a/curvepy/curve.py
+++ b/curvepy/curve.py
@@ -53,6 +53,7 @@ class Curve:
         self._observer_data = {}
         self._ordered_observer_tokens = []
         self._begin_update_interval = Interval.empty()
+        self._begin_update_domains = []
         self._end_update_interval = Interval.empty()
         self.min_step = min_step
 
@@ -455,8 +456,9 @@ class Curve:
                         self._ordered_observer_tokens.remove(token)
 
     def begin_update(self, domain):
-        if domain.is_empty or self._begin_update_interval.is_superset_of(domain):
+        if domain.is_empty or any(d.is_superset_of(domain) for d in self._begin_update_domains):
             return
+        self._begin_update_domains.append(domain)
         self._begin_update_interval = Interval.union([self._begin_update_interval, domain])
         for token in list(self._ordered_observer_tokens):
             if token not in self._observer_data:
@@ -484,6 +486,7 @@ class Curve:
         # Updates complete
         update_interval = self._end_update_interval
         self._begin_update_interval = Interval.empty()
+        self._begin_update_domains = []
         self._end_update_interval = Interval.empty()
         self.set_needs_interval_update()
         for token in list(self._ordered_observer_tokens):
-- 
2.43.0


From 7602e971fb68ff41b6cd3389887aaefebc8d16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 63/74] fix: relative tolerance of trends over negative values

---
 curvepy/trend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index bfa9ca7..5258e26 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -851,7 +851,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_min = y - self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_min_rel = y * (1 - self.y_tol_rel)
+            y_min_rel = y - abs(y) * self.y_tol_rel
             if y_min is None:
                 y_min = y_min_rel
             else:
@@ -865,7 +865,7 @@ class TrendLine(Sequence):
         if self.y_tol_abs is not None:
             y_max = y + self.y_tol_abs
         if self.y_tol_rel is not None and abs(y) > EPSILON_ZERO:
-            y_max_rel = y * (1 + self.y_tol_rel)
+            y_max_rel = y + abs(y) * self.y_tol_rel
             if y_max is None:
                 y_max = y_max_rel
             else:
@@ -1003,7 +1003,7 @@ def _is_strictly_convex_points(points, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and y0 - y < y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and y0 / y - 1 < y_tol_rel:
+    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and (y0 - y) / abs(y) < y_tol_rel:
         return False
     return True
 
-- 
2.43.0


From 8553e3a387bf4490cf2adb9e2a5553fc133a324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 64/74] fix: copies of trend lines keep their extremas,
 tolerance lines and predictions

---
 curvepy/trend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 5258e26..1c02bab 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -369,12 +369,14 @@ class TrendLine(Sequence):
             x_tol_abs=self.x_tol_abs, 
             y_tol_rel=self.y_tol_rel, 
             y_tol_abs=self.y_tol_abs)
+        line.__dict__.update(self.__dict__)
         line.trend_points = list(self.trend_points)
         line._boundary_points = list(self._boundary_points)
-        line._line = tuple(self._line)
+        line._line = tuple(self._line) if self.is_ready else None
         line.search_interval = self.search_interval.copy()
         line.intersections = list(self.intersections)
         line.tangent_points = list(self.tangent_points)
+        line.extremas = list(self.extremas)
         return line
 
     def copy(self):
-- 
2.43.0


From 6576ddb04a725b36d05f6cde55ee8a15b81716b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 65/74] fix: combinations step into an open end of their domain
 without another minimum step

---
 curvepy/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index 933310b..e73a679 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -72,7 +72,7 @@ class Aggregate(Curve):
         # Step into the domain
         if not d.end_open:
             return d.end
-        return self.x_previous(d.end, min_step=min_step, limit=limit)
+        return self.x_previous(d.end, limit=limit)
 
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         # Straight operands have no points of their own between their ends
@@ -87,7 +87,7 @@ class Aggregate(Curve):
         # Step into the domain
         if not d.start_open:
             return d.start
-        return self.x_next(d.start, min_step=min_step, limit=limit)
+        return self.x_next(d.start, limit=limit)
 
 
 def is_straight(func):
-- 
2.43.0


From 5d82be1550e6462353c9c2c0b0b80b1351f0de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:18 +0000
Subject: [PATCH 66/74] fix: a limit is no point of a combination that has
 ended

---
 curvepy/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/aggregate.py b/curvepy/aggregate.py
index e73a679..ce695ad 100644
--- a/curvepy/aggregate.py
+++ b/curvepy/aggregate.py
@@ -62,7 +62,7 @@ class Aggregate(Curve):
     def x_previous(self, x, min_step=MIN_STEP, limit=None):
         # Straight operands have no points of their own between their ends
         x1 = max_or_none(map(lambda f: f.x_previous(x, min_step=min_step, limit=None if is_straight(f) else limit), self.funcs), x)
-        if x1 == -math.inf and limit is not None:
+        if x1 == -math.inf and limit is not None and self.domain.is_negative_infinite:
             x1 = limit if limit < x else None
         d = self.domain
         if x1 is None or d.contains(x1):
@@ -77,7 +77,7 @@ class Aggregate(Curve):
     def x_next(self, x, min_step=MIN_STEP, limit=None):
         # Straight operands have no points of their own between their ends
         x1 = min_or_none(map(lambda f: f.x_next(x, min_step=min_step, limit=None if is_straight(f) else limit), self.funcs), x)
-        if x1 == math.inf and limit is not None:
+        if x1 == math.inf and limit is not None and self.domain.is_positive_infinite:
             x1 = limit if limit > x else None
         d = self.domain
         if x1 is None or d.contains(x1):
-- 
2.43.0


From 9f3348ac8f728fdea41d339b9732d6e22756a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:42 +0000
Subject: [PATCH 67/74] fix: measure convexity against the same value as
 coincidence

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 1c02bab..a77f82f 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -1005,7 +1005,7 @@ def _is_strictly_convex_points(points, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and y0 - y < y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and (y0 - y) / abs(y) < y_tol_rel:
+    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and (y0 - y) / abs(y0) < y_tol_rel:
         return False
     return True
 
-- 
2.43.0


From 87bc1d9dcc37e91e7a7bc087b7a88acf5d3245c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:42 +0000
Subject: [PATCH 68/74] fix: find the touches and crossings of a trend line
 when points beyond its reach are known already

---
 curvepy/trend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index a77f82f..14150b1 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -628,6 +628,8 @@ class TrendLine(Sequence):
         for i in reversed(range(len(underlying_points))):
             p = underlying_points[i]
             if not update_interval.contains(p[0]):
+                if p[0] >= update_interval.end:
+                    continue
                 break
             
             if self.is_point_on_trend(p):
-- 
2.43.0


From ff9b442149a7628d6e5f7fca1cb9678133b8fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:42 +0000
Subject: [PATCH 69/74] fix: count each touch of a trend line once for its
 prediction

---
 curvepy/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 14150b1..3b5264f 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -756,7 +756,7 @@ class TrendLine(Sequence):
             return
 
         for p in points:
-            if self._prediction_x_processed is not None and p[0] < self._prediction_x_processed:
+            if self._prediction_x_processed is not None and p[0] <= self._prediction_x_processed:
                 continue
             point_type = p[2]
             clean_point = (p[0], p[1])
-- 
2.43.0


From 91a8f882632f31559e5c004eb1fc570c15668253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:42 +0000
Subject: [PATCH 70/74] fix: crossings of a trend line through a touch, and
 touches by several points

---
 curvepy/trend.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 3b5264f..9f295bc 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -483,12 +483,22 @@ class TrendLine(Sequence):
             self.update_trend(underlying_points)
             return True
         else:
-            did_change = self.update_points_of_interest(underlying_points)
-            self.update_prediction(underlying_points)
-            return did_change
+            return self.did_append_underlying_point(underlying_points)
         
         return False
 
+    def did_append_underlying_point(self, underlying_points):
+        # The point may end a touch or cross the line through one
+        intersection_count = len(self.intersections)
+        self.reset_points_of_interest()
+        did_change = self.update_points_of_interest(underlying_points)
+        x_processed = self._prediction_x_processed
+        if len(self.intersections) > intersection_count and x_processed is not None and self.intersections[-1][0] <= x_processed:
+            # The intersection precedes the touch
+            self.reset_prediction()
+        self.update_prediction(underlying_points)
+        return did_change
+
     def begin_update(self, domain, underlying_points):
         if not self.search_interval.intersects(domain):
             return
-- 
2.43.0


From 112ec179fc3c69e66499578c08e1b334ad7e369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:42 +0000
Subject: [PATCH 71/74] fix: nested trend lines look at every point of the
 series

---
 curvepy/trend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 9f295bc..2751f90 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -180,6 +180,12 @@ class Trend(Scan):
                 self.nested_upper_lines.append([])
                 self.nested_lower_lines.append([])
 
+        # Points which are not appended to the nested lines may cross or touch them
+        for nested_lines in self.nested_upper_lines[1:] + self.nested_lower_lines[1:]:
+            for line in nested_lines:
+                if line.search_interval.contains(x):
+                    line.did_append_underlying_point(self.points)
+
     def _append_point_and_validate(self, p, lines, nested_lines, is_upper_trend=True):
         remove_indexes = []
         new_trend_points = []
-- 
2.43.0


From 64249dd6a96c0505764477d5834bd675cb6fe13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:37 +0000
Subject: [PATCH 72/74] fix: a trend of values near zero could nest the same
 line endlessly

---
 curvepy/trend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index 2751f90..a3ab937 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -404,6 +404,9 @@ class TrendLine(Sequence):
         # return self._is_line_fit_within_tolerance(self.trend_points + [p])
 
     def is_line_coincident(self, line):
+        if line._line == self._line:
+            # The ends may lie outside of the tolerance by a rounding error
+            return True
         for p_line in line._line:
             if not self.is_point_on_trend(p_line):
                 return False
-- 
2.43.0


From f90b7fb8dcc41f48db9ee8078bc52f30ad09f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:28 +0000
Subject: [PATCH 73/74] fix: with a relative tolerance a trend took zero for a
 point on every line

---
 curvepy/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index a3ab937..cf42bff 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -1026,7 +1026,7 @@ def _is_strictly_convex_points(points, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and y0 - y < y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and (y0 - y) / abs(y0) < y_tol_rel:
+    if y_tol_rel is not None and y0 - y < max(abs(y0) * y_tol_rel, EPSILON_ZERO):
         return False
     return True
 
@@ -1046,7 +1046,7 @@ def _is_value_within_tolerance(y, y0, y_tol_rel=None, y_tol_abs=None):
         return False
     if y_tol_abs is not None and abs(y - y0) > y_tol_abs:
         return False
-    if y_tol_rel is not None and abs(y0) > EPSILON_ZERO and abs(y) > EPSILON_ZERO and abs(y / y0 - 1) > y_tol_rel:
+    if y_tol_rel is not None and abs(y - y0) > max(abs(y0) * y_tol_rel, EPSILON_ZERO):
         return False
     return True
 
-- 
2.43.0


From 659020c304660ed82ed7561077aade38844fbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:19 +0000
Subject: [PATCH 74/74] fix: count a touch of several points of a nested trend
 line once

---
 curvepy/trend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/curvepy/trend.py b/curvepy/trend.py
index cf42bff..e3089df 100644
--- a/curvepy/trend.py
+++ b/curvepy/trend.py
@@ -502,7 +502,10 @@ class TrendLine(Sequence):
         self.reset_points_of_interest()
         did_change = self.update_points_of_interest(underlying_points)
         x_processed = self._prediction_x_processed
-        if len(self.intersections) > intersection_count and x_processed is not None and self.intersections[-1][0] <= x_processed:
+        if self.is_point_on_trend(underlying_points[-1]):
+            # The point may continue the last touch, which counts once
+            self.reset_prediction()
+        elif len(self.intersections) > intersection_count and x_processed is not None and self.intersections[-1][0] <= x_processed:
             # The intersection precedes the touch
             self.reset_prediction()
         self.update_prediction(underlying_points)
-- 
2.43.0

