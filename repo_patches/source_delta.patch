From 092e56760c2ec4709efac8c2a5207b97b6669da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 01/39] fix: reindex of nested portfolio lines

---
 portfolyo/core/pfline/nested_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index ee30c05..10e4da4 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -55,8 +55,8 @@ def slice(self: NestedPfLine) -> SliceIndexer:
 
 
 def reindex(self: NestedPfLine, index: pd.DatetimeIndex) -> NestedPfLine:
-    newchildren = {name: child.reindex(index) for name, child in self.pfl.items()}
-    return self.pfl.__class__(newchildren)
+    newchildren = {name: child.reindex(index) for name, child in self.items()}
+    return self.__class__(newchildren)
 
 
 class LocIndexer:
-- 
2.43.0


From e3a3e5527b2026b1ef5fb87b425da465736bcc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 02/39] fix: truthiness of nested portfolio line depends on
 values of children

---
 portfolyo/core/pfline/nested_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/nested_methods.py b/portfolyo/core/pfline/nested_methods.py
index 10e4da4..8e81236 100644
--- a/portfolyo/core/pfline/nested_methods.py
+++ b/portfolyo/core/pfline/nested_methods.py
@@ -35,7 +35,7 @@ def hedge_with(
 
 def __bool__(self: NestedPfLine) -> bool:
     # True if a) has children of which b) any are true
-    return any(self.children.keys())
+    return any(self.children.values())
 
 
 def __eq__(self: NestedPfLine, other: Any) -> bool:
-- 
2.43.0


From a9eb3014b25e2984c493477df396f15d7ef084de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 03/39] fix: addition of nested portfolio lines keeps only the
 common delivery periods

---
 portfolyo/core/pfline/arithmatic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 7acea4f..e069ebc 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -237,14 +237,19 @@ class Add:
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
     def two_nestedpflines(pfl1: NestedPfLine, pfl2: NestedPfLine) -> NestedPfLine:
+        idx = tools.intersect.indices(pfl1.index, pfl2.index)  # keep only common rows
+        if len(idx) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
         newchildren = {}  # collect children and add those with same name
-        for name in set([*pfl1, *pfl2]):
+        for name in dict.fromkeys([*pfl1, *pfl2]):
             if name in pfl1 and name in pfl2:
                 newchildren[name] = pfl1[name] + pfl2[name]
             elif name in pfl1:
-                newchildren[name] = pfl1[name]
+                newchildren[name] = pfl1[name].loc[idx]
             else:
-                newchildren[name] = pfl2[name]
+                newchildren[name] = pfl2[name].loc[idx]
         return pfl1.__class__(newchildren)
 
 
-- 
2.43.0


From eea46bd83dc31d423c02f4b47076ebe271c1a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 04/39] fix: price when adding complete portfolio lines with
 partly undefined prices

---
 portfolyo/core/pfline/arithmatic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index e069ebc..63f1293 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -232,7 +232,10 @@ class Add:
             # Calculate price from wavg instead of r/q, to handle edge case p1==p2, q==0.
             values = pd.DataFrame({"1": newdfs[0].p, "2": newdfs[1].p})
             weights = pd.DataFrame({"1": newdfs[0].q, "2": newdfs[1].q})
-            newdf["p"] = tools.wavg.dataframe(values, weights, axis=1)
+            p_wavg = tools.wavg.dataframe(values, weights, axis=1)
+            # If there is volume, use r/q, also if price of one of the operands is unknown.
+            p = newdf["r"] / newdf["q"]
+            newdf["p"] = p.where(newdf["q"].pint.m != 0, p_wavg.astype(p.dtype))
         return pfl1.__class__(newdf)
 
     @Prep.assert_pflines_samekind  # pfl1 and pfl2 now have same kind
-- 
2.43.0


From 4df6d1dd1742aa0d47cd7b8305ad0a87d9462fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 05/39] fix: mapping of revenue portfolio line to other year

---
 portfolyo/tools2/changeyear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools2/changeyear.py b/portfolyo/tools2/changeyear.py
index b3274ab..7885200 100644
--- a/portfolyo/tools2/changeyear.py
+++ b/portfolyo/tools2/changeyear.py
@@ -69,9 +69,9 @@ def map_to_year(pfl: PfLine, year: int, holiday_country: str) -> PfLine:
         # Assume that revenue is scales proportionately with duration of period.
         # E.g. 290 Eur in leapyear Feb --> 280 Eur in non-leapyear Feb.
         df = pfl.dataframe("r")
-        df *= tools.duration.index(df.index)  # Make averageble
+        df["r"] = df["r"] / tools.duration.index(df.index)  # Make averageble
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-        df2 /= tools.duration.index(df2.index)  # Make summable again
+        df2["r"] = df2["r"] * tools.duration.index(df2.index)  # Make summable again
     else:  # CompletePfLine
         df = pfl.dataframe(["w", "p"])  # Averagable
         df2 = tools.changeyear.map_frame_to_year(df, year, holiday_country)
-- 
2.43.0


From 4c551f3cc2a8037861519c7c5be66c08f9f6f939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 06/39] fix: upsampling keeps missing values missing

---
 portfolyo/tools/changefreq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index ad26b94..3b178ff 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -113,7 +113,8 @@ def _upsample_avgable(s: pd.Series, freq: str) -> pd.Series:
     additional_stamp = tools_right.stamp(s.index[-1], s.index.freq)
     df.loc[additional_stamp, :] = None
     # ... then do upsampling ...
-    df2 = df.resample(freq, offset=offset).asfreq().ffill()  # duplicate value
+    i2 = df.resample(freq, offset=offset).asfreq().index
+    df2 = df.reindex(i2, method="ffill")  # duplicate value (also if it is NaN)
     # ... and then remove final row (and turn back into series).
     return df2.iloc[:-1, 0].rename(s.name)
 
-- 
2.43.0


From d9653ff7cb246ffcf5f225b3d61ff1c0687d486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 07/39] fix: reindex of complete portfolio line keeps price if
 volume is 0

---
 portfolyo/core/pfline/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/classes.py b/portfolyo/core/pfline/classes.py
index a2c1586..ba7021b 100644
--- a/portfolyo/core/pfline/classes.py
+++ b/portfolyo/core/pfline/classes.py
@@ -441,7 +441,7 @@ class FlatCompletePfLine(FlatPfLine, CompletePfLine, PfLine):
     def reindex(self, index: pd.DatetimeIndex) -> FlatCompletePfLine:
         tools.testing.assert_indices_compatible(self.index, index)
         newdf = self.df[["w", "q", "r"]].reindex(index, fill_value=0)
-        newdf["p"] = newdf["r"] / newdf["q"]
+        newdf["p"] = self.df["p"].reindex(index)  # keep prices, also if volume is 0
         return FlatCompletePfLine(newdf)
 
     def __bool__(self) -> bool:
-- 
2.43.0


From 4f6cde91ef19d6244dfa69633df1092ec2508bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 08/39] fix: timestamps that are not at a full minute are not a
 (quarter)hour boundary

---
 portfolyo/tools/isboundary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index a84525e..35b9cb9 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -99,10 +99,11 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     bool
     """
     start_of_day = start_of_day or dt.time(0, 0)
+    full_minute = ts.second == 0 and ts.microsecond == 0 and ts.nanosecond == 0
     if freq == "15min":
-        return ts.minute % 15 == 0
+        return full_minute and ts.minute % 15 == 0
     elif freq == "h":
-        return ts.minute == 0
+        return full_minute and ts.minute == 0
     elif freq == "D":
         return ts.time() == start_of_day
     elif freq == "MS":
-- 
2.43.0


From bdb951f85fac2d28face8253347dbb4247e3c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 09/39] fix: floor and ceil to (quarter)hour during end-of-DST
 hour

---
 portfolyo/tools/round.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 49329a4..157a2c1 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -68,10 +68,15 @@ def stamp_current(
 
     # Fixed-duration frequency (= (quarter)hour): simply floor/ceil.
     if tools_freq.up_or_down(freq, "D") < 0:
-        if fn == "floor":
-            return ts.floor(freq, nonexistent="shift_backward")
-        else:
-            return ts.ceil(freq, nonexistent="shift_forward")
+        # (Calculate on time axis instead of with wall time, so DST-changes are no issue.)
+        past_boundary = pd.Timedelta(
+            minutes=ts.minute % 15 if freq == "15min" else ts.minute,
+            seconds=ts.second,
+            microseconds=ts.microsecond,
+            nanoseconds=ts.nanosecond,
+        )
+        rounded = ts - past_boundary
+        return rounded if fn == "floor" else rounded + tools_freq.to_offset(freq)
 
     # If we land here, the frequency is daily-or-longer.
 
-- 
2.43.0


From b113e5561f0d16110bf77223b6c1b16b945c111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 10/39] fix: flexible intersection of single index, or with
 empty index

---
 portfolyo/tools/intersect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index c953d38..724791a 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -99,7 +99,7 @@ def indices_flex(
         raise ValueError("Must specify at least one index.")
 
     if len(idxs) == 1:
-        return idxs[0]
+        return tuple(idxs)
     # convert tuple object into a list
     idxs = list(idxs)
 
@@ -114,7 +114,7 @@ def indices_flex(
 
     empty_idx = [len(i) == 0 for i in idxs]
     if any(empty_idx):
-        return pd.DatetimeIndex([])
+        return tuple([i[:0] for i in idxs])
 
     # If we land here, we have at least 2 indices, all are not empty.
 
-- 
2.43.0


From 1524ae4d5033d60acd2ce2d1ea7e42b10ea95d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 11/39] fix: coherent left and right timestamps for all
 timezone implementations

---
 portfolyo/tools/leftandright.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/leftandright.py b/portfolyo/tools/leftandright.py
index d89e3d3..60265ab 100644
--- a/portfolyo/tools/leftandright.py
+++ b/portfolyo/tools/leftandright.py
@@ -66,7 +66,7 @@ def stamps(
         left = tools_floor.stamp(right, "YS", back, start_of_day)
 
     # if we land here, we know left and right.
-    zones = [None if ts.tz is None else ts.tz.zone for ts in [left, right]]
+    zones = [None if ts.tz is None else str(ts.tz) for ts in [left, right]]
     if len(set(zones)) == 2:  # distinct timezones
         raise ValueError(
             f"The timestamps have distinct timezones: {left.tz} and {right.tz}."
-- 
2.43.0


From 021a2ab0ecf2368bfdd962f6f0f9393e3c5c443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 12/39] fix: keep index of integer pint-series

---
 portfolyo/core/pfline/interop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/pfline/interop.py b/portfolyo/core/pfline/interop.py
index 87d16f6..6a43cde 100644
--- a/portfolyo/core/pfline/interop.py
+++ b/portfolyo/core/pfline/interop.py
@@ -272,7 +272,7 @@ def _timeseries_of_floats_or_pint(s: pd.Series) -> pd.Series:
             magnitudes = s.pint.magnitude
             if pd.api.types.is_integer_dtype(magnitudes.dtype):
                 # series of int to series of float
-                s = pd.Series(magnitudes.astype(float), dtype=s.dtype)
+                s = pd.Series(magnitudes.astype(float), s.index, dtype=s.dtype)
 
     else:
         # object -> maybe series of Quantitis -> convert to pint-series.
-- 
2.43.0


From c6ccf1e419e43420171c20fb95d95c8b08ca6044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 13/39] fix: mapping to other year of (quarter)hourly values
 with start-of-day other than midnight

---
 portfolyo/tools/changeyear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changeyear.py b/portfolyo/tools/changeyear.py
index 00f7617..018d2e8 100644
--- a/portfolyo/tools/changeyear.py
+++ b/portfolyo/tools/changeyear.py
@@ -286,7 +286,8 @@ def _map_index_to_index_hourlyandshorter(
     mapp_d = _map_index_to_index_daily(idx_source_d, idx_target_d, holiday_country)
 
     # Split timestamps in 'day' and 'offset'.
-    idx_target_part1 = idx_target.floor("D")
+    days = idx_target_d.searchsorted(idx_target, side="right") - 1
+    idx_target_part1 = idx_target_d[days]  # correct also if start-of-day not midnight
     idx_target_part2 = idx_target - idx_target_part1
 
     return pd.Series(mapp_d[idx_target_part1].values + idx_target_part2, idx_target)
-- 
2.43.0


From 6a0bd0db873032c5e1d9bdebd35e2a3714c4d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 14/39] fix: filling gaps if frame starts and/or ends with
 missing values

---
 portfolyo/tools/frame.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/frame.py b/portfolyo/tools/frame.py
index 512b085..70006f3 100644
--- a/portfolyo/tools/frame.py
+++ b/portfolyo/tools/frame.py
@@ -34,14 +34,12 @@ def fill_gaps(fr: Series_or_DataFrame, maxgap: int = 2) -> Series_or_DataFrame:
     index_beforegap = fr[~is_gap & next_gap].index
     index_aftergap = fr[~is_gap & prev_gap].index
     # remove orphans at beginning and end
-    if index_beforegap.empty:
-        return fr
-    elif index_beforegap[-1] > index_aftergap[-1]:
-        index_beforegap = index_beforegap[:-1]
     if index_aftergap.empty:
         return fr
-    elif index_aftergap[0] < index_beforegap[0]:
-        index_aftergap = index_aftergap[1:]
+    index_beforegap = index_beforegap[index_beforegap < index_aftergap[-1]]
+    if index_beforegap.empty:
+        return fr
+    index_aftergap = index_aftergap[index_aftergap > index_beforegap[0]]
     fr = fr.copy()
     for i_before, i_after in zip(index_beforegap, index_aftergap):
         section = fr.loc[i_before:i_after]
-- 
2.43.0


From 3423abce7422bbf445d6d95ee3f85fbdd716e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 15/39] fix: weighted average with sum of weights 0 ignores
 values with weight 0

---
 portfolyo/tools/wavg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 2f8bf2a..572db5d 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -162,6 +162,7 @@ def series(
     # In that case, the result is NaN in case of non-uniform values.
     weightsum = weights.sum()  # a float or quantity
     if np.isclose(weightsum, 0):  # edge case (more common)
+        s = s[weights != 0.0]  # ignore values whose weight is 0
         is_uniform = values_areuniform(s)
         return s.iloc[0] if is_uniform else np.nan
 
-- 
2.43.0


From 9280a2f3a5f59a39c69f6c3827904e44b0d11794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 16/39] fix: hedge to daily products, and hedge with
 start-of-day other than midnight

---
 portfolyo/tools/peakconvert.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index 67f32fa..fae230f 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -8,6 +8,7 @@ from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
 from . import peakfn as tools_peakfn
+from . import startofday as tools_startofday
 from . import trim as tools_trim
 from . import wavg as tools_wavg
 
@@ -18,17 +19,22 @@ def group_index(
     i: pd.DatetimeIndex, peak_fn: tools_peakfn.PeakFunction, freq: str
 ) -> pd.MultiIndex:
     """Multiindex, that is the same for all rows that belong to same delivery period."""
+    # Calendar date of the delivery day; delivery days do not always start at midnight.
+    date = i.tz_localize(None) - tools_startofday.get(i, "timedelta")
+
     # Grouping due to delivery period.
-    groups = [i.year]
-    if freq == "MS":
-        groups.append(i.month)
+    groups = [date.year]
+    if freq == "D":
+        groups.extend([date.month, date.day])
+    elif freq == "MS":
+        groups.append(date.month)
     elif freq == "QS":
-        groups.append(i.quarter)
+        groups.append(date.quarter)
     elif freq == "YS":
         pass
     else:
         raise ValueError(
-            f"Parameter ``freq`` must be one of 'MS', 'QS', 'YS'; got '{freq}'."
+            f"Parameter ``freq`` must be one of 'D', 'MS', 'QS', 'YS'; got '{freq}'."
         )
 
     # Add grouping due to peak.
-- 
2.43.0


From 1d8699860bd6e0ae2ea8dc00fc62007a088bd115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 17/39] fix: peak and offpeak values of timeseries with
 start-of-day other than midnight

---
 portfolyo/tools/peakconvert.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index fae230f..b815962 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -225,15 +225,15 @@ def tseries2poframe(
     # Handle possible units.
     sin, units = (s.pint.magnitude, s.pint.units) if hasattr(s, "pint") else (s, None)
 
-    # Do calculations.
-    sout = sin.resample(freq, group_keys=True).apply(
-        lambda s: _tseries2po(s, peak_fn, is_summable)
-    )
+    # Do calculations, for each delivery period (taking start-of-day into account).
+    i = tools_changefreq.index(sin.index, freq)
+    groups = i[i.searchsorted(sin.index, side="right") - 1]
+    sout = sin.groupby(groups).apply(lambda s: _tseries2po(s, peak_fn, is_summable))
 
     # Handle possible units.
     if units is not None:
         sout = sout.astype(f"pint[{units}]")
-    return sout.unstack()  # peak, offpeak as columns
+    return sout.unstack().set_axis(i)  # peak, offpeak as columns
 
 
 def poframe2tseries(
-- 
2.43.0


From 60546fc283ed0b051321654e432cf45f445699ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 18/39] fix: timeseries from peak and offpeak values

---
 portfolyo/tools/peakconvert.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/portfolyo/tools/peakconvert.py b/portfolyo/tools/peakconvert.py
index b815962..855aae7 100644
--- a/portfolyo/tools/peakconvert.py
+++ b/portfolyo/tools/peakconvert.py
@@ -287,17 +287,25 @@ def poframe2tseries(
     """
     # Prep.
     if "peak" not in df or "offpeak" not in df:  # ensure peak and offpeak available
-        df = complete_bpoframe(df, peak_fn)
+        df = complete_bpoframe(df, peak_fn, is_summable)
     df = df[["peak", "offpeak"]]
 
+    # Spread summable values over only the peak (or only the offpeak) part of each period
+    if is_summable:
+        durations = {
+            "peak": tools_peakfn.peak_duration(df.index, peak_fn).pint.m,
+            "offpeak": tools_peakfn.offpeak_duration(df.index, peak_fn).pint.m,
+        }
+        df = pd.DataFrame({c: s / durations[c] for c, s in df.items()})  # per hour
+
     # Stretch the dataframe to higher frequency
+    df2 = tools_changefreq.averagable(df, freq)
     if is_summable:
-        df2 = tools_changefreq.summable(df, freq)
-    else:
-        df2 = tools_changefreq.averagable(df, freq)
-    df2["ispeak"] = peak_fn(df2.index)  # will raise error if frequency not short enough
+        duration = tools_duration.index(df2.index).pint.m
+        df2 = pd.DataFrame({c: s * duration for c, s in df2.items()})
+    ispeak = peak_fn(df2.index)  # will raise error if frequency not short enough
 
-    return df2["offpeak"].where(df2["ispeak"], df2["peak"])
+    return df2["peak"].where(ispeak, df2["offpeak"])
 
 
 # def tseries2tseries(
-- 
2.43.0


From 1ab87e59361295dca54eca5d1904b1f04dd40426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 19/39] fix: anchored frequencies (e.g. 'QS-FEB') when
 rounding, trimming and resampling

---
 portfolyo/tools/isboundary.py | 19 +++++++------------
 portfolyo/tools/round.py      | 13 +++----------
 2 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index 35b9cb9..d474e0b 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -70,12 +70,13 @@ def is_X_start(i: pd.DatetimeIndex) -> np.ndarray:
 
 
 def is_X_start(i: pd.Timestamp | pd.DatetimeIndex, freq: str) -> bool | np.ndarray:
-    if freq == "MS":
+    offset = pd.tseries.frequencies.to_offset(freq)
+    if isinstance(offset, pd.tseries.offsets.MonthBegin):
         return is_month_start(i)
-    elif freq == "QS":
-        return is_quarter_start(i)
-    elif freq == "YS":
-        return is_year_start(i)
+    elif isinstance(offset, pd.tseries.offsets.QuarterBegin):
+        return (i.day == 1) & ((i.month - offset.startingMonth) % 3 == 0)
+    elif isinstance(offset, pd.tseries.offsets.YearBegin):
+        return (i.day == 1) & (i.month == offset.month)
     else:
         raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
 
@@ -106,14 +107,8 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
         return full_minute and ts.minute == 0
     elif freq == "D":
         return ts.time() == start_of_day
-    elif freq == "MS":
-        return (ts.time() == start_of_day) & is_month_start(ts)
-    elif freq == "QS":
-        return (ts.time() == start_of_day) & is_quarter_start(ts)
-    elif freq == "YS":
-        return (ts.time() == start_of_day) & is_year_start(ts)
     else:
-        raise ValueError(f"Unexpected frequency ``freq``; got {freq}.")
+        return (ts.time() == start_of_day) & is_X_start(ts, freq)
 
 
 def index(i: pd.DatetimeIndex, freq: str) -> pd.Series:
diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 157a2c1..6ddef6b 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -166,13 +166,6 @@ def _offset(freq: str, future: int):
         return pd.Timedelta(hours=future)
     elif freq == "D":
         return pd.Timedelta(days=future)
-    elif freq == "MS":
-        return pd.offsets.MonthBegin(future)
-    elif freq == "QS":
-        return pd.offsets.QuarterBegin(future, startingMonth=1)
-    elif freq == "YS":
-        return pd.offsets.YearBegin(future)
-    else:
-        raise ValueError(
-            f"Parameter ``freq`` must be one of {tools_freq.ALLOWED_FREQUENCIES_DOCS}; got {freq}."
-        )
+    # Monthly-or-longer, incl. anchored frequencies (e.g. 'QS-FEB').
+    tools_freq.assert_freq_valid(freq)
+    return future * pd.tseries.frequencies.to_offset(freq)
-- 
2.43.0


From cfb235bf74fcf8f88ad5ffc6283d5321ac945ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 20/39] fix: upsampling between monthly-or-longer frequencies
 keeps missing values missing

---
 portfolyo/tools/changefreq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index 3b178ff..bbe758b 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -99,7 +99,8 @@ def _upsample_avgable(s: pd.Series, freq: str) -> pd.Series:
     # then downsampling to months.
 
     if source_vs_daily > 0 and target_vs_daily > 0:
-        return _downsample_avgable(_upsample_avgable(s, "D"), freq)
+        s2 = _upsample_avgable(s, "D")
+        return s2.reindex(index(s2.index, freq))  # value is same on each day of period
 
     # HACK: (2): We cannot simply `.resample()`, because in that case the final value is not
     # duplicated. Solution: add a dummy value, which we eventually remove again.
-- 
2.43.0


From 5b1615704bd238eab78ccc8c3688425c38d6254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 21/39] fix: downsampling of averagable data without full
 periods

---
 portfolyo/tools/changefreq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools/changefreq.py b/portfolyo/tools/changefreq.py
index bbe758b..61a3f8a 100644
--- a/portfolyo/tools/changefreq.py
+++ b/portfolyo/tools/changefreq.py
@@ -32,6 +32,8 @@ def _downsample_avgable(s: pd.Series, freq: str) -> pd.Series:
     duration = tools_duration.frame(s)
     summable = s.mul(duration, axis=0)  # now has a pint dtype
     summable2 = _downsample_summable(summable, freq)
+    if not len(summable2):  # No full periods.
+        return _emptyseries(s, freq)
     duration2 = tools_duration.frame(summable2)
     s2 = summable2.div(duration2, axis=0)
     s2 = _astype(s2, s.dtype)
-- 
2.43.0


From e22104df186bebf0256cc33ba7d5077229218aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 22/39] fix: error when multiplying without any overlapping
 timestamps

---
 portfolyo/core/pfline/arithmatic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/portfolyo/core/pfline/arithmatic.py b/portfolyo/core/pfline/arithmatic.py
index 63f1293..ff34234 100644
--- a/portfolyo/core/pfline/arithmatic.py
+++ b/portfolyo/core/pfline/arithmatic.py
@@ -269,6 +269,10 @@ class Multiply:
             )
         q, p = (pfl2.q, pfl1.p) if pfl1.kind is Kind.PRICE else (pfl1.q, pfl2.p)
         q, p = tools.intersect.frames(q, p)
+        if len(q.index) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on 2 portfolio lines without any overlapping timestamps."
+            )
         r = (q * p).pint.to_base_units()
         constructor = classes.constructor(Structure.FLAT, Kind.REVENUE)
         return constructor(pd.DataFrame({"r": r}))
@@ -281,6 +285,10 @@ class Multiply:
 
     def flatpfline_and_series(pfl: NestedPfLine, s: pd.Series) -> NestedPfLine:
         df, s = tools.intersect.frames(pfl.df, s)
+        if len(df.index) == 0:
+            raise NotImplementedError(
+                "Cannot perform operation on portfolio line and series without any overlapping timestamps."
+            )
         newdf = pd.DataFrame({col: series * s for col, series in df.items()})
         if pfl.kind is Kind.COMPLETE:  # correction: in this case, keep original prices
             newdf["p"] = df["p"]
-- 
2.43.0


From 631b71b838a3f240cdc0b92cdfe493b5a7d8c0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:20 +0000
Subject: [PATCH 23/39] fix: weighted average with equal weights and missing
 values

---
 portfolyo/tools/wavg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/wavg.py b/portfolyo/tools/wavg.py
index 572db5d..311326d 100644
--- a/portfolyo/tools/wavg.py
+++ b/portfolyo/tools/wavg.py
@@ -134,8 +134,12 @@ def series(
     except KeyError as e:  # more weights than values
         raise ValueError("No values found for one or more weights.") from e
 
-    # Unweighted average if all weights the same but not all 0.
-    if weights.nunique() == 1 and not np.isclose(weights.iloc[0], 0):
+    # Unweighted average if all weights the same but not all 0 (and no values missing).
+    if (
+        weights.nunique() == 1
+        and not np.isclose(weights.iloc[0], 0)
+        and not s.isna().any()
+    ):
         return s.mean()
 
     # Replace NaN with 0 in locations where it doesn't change the result.
-- 
2.43.0


From ca27013da1ac7305cf76996b9f3e102f2dbe351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 24/39] fix: flexible intersection with
 ignore_start_of_day=True and equal start-of-day raised an error

---
 portfolyo/tools/intersect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index 724791a..77557b0 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -171,7 +171,7 @@ def indices_flex(
         end = max(values)
         end = tools_right.stamp(end, longest_freq)
 
-        if ignore_start_of_day is True:
+        if ignore_start_of_day is True and len(distinct_sod) != 1:
             start = datetime.combine(pd.to_datetime(start).date(), start_of_day[i])
             end = datetime.combine(pd.to_datetime(end).date(), start_of_day[i])
             # inclusive = "left"
-- 
2.43.0


From 3be432afa60c8ac6f3cb595b45bbdfa7cb744a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 25/39] fix: concatenation of daily portfolio lines cut at a
 DST-transition

---
 portfolyo/tools2/concat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools2/concat.py b/portfolyo/tools2/concat.py
index ff13e1b..84e55e2 100644
--- a/portfolyo/tools2/concat.py
+++ b/portfolyo/tools2/concat.py
@@ -107,6 +107,8 @@ def concat_pflines(pfls: Iterable[PfLine]) -> PfLine:
         # concatenate dataframes into one
         concat_data = pd.concat(dataframes_flat, axis=0)
         try:
+            # Frequency is not always kept, e.g. not at DST-transitions.
+            concat_data = tools.freq.set_to_frame(concat_data, pfls[0].index.freq)
             # Call create.flatpfline() and catch any ValueError
             return create.flatpfline(concat_data)
         except ValueError as e:
-- 
2.43.0


From 5f23d8fb182e8082e154e04b9ea7d4990ba86ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 26/39] fix: conversion to tz-agnostic series lost name and
 unit for hourly values

---
 portfolyo/tools/tzone.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/portfolyo/tools/tzone.py b/portfolyo/tools/tzone.py
index 32c2df5..0b76f32 100644
--- a/portfolyo/tools/tzone.py
+++ b/portfolyo/tools/tzone.py
@@ -274,10 +274,7 @@ def _aware_to_agnostic(fr: Series_or_DataFrame) -> Series_or_DataFrame:
     partly = fr.tz_localize(None)
     partly = partly[~partly.index.duplicated()]  # remove duplicates
 
-    def value(ts):  # Take value of prev hour if current time not found in the input.
-        try:
-            return partly.loc[ts]
-        except KeyError:
-            return partly.loc[ts - pd.Timedelta(hours=1)]
-
-    return fr.__class__([value(ts) for ts in idx_out], index=idx_out)
+    # Take value of prev hour if current time not found in the input.
+    hour = pd.Timedelta(hours=1)
+    mapping = [ts if ts in partly.index else ts - hour for ts in idx_out]
+    return partly.loc[mapping].set_axis(idx_out)
-- 
2.43.0


From bc1bb7b0d4cef0fa4b9890f9a1c1c4be9ed9e9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 27/39] fix: multiples of quarters and years (e.g. 2QS) were
 accepted as frequency

---
 portfolyo/tools/freq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 5dd1f66..fb8523b 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -51,6 +51,8 @@ def assert_freq_valid(freq: str) -> None:
 
     # Define restricted classes that should have n == 1
     restricted_classes = {
+        pd.tseries.offsets.YearBegin: 1,
+        pd.tseries.offsets.QuarterBegin: 1,
         pd.tseries.offsets.MonthBegin: 1,
         pd.tseries.offsets.Day: 1,
         pd.tseries.offsets.Hour: 1,
-- 
2.43.0


From 7d97f653586a4587a820c0f19f8a76f204fbe309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 28/39] fix: comparison of anchored frequencies (e.g. QS-FEB)
 with shorter ones

---
 portfolyo/tools/freq.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index fb8523b..6e09e63 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -214,8 +214,12 @@ def assert_freq_sufficiently_short(freq, freq_ref, strict: bool = False) -> None
 def _longestshortest(shortest: bool, *freqs: str):
     """Determine which frequency denotes the shortest or longest time period."""
     common_ts = pd.Timestamp("2020-01-01")
-    ts = [common_ts + pd.tseries.frequencies.to_offset(fr) for fr in freqs]
-    i = (np.argmin if shortest else np.argmax)(ts)
+    lengths = []
+    for fr in freqs:
+        offset = pd.tseries.frequencies.to_offset(fr)
+        start = offset.rollforward(common_ts)  # start of a period, e.g. 'QS-FEB'
+        lengths.append((start + offset) - start)
+    i = (np.argmin if shortest else np.argmax)(lengths)
     return freqs[i]
 
 
-- 
2.43.0


From eec92ad159042b121e7acf31585e4ff32fc7ba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:33 +0000
Subject: [PATCH 29/39] fix: dataframe without units raised an error

---
 portfolyo/core/pfline/dataframeexport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/core/pfline/dataframeexport.py b/portfolyo/core/pfline/dataframeexport.py
index bd6ee9a..2782135 100644
--- a/portfolyo/core/pfline/dataframeexport.py
+++ b/portfolyo/core/pfline/dataframeexport.py
@@ -36,8 +36,10 @@ class Flat:
         """
         cols = cols or "wqpr"  # in case nothing was specified.
         cols = [col for col in cols if col in "wqpr" and col in self.kind.available]
-        df = pd.DataFrame({col: self.df[col] for col in cols})
-        return df if has_units else df.pint.m
+        df = pd.DataFrame({col: self.df[col] for col in cols}, self.df.index)
+        if has_units:
+            return df
+        return pd.DataFrame({col: s.pint.m for col, s in df.items()}, df.index)
 
 
 class Nested:
-- 
2.43.0


From 6ae9201c42f0b4c2298f4c0161c84c0068d638f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:33 +0000
Subject: [PATCH 30/39] fix: keyword arguments of to_excel were passed on as
 positional arguments

---
 portfolyo/core/shared/excelclipboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/core/shared/excelclipboard.py b/portfolyo/core/shared/excelclipboard.py
index 80d77ad..d72068d 100644
--- a/portfolyo/core/shared/excelclipboard.py
+++ b/portfolyo/core/shared/excelclipboard.py
@@ -23,4 +23,4 @@ class ExcelClipboardOutput:  # for both PfLine and PfState
 
     @functools.wraps(pd.DataFrame.to_excel)
     def to_excel(self: NDFrameLike, *args, **kwargs) -> None:
-        prepare_df(self).to_excel(*args, *kwargs)
+        prepare_df(self).to_excel(*args, **kwargs)
-- 
2.43.0


From d7977b1945e3de567cf2cc1b98a7930790ac7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:54 +0000
Subject: [PATCH 31/39] fix: timestamp a few nanoseconds after start of day was
 taken for a boundary

---
 portfolyo/tools/isboundary.py | 6 ++++--
 portfolyo/tools/round.py      | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/isboundary.py b/portfolyo/tools/isboundary.py
index d474e0b..a317b6a 100644
--- a/portfolyo/tools/isboundary.py
+++ b/portfolyo/tools/isboundary.py
@@ -106,9 +106,11 @@ def stamp(ts: pd.Timestamp, freq: str, start_of_day: dt.time = None) -> bool:
     elif freq == "h":
         return full_minute and ts.minute == 0
     elif freq == "D":
-        return ts.time() == start_of_day
+        return ts.time() == start_of_day and ts.nanosecond == 0
     else:
-        return (ts.time() == start_of_day) & is_X_start(ts, freq)
+        return (
+            ts.time() == start_of_day and ts.nanosecond == 0 and is_X_start(ts, freq)
+        )
 
 
 def index(i: pd.DatetimeIndex, freq: str) -> pd.Series:
diff --git a/portfolyo/tools/round.py b/portfolyo/tools/round.py
index 6ddef6b..5d56895 100644
--- a/portfolyo/tools/round.py
+++ b/portfolyo/tools/round.py
@@ -81,7 +81,7 @@ def stamp_current(
     # If we land here, the frequency is daily-or-longer.
 
     # . Correct for the time-of-day.
-    if ts.time() == start_of_day:
+    if ts.time() == start_of_day and ts.nanosecond == 0:
         rounded = ts
     else:
         part_of_prevday = ts.time() < start_of_day
-- 
2.43.0


From 4f31d10820577d9b35896a575a6a03c081c93063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:48 +0000
Subject: [PATCH 32/39] fix: quarter of 88 days and 23 hours was not recognised
 as a quarter

---
 portfolyo/tools/freq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/portfolyo/tools/freq.py b/portfolyo/tools/freq.py
index 6e09e63..6a9ec26 100644
--- a/portfolyo/tools/freq.py
+++ b/portfolyo/tools/freq.py
@@ -325,7 +325,7 @@ def from_tdelta(tdelta: pd.Timedelta) -> str:
         return "D"
     elif pd.Timedelta(days=27) <= tdelta <= pd.Timedelta(days=32):
         return "MS"
-    elif pd.Timedelta(days=89) <= tdelta <= pd.Timedelta(days=93):
+    elif pd.Timedelta(days=88) <= tdelta <= pd.Timedelta(days=93):
         return "QS"
     elif pd.Timedelta(days=364) <= tdelta <= pd.Timedelta(days=367):
         return "YS"
-- 
2.43.0


From 9657f849311e32bf6f8e972cd035d20d57ac193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:48 +0000
Subject: [PATCH 33/39] fix: last timestamp was lost when making daily index
 leftbound after start of DST

---
 portfolyo/tools/righttoleft.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/portfolyo/tools/righttoleft.py b/portfolyo/tools/righttoleft.py
index 5384352..4f2de04 100644
--- a/portfolyo/tools/righttoleft.py
+++ b/portfolyo/tools/righttoleft.py
@@ -5,7 +5,6 @@ Calculate the left-bound timestamp of delivery period, given the right-bound one
 import pandas as pd
 
 from . import freq as tools_freq
-from . import startofday as tools_startofday
 
 
 def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
@@ -40,11 +39,12 @@ def index(i: pd.DatetimeIndex, how: str = "A") -> pd.DatetimeIndex:
         i = tools_freq.guess_to_index(i)
 
     if i.freq is not None:
-        i2 = i.shift(-1)
-        # HACK: pandas does not give correct result if first timestamp is after DST-transition
-        if i.freq == "D" and tools_startofday.get(i2) != tools_startofday.get(i):
+        if i.freq == "D":
+            # HACK: pandas does not give correct result if first or last timestamp is
+            # directly after DST-transition, as it shifts by 24 hours.
             i2 = i - tools_freq.to_offset(i.freq)
-        return i2
+            return pd.DatetimeIndex(i2, freq=i.freq)
+        return i.shift(-1)
 
     # Couldn't infer frequency. Try from median timedelta and turn into time offset.
     offst = tools_freq.to_offset(tools_freq.from_tdelta((i[1:] - i[:-1]).median()))
-- 
2.43.0


From aceea0491b4dafe4a2c4a3917cd3970966019f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:59 +0000
Subject: [PATCH 34/39] fix: peak period with bound between 2:00 and 3:00
 raised an error at start of DST

---
 portfolyo/tools/peakfn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 802874b..1adea37 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -9,7 +9,6 @@ import pandas as pd
 from . import changefreq as tools_changefreq
 from . import duration as tools_duration
 from . import freq as tools_freq
-from . import right as tools_right
 
 PeakFunction = Callable[[pd.DatetimeIndex], pd.Series]
 
@@ -85,7 +84,8 @@ def factory(
 
     def filter_time(i: pd.DatetimeIndex) -> np.ndarray:
         time_left = i.time
-        time_right = tools_right.index(i).time
+        # End of period, as seen on the wall clock at its start. (Not affected by DST-transition.)
+        time_right = (i.tz_localize(None) + tools_freq.to_offset(i.freq)).time
         mask = True
         if peak_left != MIDNIGHT:
             cond1 = time_left >= peak_left
-- 
2.43.0


From 35abe61e342a6459a8500a238e10f56bdc8ab9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:47 +0000
Subject: [PATCH 35/39] fix: peak function without any peak period was accepted

---
 portfolyo/tools/peakfn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/peakfn.py b/portfolyo/tools/peakfn.py
index 1adea37..5be41b8 100644
--- a/portfolyo/tools/peakfn.py
+++ b/portfolyo/tools/peakfn.py
@@ -61,7 +61,11 @@ def factory(
     must_check_time = not (peak_left == MIDNIGHT and peak_right == MIDNIGHT)
     weekday_count = sum(wd in isoweekdays for wd in (1, 2, 3, 4, 5, 6, 7))
     must_check_date = 0 < weekday_count < 7
-    if not must_check_time and not must_check_date:
+    # No peak periods, if on none of the days or if end of peak period is not after its start.
+    never_peak = weekday_count == 0 or (
+        peak_right != MIDNIGHT and peak_left >= peak_right
+    )
+    if never_peak or (not must_check_time and not must_check_date):
         raise ValueError(
             "Input specifies no special cases; all time periods included or all time periods "
             f"excluded; got {peak_left}-{peak_right} on {weekday_count} days of the week."
-- 
2.43.0


From 56a7f2885e269fa061961ea903f3a54e5af127cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:36 +0000
Subject: [PATCH 36/39] fix: index whose timestamps have seconds was accepted

---
 portfolyo/tools/standardize.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/portfolyo/tools/standardize.py b/portfolyo/tools/standardize.py
index 487fcc8..97a1e3c 100644
--- a/portfolyo/tools/standardize.py
+++ b/portfolyo/tools/standardize.py
@@ -181,6 +181,13 @@ def assert_index_standardized(i: pd.DatetimeIndex, __right: bool = False):
     if not len(i):
         raise AssertionError("Index must have values; got empty index.")
 
+    # Check seconds (and shorter).
+    if any(not_ok := (i.second != 0) | (i.microsecond != 0) | (i.nanosecond != 0)):
+        raise AssertionError(
+            "In an index, all timestamps (all periods) should start at a full minute; found"
+            f" {i[not_ok]}."
+        )
+
     # Check hour and minute.
     if tools_freq.up_or_down(freq, "15min") <= 0:  # quarterhour
         startminute = 15 if __right else 0
-- 
2.43.0


From 69424f5bb104f1fe870a1dfb43bfa9e64c098593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:52 +0000
Subject: [PATCH 37/39] fix: empty intersection lost frequency, time zone and
 name of the indices

---
 portfolyo/tools/intersect.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index 77557b0..faa853e 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -162,7 +162,12 @@ def indices_flex(
     values = sorted(values)
 
     if len(values) == 0:
-        return tuple([pd.DatetimeIndex([]) for _ in idxs])
+        return tuple(
+            [
+                pd.DatetimeIndex([], freq=f, tz=z, name=n)
+                for f, z, n in zip(freq, tz, name)
+            ]
+        )
 
     idxs_out = []
     for i in range(len(idxs)):
-- 
2.43.0


From 39455486dad4d8f7ead999f5b0d13f09f9de017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:38 +0000
Subject: [PATCH 38/39] fix: intersection ignoring frequency and start-of-day
 raised an error if there are no full periods

---
 portfolyo/tools/intersect.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/portfolyo/tools/intersect.py b/portfolyo/tools/intersect.py
index faa853e..ca9c6e3 100644
--- a/portfolyo/tools/intersect.py
+++ b/portfolyo/tools/intersect.py
@@ -118,7 +118,8 @@ def indices_flex(
 
     # If we land here, we have at least 2 indices, all are not empty.
 
-    distinct_sod = set([i[0].time() for i in idxs])
+    start_of_day = [i[0].time() for i in idxs]
+    distinct_sod = set(start_of_day)
     if len(distinct_sod) != 1 and ignore_start_of_day is False:
         raise ValueError(f"Indices must have equal start-of-day; got {distinct_sod}.")
     for i in range(len(idxs)):
@@ -149,8 +150,6 @@ def indices_flex(
             idxs[i] = idxs[i].tz_localize(None)
 
     if ignore_start_of_day is True and len(distinct_sod) != 1:
-        # Save a copy of the original hours and minutes
-        start_of_day = [x[0].time() for x in idxs]
         # Set the time components to midnight for each index in the list
         idxs = [index.normalize() for index in idxs]
 
-- 
2.43.0


From 325cc867b1c524d8f299343cefe41fcc5c864ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:02 +0000
Subject: [PATCH 39/39] fix: hedge of series raised an error if only one of
 power and price has a unit

---
 portfolyo/tools/hedge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/portfolyo/tools/hedge.py b/portfolyo/tools/hedge.py
index c49dbf0..e298cb9 100644
--- a/portfolyo/tools/hedge.py
+++ b/portfolyo/tools/hedge.py
@@ -108,7 +108,9 @@ def hedge(
     wout, pout = dfout["w"], dfout["p"]
 
     # Handle possible units.
-    if wunits or punits:
-        wout, pout = wout.astype(f"pint[{wunits}]"), pout.astype(f"pint[{punits}]")
+    if wunits is not None:
+        wout = wout.astype(f"pint[{wunits}]")
+    if punits is not None:
+        pout = pout.astype(f"pint[{punits}]")
 
     return wout, pout
-- 
2.43.0

