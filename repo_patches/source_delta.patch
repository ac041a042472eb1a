From 7626c37fbdbc02eb901394954de705d2c1b810bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:35 +0000
Subject: [PATCH 01/32] fix: refuse new descendants below an aggregated view

A view of a parameter binds the leaves below it when it is created, but only
direct children of the viewed parameter were refused afterwards, so a leaf added
one level further down was missing from the sum.
---
 openscm/core/parameters.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 09d199b..038e511 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -184,8 +184,9 @@ class _Parameter:
         Raises
         ------
         ParameterReadError
-            If the child parameter would need to be added, but this parameter has
-            already been read from. In this case a child parameter cannot be added.
+            If the child parameter would need to be added, but this parameter (or one of
+            its ancestors) has already been read from. In this case a child parameter
+            cannot be added.
         ParameterWrittenError
             If the child parameter would need to be added, but this parameter has
             already been written to. In this case a child parameter cannot be added.
@@ -194,8 +195,12 @@ class _Parameter:
         if res is None:
             if self.has_been_written_to:
                 raise ParameterWrittenError
-            if self.has_been_read_from:
-                raise ParameterReadError
+            ancestor: Optional["_Parameter"] = self
+            while ancestor is not None:
+                # views of any ancestor already aggregate over this branch
+                if ancestor.has_been_read_from:
+                    raise ParameterReadError
+                ancestor = ancestor.parent
             res = _Parameter(name, self.region)
             res.parent = self
             self.children[name] = res
-- 
2.43.0


From 72529dad4bcfff3ee5b6606a3c20a2445f448eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 02/32] fix: refresh aggregated timeseries views on every read

The cache was keyed on the version of the viewed parameter, which does not
change when a child parameter is written, so the sum went stale.
---
 openscm/core/views.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index be0af3b..6c07587 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -346,7 +346,10 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif self._version != self._parameter.version:
+        elif (
+            self._parameter.children  # child parameters have their own versions
+            or self._version != self._parameter.version
+        ):
             np.copyto(self._data, self._get_values())
             self._version = self._parameter.version
 
-- 
2.43.0


From 8504001cac5b29a014618e4792e5b8bfc65e1fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 03/32] fix: element-wise writes respect read-only timeseries
 parameters

Writing single values (or using a view as ufunc output) skipped the check made
when assigning all values, so an aggregated view could be altered.
---
 openscm/core/views.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 6c07587..f40c9b7 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -33,6 +33,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         ]
         outputs = kwargs.pop("out", None)
         if outputs:
+            for i in outputs:
+                if isinstance(i, type(self)):
+                    i._parameter_view._check_write()
             kwargs["out"] = tuple(
                 i._ndarray if isinstance(i, type(self)) else i for i in outputs
             )
@@ -103,6 +106,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return result
 
     def __setitem__(self, key, val):
+        self._parameter_view._check_write()
         self._ndarray[key] = val
         self.__write__()
 
-- 
2.43.0


From b93827a079095e6638ba455dc11c5f4982bd1294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 04/32] fix: a timeseries write of the wrong length leaves the
 parameter empty

The parameter was marked as written before the length was checked, so a
rejected first write made it read as all-NaN instead of raising
ParameterEmptyError.
---
 openscm/core/views.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index f40c9b7..8262a16 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -418,9 +418,12 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Value of the full timeseries
         """
-        self._check_write()
-        if len(v) != self._timeseries_converter.target_length:
+        if (
+            not self._parameter.children
+            and len(v) != self._timeseries_converter.target_length
+        ):
             raise TimeseriesPointsValuesMismatchError
+        self._check_write()
         if self._data is None:
             self._data = np.asarray(v).copy()
             self._timeseries = _Timeseries(self._data, self)
-- 
2.43.0


From 61a096a94e3db1d046108c40dd6e8532910662a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:52 +0000
Subject: [PATCH 05/32] fix: arithmetic on held timeseries values uses
 up-to-date data

Indexing, iterating and ufuncs refresh the buffer first; arithmetic, comparison
and conversion to an array did not and returned outdated values.
---
 openscm/core/views.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 8262a16..ec7c597 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -61,8 +61,9 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
     @classmethod
     def _create_arithmetic_method(cls, op):
         def arithmetic_method(self, other):
+            self.__read__()
             if isinstance(other, cls):
-                other = other._ndarray
+                other = other.__read__()._ndarray
 
             with np.errstate(all="ignore"):
                 return op(self._ndarray, other)
@@ -119,6 +120,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
         return "timeseries({})".format(repr(self._ndarray))
 
     def __array__(self, dtype=None):
+        self.__read__()
         return np.asarray(self._ndarray, dtype=dtype)
 
     def __len__(self):
-- 
2.43.0


From 602b0251d1f02cafef956ce0b75dc2ea5ec9cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 06/32] fix: views first written with integers can take
 non-integer values

The buffer kept the integer type of the first values, so both a later write of
floats and a read after a write through another view raised TypeError.
---
 openscm/core/views.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index ec7c597..ecd1ce9 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -356,9 +356,16 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._parameter.children  # child parameters have their own versions
             or self._version != self._parameter.version
         ):
-            np.copyto(self._data, self._get_values())
+            self._update_data(self._get_values())
             self._version = self._parameter.version
 
+    def _update_data(self, values: np.ndarray) -> None:
+        if np.can_cast(values.dtype, self._data.dtype, "same_kind"):
+            np.copyto(self._data, values)
+        else:  # view has been written to with integers before
+            self._data = np.array(values)
+            self._timeseries._ndarray = self._data
+
     def _check_write(self):
         if not self._writable:
             self._parameter.attempt_write(
@@ -430,7 +437,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._data = np.asarray(v).copy()
             self._timeseries = _Timeseries(self._data, self)
         else:
-            np.copyto(self._data, np.asarray(v))
+            self._update_data(np.asarray(v))
         self._write()
 
     @property
-- 
2.43.0


From 8c4468143dfeb4aead601bf91d7849b1bf02a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 07/32] fix: refuse to aggregate over child parameters of
 another type

A scalar view above a timeseries returned an array, a point timeseries view above
averages converted them as if they were points. Both views are of the wrong type,
which is a ParameterTypeError.
---
 openscm/core/views.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index ecd1ce9..3fef172 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -10,7 +10,11 @@ import numpy as np
 from numpy.lib.mixins import NDArrayOperatorsMixin
 from pandas.core.arrays.base import ExtensionOpsMixin
 
-from ..errors import ParameterEmptyError, TimeseriesPointsValuesMismatchError
+from ..errors import (
+    ParameterEmptyError,
+    ParameterTypeError,
+    TimeseriesPointsValuesMismatchError,
+)
 from .parameters import ParameterInfo, ParameterType, _Parameter
 from .time import ExtrapolationType, InterpolationType, TimeseriesConverter
 from .units import UnitConverter
@@ -192,6 +196,8 @@ class ScalarView(ParameterInfo):
                     ),
                     [],
                 )
+            if parameter.parameter_type != ParameterType.SCALAR:
+                raise ParameterTypeError
             return [ScalarView(parameter, self._unit_converter.target)]
 
         if self._parameter.children:
@@ -332,6 +338,8 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
                     ),
                     [],
                 )
+            if parameter.parameter_type != timeseries_type:
+                raise ParameterTypeError
             return [
                 TimeseriesView(
                     parameter,
-- 
2.43.0


From 0f94b66b0193d6f452c34dd64de810d453d12fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 08/32] fix: always refuse target times outside the source
 without extrapolation

For average timeseries this relied on the integrator evaluating the source
outside its range, which it does not do close to the interval edges.
---
 openscm/core/time.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index b872cae..c96c8ca 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -541,13 +541,21 @@ class TimeseriesConverter:
         if len(values) < 3:
             raise InsufficientDataError
 
+        error_msg = (
+            "Target time points are outside the source time points, use an "
+            "extrapolation type other than None"
+        )
+        # numerical integration does not evaluate the interval edges, so it would
+        # not notice if a target time point is only just outside
+        if self._extrapolation_type == ExtrapolationType.NONE and (
+            target_time_points.min() < source_time_points.min()
+            or target_time_points.max() > source_time_points.max()
+        ):
+            raise InsufficientDataError(error_msg)
+
         try:
             return self._convert_unsafe(values, source_time_points, target_time_points)
         except ValueError:
-            error_msg = (
-                "Target time points are outside the source time points, use an "
-                "extrapolation type other than None"
-            )
             raise InsufficientDataError(error_msg)
 
     def _convert_unsafe(
-- 
2.43.0


From cebb8885b7e8fc383e4cdb107716a5d9ab2bd5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 09/32] fix: time filters accept several string ranges and keep
 the list passed in

Ranges were deleted from the user's own list by their original positions, so the
list was altered and more than one range raised IndexError or dropped the wrong
entry.
---
 openscm/scmdataframe/filters.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 32ea694..7516a85 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -368,9 +368,9 @@ def time_match(
         return res
 
     if isinstance(times_list[0], str):
-        to_delete = []
+        single_times = []
         to_append = []  # type: List
-        for i, timeset in enumerate(times_list):
+        for timeset in times_list:
             # ignore type as already established we're looking at strings
             if "-" in timeset:  # type: ignore
                 ints = conv_strs(timeset.split("-"), conv_codes, name)  # type: ignore
@@ -383,12 +383,10 @@ def time_match(
 
                 # + 1 to include last month
                 to_append += [j for j in range(ints[0], ints[1] + 1)]
-                to_delete.append(i)
+            else:
+                single_times.append(timeset)
 
-        for i in to_delete:
-            del times_list[i]
-
-        times_list = conv_strs(times_list, conv_codes, name)
+        times_list = conv_strs(single_times, conv_codes, name)
         times_list += to_append
 
     return is_in(data, times_list)
-- 
2.43.0


From b623922db1478f1a76f0e25fac3f8fc4e92c2357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 10/32] fix: match all characters but the wildcard literally
 when filtering

Only some of the special characters of regular expressions were escaped, so e.g.
the unit "W/m^2" never matched itself.
---
 openscm/scmdataframe/filters.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 7516a85..7dc98fc 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -169,16 +169,8 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
 
     for s in _values:
         if isinstance(s, str):
-            _regexp = (
-                str(s)
-                .replace("|", "\\|")
-                .replace(".", r"\.")  # `.` has to be replaced before `*`
-                .replace("*", ".*")
-                .replace("+", r"\+")
-                .replace("(", r"\(")
-                .replace(")", r"\)")
-                .replace("$", "\\$")
-            ) + "$"
+            # everything but the wildcard `*` is matched literally
+            _regexp = re.escape(str(s)).replace(r"\*", ".*") + "$"
             pattern = re.compile(_regexp if not regexp else str(s))
             try:
                 subset = [m for m in _meta_col if pattern.match(m)]
-- 
2.43.0


From e24998bcb140f439032f428bac5c797d9fb80b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:39 +0000
Subject: [PATCH 11/32] fix: interpolate data frames with both average and
 point timeseries

The extra time point needed for averages was also used for the point timeseries
handled afterwards, which raised ValueError.
---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 4beb8ce..57a57ef 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1008,13 +1008,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         for parameter_type, grp in res._meta.groupby("parameter_type"):
             p_type = ParameterType.from_timeseries_type(parameter_type)
             time_points = self.time_points
+            target_points = target_times
 
             if p_type == ParameterType.AVERAGE_TIMESERIES:
                 # With an average time series we are making the assumption that the last value is the
                 # average value between t[-1] and (t[-1] - t[-2]). This will ensure that both the
                 # point and average timeseries can use the same time grid.
                 delta_t = target_times[-1] - target_times[-2]
-                target_times = np.concatenate(
+                target_points = np.concatenate(
                     (target_times, [target_times[-1] + delta_t])
                 )
 
@@ -1023,7 +1024,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
 
             timeseries_converter = TimeseriesConverter(
                 time_points,
-                target_times,
+                target_points,
                 p_type,
                 InterpolationType.from_interpolation_type(interpolation_type),
                 ExtrapolationType.from_extrapolation_type(extrapolation_type),
-- 
2.43.0


From a36407da2f6c28dfd370e3658cd61213298b6a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 12/32] fix: guess missing parameter types whatever the other
 metadata are

The guess was written to the rows that apply() passes, which are copies if the
metadata are not all strings; all values were then silently lost as NaN. The
same happened for a parameter type that is NaN, e.g. after appending.
---
 openscm/scmdataframe/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 57a57ef..a4f4d57 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -987,19 +987,19 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             res._sort_meta_cols()
 
         def guess(r):
-            if r.parameter_type is None:
+            if pd.isnull(r.parameter_type):
                 warnings.warn(
                     "`parameter_type` metadata not available. Guessing parameter types where unavailable."
                 )
                 parameter_type = guess_parameter_type(r.variable, r.unit)
-                r.parameter_type = (
+                return (
                     "average"
                     if parameter_type == ParameterType.AVERAGE_TIMESERIES
                     else "point"
                 )
-            return r
+            return r.parameter_type
 
-        res._meta.apply(guess, axis=1)
+        res._meta["parameter_type"] = [guess(r) for _, r in res._meta.iterrows()]
 
         # Resize dataframe to new index length
         old_data = res._data
-- 
2.43.0


From dd436935a8d4d353d821ceb0c603e551a4c4dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 13/32] fix: convert parameters of all subregions to a data
 frame

Parameters of regions more than one level below the root were silently left out.
---
 openscm/scmdataframe/__init__.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/openscm/scmdataframe/__init__.py b/openscm/scmdataframe/__init__.py
index f032309..50769c3 100644
--- a/openscm/scmdataframe/__init__.py
+++ b/openscm/scmdataframe/__init__.py
@@ -10,6 +10,7 @@ import numpy as np
 
 from ..core.parameters import ParameterInfo, ParameterType, _Parameter
 from ..core.parameterset import ParameterSet
+from ..core.regions import _Region
 from .base import ScmDataFrameBase, df_append  # noqa: F401
 
 
@@ -108,17 +109,15 @@ def convert_openscm_to_scmdataframe(  # pylint: disable=too-many-locals
     data = []
 
     root_params: Dict[Tuple, ParameterInfo] = {}
-    for (
-        _,
-        value,
-    ) in parameterset._root._parameters.items():  # pylint: disable=protected-access
-        root_params.update(walk_parameters(value))
-    for (
-        _,
-        r,
-    ) in parameterset._root._children.items():  # pylint: disable=protected-access
-        for _, value in r._parameters.items():  # pylint: disable=protected-access
+
+    def walk_regions(r: _Region) -> None:
+        # pylint: disable=protected-access
+        for _, value in r._parameters.items():
             root_params.update(walk_parameters(value))
+        for _, child_region in r._children.items():
+            walk_regions(child_region)
+
+    walk_regions(parameterset._root)  # pylint: disable=protected-access
 
     for (param_name, region), p_info in root_params.items():
         # All meta values are stored as generic value (AKA no units)
-- 
2.43.0


From 1fcb88c90a6301bde454ab06a32712f420713d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 14/32] fix: creating a data frame does not change the index of
 its input

---
 openscm/scmdataframe/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index a4f4d57..bcd99be 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -231,8 +231,8 @@ def _from_ts(
     ValueError
         Not all required columns are present
     """
-    if not isinstance(df, pd.DataFrame):
-        df = pd.DataFrame(df)
+    # copy so the index of the input is not changed
+    df = df.copy() if isinstance(df, pd.DataFrame) else pd.DataFrame(df)
     if index is not None:
         if isinstance(index, np.ndarray):
             df.index = TimePoints(index).to_index()
-- 
2.43.0


From 93f47153fcb51d9c88cbbc5e385210d2432c6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:09 +0000
Subject: [PATCH 15/32] fix: a refused rename in place leaves the metadata
 unchanged

---
 openscm/scmdataframe/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index bcd99be..d213ce4 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -854,14 +854,14 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             Column is not in meta or renaming will cause non-unique metadata
         """
         ret = copy.deepcopy(self) if not inplace else self
+        meta = self.meta
         for col, _mapping in mapping.items():
-            if col not in self.meta.columns:
+            if col not in meta.columns:
                 raise ValueError("Renaming by {} not supported!".format(col))
-            ret._meta[col] = ret._meta[col].replace(  # pylint: disable=protected-access
-                _mapping
-            )
-            if ret._meta.duplicated().any():  # pylint: disable=protected-access
+            meta[col] = meta[col].replace(_mapping)
+            if meta.duplicated().any():
                 raise ValueError("Renaming to non-unique metadata for {}!".format(col))
+        ret._meta = meta  # pylint: disable=protected-access
 
         if not inplace:
             return ret
-- 
2.43.0


From ebdc4d3fc21981e508d32a1ca8c4b76b01d4ab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 16/32] fix: unlocking a view only publishes writes made while
 locked

---
 openscm/core/views.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 3fef172..1a74d66 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -271,6 +271,9 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
     write)?
     """
 
+    _pending: bool
+    """Have there been writes since this view has been locked?"""
+
     _timeseries: Optional[_Timeseries]
     """Time series handler"""
 
@@ -324,6 +327,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         )
         self._data = None
         self._locked = False
+        self._pending = False
         self._timeseries = None
         self._writable = False
 
@@ -384,6 +388,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
             self._writable = True
 
     def _write(self):
+        self._pending = self._locked
         if not self._locked:
             self._parameter.data = self._timeseries_converter.convert_to(
                 self._unit_converter.convert_to(self._data)
@@ -478,10 +483,11 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         """
         Unlock this view (i.e., update the underlying parameter on every write).
 
-        Updates the underlying parameter.
+        Updates the underlying parameter if there were any writes while locked.
         """
         self._locked = False
-        self._write()
+        if self._pending:
+            self._write()
 
 
 class GenericView(ParameterInfo):
-- 
2.43.0


From 981e00f5d9d3f0c1852f9048d5ac87aea49a6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 17/32] fix: degreeC and degreeF keep the offset of degC and
 degF

---
 openscm/core/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 6d23e2d..7fa29bd 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -261,8 +261,8 @@ class ScmUnitRegistry(pint.UnitRegistry):  # type: ignore
         self.define("a = 1 * year = annum = yr")
         self.define("h = hour")
         self.define("d = day")
-        self.define("degreeC = degC")
-        self.define("degreeF = degF")
+        self.define("@alias degC = degreeC")  # (keeps offset)
+        self.define("@alias degF = degreeF")
         self.define("kt = 1000 * t")  # since kt is used for "knot" in the defaults
 
         self.define("ppt = [concentrations]")
-- 
2.43.0


From 2a9febf4de2c9ebf49ea06de1d5af6689b23e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:26 +0000
Subject: [PATCH 18/32] fix: define the base unit of sulfur species

---
 openscm/core/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/units.py b/openscm/core/units.py
index 7fa29bd..279b721 100644
--- a/openscm/core/units.py
+++ b/openscm/core/units.py
@@ -136,7 +136,7 @@ _standard_gases = {
     "NOx": "NOx",
     "nox": ["NOx"],
     "NH3": ["14/17 * N", "ammonia"],
-    "S": ["sulfur"],
+    "S": "sulfur",
     "SO2": ["32/64 * S", "sulfur_dioxide"],
     "SOx": ["SO2"],
     "BC": "black_carbon",
-- 
2.43.0


From b256485caff99b04c2ce62934b0b6c78c2b6aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 19/32] fix: reading a locked view keeps its unpublished writes

---
 openscm/core/views.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 1a74d66..1efa1f7 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -364,7 +364,7 @@ class TimeseriesView(ParameterInfo):  # pylint: disable=too-many-instance-attrib
         if self._data is None:
             self._data = self._get_values()
             self._version = self._parameter.version
-        elif (
+        elif not self._pending and (
             self._parameter.children  # child parameters have their own versions
             or self._version != self._parameter.version
         ):
-- 
2.43.0


From e7fd9c31765c8ac946e34efa928d1814d9a6a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:16 +0000
Subject: [PATCH 20/32] fix: integrate over periods much shorter than the
 target period correctly

---
 openscm/core/time.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/openscm/core/time.py b/openscm/core/time.py
index c96c8ca..d35df79 100644
--- a/openscm/core/time.py
+++ b/openscm/core/time.py
@@ -289,7 +289,9 @@ def create_time_points(  # TODO: replace by simpler function
 
 
 def _calc_interval_averages(
-    continuous_representation: Callable[[float], float], target_intervals: np.ndarray
+    continuous_representation: Callable[[float], float],
+    target_intervals: np.ndarray,
+    break_points: Sequence[float] = (),
 ) -> np.ndarray:
     """
     Calculate the interval averages of a continuous function.
@@ -305,6 +307,9 @@ def _calc_interval_averages(
         :func:`openscm.timeseries_converter.TimeseriesConverter._calc_continuous_representation`.
     target_intervals
         Intervals to calculate the average of.
+    break_points
+        Points where the function is not smooth (so that the numerical integration does
+        not miss short periods)
 
     Returns
     -------
@@ -316,7 +321,14 @@ def _calc_interval_averages(
     int_averages = [np.nan] * len(target_intervals[:-1])
     for i, l in enumerate(target_intervals[:-1]):
         u = target_intervals[i + 1]
-        y, _ = integrate.quad(continuous_representation, l, u)
+        points = [p for p in break_points if l < p < u]
+        y, _ = integrate.quad(
+            continuous_representation,
+            l,
+            u,
+            points=points if points else None,
+            limit=50 + 2 * len(points),
+        )
         int_averages[i] = y / (u - l)
 
     return np.array(int_averages)
@@ -588,11 +600,13 @@ class TimeseriesConverter:
             Converted time period average data for timeseries :obj:`values`
         """
         if self._timeseries_type == ParameterType.AVERAGE_TIMESERIES:
+            continuous_representation = self._calc_continuous_representation(
+                source_time_points.astype(_TARGET_TYPE), values
+            )
             return _calc_interval_averages(
-                self._calc_continuous_representation(
-                    source_time_points.astype(_TARGET_TYPE), values
-                ),
+                continuous_representation,
                 target_time_points.astype(_TARGET_TYPE),
+                break_points=getattr(continuous_representation, "x", ()),
             )
         if self._timeseries_type == ParameterType.POINT_TIMESERIES:
             return self._calc_continuous_representation(
-- 
2.43.0


From b7f755a1b15d2a4cb80ea7e32946cf62bb1c655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:06 +0000
Subject: [PATCH 21/32] fix: resampling grids cover times of the day

---
 openscm/scmdataframe/offsets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index 93b2f94..cb5adf0 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -18,6 +18,7 @@ from pandas.tseries.offsets import (
     BusinessMixin,
     DateOffset,
     NaT,
+    Tick,
     as_datetime,
     conversion,
     normalize_date,
@@ -66,6 +67,9 @@ def apply_rollforward(obj):
     # custom wrapper
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
+        if not isinstance(obj, Tick):  # regular times are at midnight
+            midnight = dt.replace(hour=0, minute=0, second=0, microsecond=0)
+            dt = midnight + datetime.timedelta(days=1) if midnight < dt else dt
         if not obj.onOffset(dt):
             dt = dt + obj.__class__(1, normalize=obj.normalize, **obj.kwds)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
@@ -80,6 +84,8 @@ def apply_rollback(obj):
     # custom wrapper
     def wrapper(dt: datetime.datetime) -> datetime.datetime:
         dt = as_datetime(dt)
+        if not isinstance(obj, Tick):  # regular times are at midnight
+            dt = dt.replace(hour=0, minute=0, second=0, microsecond=0)
         if not obj.onOffset(dt):
             dt = dt - obj.__class__(1, normalize=obj.normalize, **obj.kwds)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
-- 
2.43.0


From 80a3865aa4b32689f70895ab39b3727e4efb1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:20 +0000
Subject: [PATCH 22/32] fix: resampling grids reach beyond the years pandas can
 represent

---
 openscm/scmdataframe/offsets.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/openscm/scmdataframe/offsets.py b/openscm/scmdataframe/offsets.py
index cb5adf0..e9052bf 100644
--- a/openscm/scmdataframe/offsets.py
+++ b/openscm/scmdataframe/offsets.py
@@ -60,6 +60,21 @@ def apply_dt(func, self):
     return wrapper
 
 
+def _wrap_apply(offset: DateOffset) -> None:
+    # Checks if the function has been wrapped and replace with `apply_dt` wrapper
+    func = offset.apply
+
+    if hasattr(func, "__wrapped__"):  # pragma: no cover
+        object.__setattr__(offset, "apply", apply_dt(func.__wrapped__, offset))
+
+
+def _move(obj: DateOffset, steps: int, dt: datetime.datetime) -> datetime.datetime:
+    # move by whole offsets, also outside the time range of :class:`pd.Timestamp`
+    offset = obj.__class__(steps, normalize=obj.normalize, **obj.kwds)
+    _wrap_apply(offset)
+    return offset.apply(dt)
+
+
 def apply_rollforward(obj):
     """
     Roll provided date forward to next offset, only if not on offset.
@@ -71,7 +86,7 @@ def apply_rollforward(obj):
             midnight = dt.replace(hour=0, minute=0, second=0, microsecond=0)
             dt = midnight + datetime.timedelta(days=1) if midnight < dt else dt
         if not obj.onOffset(dt):
-            dt = dt + obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _move(obj, 1, dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -87,7 +102,7 @@ def apply_rollback(obj):
         if not isinstance(obj, Tick):  # regular times are at midnight
             dt = dt.replace(hour=0, minute=0, second=0, microsecond=0)
         if not obj.onOffset(dt):
-            dt = dt - obj.__class__(1, normalize=obj.normalize, **obj.kwds)
+            dt = _move(obj, -1, dt)
         return as_datetime(dt)  # type: ignore # pandas doesn't have type annotations
 
     return wrapper
@@ -125,15 +140,7 @@ def to_offset(rule: str) -> DateOffset:
             "Invalid rule for offset - Business related offsets are not supported"
         )
 
-    def wrap_funcs(fname):
-        # Checks if the function has been wrapped and replace with `apply_dt` wrapper
-        func = getattr(offset, fname)
-
-        if hasattr(func, "__wrapped__"):  # pragma: no cover
-            orig_func = func.__wrapped__
-            object.__setattr__(offset, fname, apply_dt(orig_func, offset))
-
-    wrap_funcs("apply")
+    _wrap_apply(offset)
     object.__setattr__(offset, "rollforward", apply_rollforward(offset))
     object.__setattr__(offset, "rollback", apply_rollback(offset))
 
-- 
2.43.0


From 306300c673b7dd9914f87f3d51ae138eb3db3efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 23/32] fix: exogenous DICE forcing is not truncated to whole
 days

---
 openscm/adapters/dice.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/openscm/adapters/dice.py b/openscm/adapters/dice.py
index 1fbb530..2661c3d 100644
--- a/openscm/adapters/dice.py
+++ b/openscm/adapters/dice.py
@@ -338,9 +338,12 @@ class DICE(Adapter):
         ):
             forcoth = v.fex1.value
         else:
+            # (divide timedeltas first as multiplying them by floats truncates)
             forcoth = v.fex0.value + (v.fex1.value - v.fex0.value) * (
-                v.period_length.value * self._timestep
-            ) / (v.forcoth_saturation_time.value - v.start_time.value)
+                v.period_length.value
+                * self._timestep
+                / (v.forcoth_saturation_time.value - v.start_time.value)
+            )
 
         # Original: "Increase in radiative forcing (watts per m2 from 1900)"
         v.forc.values[self._timestep] = (
-- 
2.43.0


From 18393399ee2ce4ae5b3b1caaeb2bb5df5eff95e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 24/32] fix: setting metadata by index keeps the assignment of
 timeseries to values

---
 openscm/scmdataframe/base.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index d213ce4..12cc085 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -893,8 +893,9 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         Raises
         ------
         ValueError
-            No name can be determined from inputs or index cannot be coerced to
-            :class:`pd.MultiIndex`
+            No name can be determined from inputs, index cannot be coerced to
+            :class:`pd.MultiIndex`, or index contains duplicates or entries for which
+            there is no timeseries
         """
         # check that name is valid and doesn't conflict with data columns
         # mypy doesn't recognise if
@@ -923,18 +924,28 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
             raise ValueError("index cannot be coerced to pd.MultiIndex")
 
         meta = pd.Series(meta, index=index, name=name)
+        if meta.index.duplicated().any():
+            raise ValueError("index contains duplicates")
+
+        if isinstance(index, pd.MultiIndex):
+            own_index = pd.MultiIndex.from_frame(self._meta[list(index.names)])
+        elif index.name:
+            own_index = pd.Index(self._meta[index.name])
+        elif index.isin(self._meta.index).all():
+            own_index = self._meta.index
+        else:
+            own_index = pd.RangeIndex(len(self._meta))
+
+        # position in `meta` for each of the timeseries (-1 if not contained)
+        positions = meta.index.get_indexer(own_index)
+        if len(set(positions) - {-1}) != len(meta):
+            raise ValueError("index contains entries without timeseries")
 
-        df = self.meta.reset_index()
-        if all(index.names):
-            df = df.set_index(index.names)
-        self._meta = (
-            pd.merge(df, meta, left_index=True, right_index=True, how="outer")
-            .reset_index()
-            .set_index("index")
+        old = self._meta[name] if name in self._meta else [np.nan] * len(self._meta)
+        self._meta[name] = pd.Series(
+            [o if pos == -1 else meta.iloc[pos] for pos, o in zip(positions, old)],
+            index=self._meta.index,
         )
-        # Edge case of using a different index on meta
-        if "level_0" in self._meta:
-            self._meta.drop("level_0", axis=1, inplace=True)
         self._sort_meta_cols()
 
     def interpolate(  # pylint: disable=too-many-locals
-- 
2.43.0


From ab44347630522f2a5125ded38f2969b0fd88eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 25/32] fix: tables with repeated row labels make proper data
 frames

---
 openscm/scmdataframe/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 12cc085..fd7bd53 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -141,6 +141,8 @@ def _format_data(  # pylint: disable=missing-return-doc
     # reset the index if meaningful entries are included there
     if list(df.index.names) != [None]:
         df.reset_index(inplace=True)
+    else:  # the index labels the timeseries so it has to be unique
+        df.reset_index(drop=True, inplace=True)
 
     if not set(REQUIRED_COLS).issubset(set(df.columns)):
         missing = list(set(REQUIRED_COLS) - set(df.columns))
-- 
2.43.0


From 15fff1285d90283ce52fdc36fdb5dd263b6893ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 26/32] fix: keep timeseries with missing metadata of long
 tables

---
 openscm/scmdataframe/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index fd7bd53..08a8bf2 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -42,6 +42,10 @@ _logger = getLogger(__name__)
 REQUIRED_COLS: List[str] = ["model", "scenario", "region", "variable", "unit"]
 """Minimum metadata columns required by an ScmDataFrame"""
 
+# should probably solve this https://github.com/pandas-dev/pandas/issues/3729
+_NA_FILL_VALUE = -999
+"""Replaces missing metadata values while grouping as pandas would drop these"""
+
 
 # pylint doesn't recognise return statements if they include ','
 def _read_file(  # pylint: disable=missing-return-doc
@@ -172,8 +176,12 @@ def _format_long_data(df):
         raise ValueError(msg)
 
     extra_cols = list(set(cols) - set(REQUIRED_COLS + [time_col, "value"]))
-    df = df.pivot_table(columns=REQUIRED_COLS + extra_cols, index=time_col).value
-    meta = df.columns.to_frame(index=None)
+    meta_cols = REQUIRED_COLS + extra_cols
+    df[meta_cols] = df[meta_cols].fillna(_NA_FILL_VALUE)
+    df = df.pivot_table(columns=meta_cols, index=time_col).value
+    meta = df.columns.to_frame(index=None).replace(
+        to_replace=_NA_FILL_VALUE, value=np.nan
+    )
     df.columns = meta.index
 
     return df, meta
-- 
2.43.0


From 56eee6463a6769cfa18087878ccbb0694a248ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 27/32] fix: process timeseries with missing metadata, too

---
 openscm/scmdataframe/base.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 08a8bf2..d9f6111 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1224,16 +1224,27 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         cols = [cols] if isinstance(cols, str) else cols
         ts = self.timeseries()
         group_cols = list(set(ts.index.names) - set(cols))
+        ts.index = pd.MultiIndex.from_frame(ts.index.to_frame().fillna(_NA_FILL_VALUE))
         grouper = ts.groupby(group_cols)
 
         if operation == "median":
-            return grouper.median(**kwargs)
-        if operation == "mean":
-            return grouper.mean(**kwargs)
-        if operation == "quantile":
-            return grouper.quantile(**kwargs)
-
-        raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
+            res = grouper.median(**kwargs)
+        elif operation == "mean":
+            res = grouper.mean(**kwargs)
+        elif operation == "quantile":
+            res = grouper.quantile(**kwargs)
+        else:
+            raise ValueError("operation must be one of ['median', 'mean', 'quantile']")
+
+        group_index = res.index.to_frame()
+        if (group_index == _NA_FILL_VALUE).any(axis=None):
+            res = res.set_index(
+                [
+                    group_index[c].replace(to_replace=_NA_FILL_VALUE, value=np.nan)
+                    for c in group_index
+                ]
+            )
+        return res
 
     def convert_unit(
         self,
-- 
2.43.0


From 5ed3a50de417c7074e6db614f6a83da2b952be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 28/32] fix: level filters only leave out the pattern itself

---
 openscm/scmdataframe/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index 7dc98fc..d7d9870 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -99,7 +99,7 @@ def find_depth(
     regexp = str(s).replace("*", "")
 
     def apply_test(val):
-        return test(len(pipe.findall(val.replace(regexp, ""))))
+        return test(len(pipe.findall(val.replace(regexp, "", 1))))
 
     return np.array([b for b in [apply_test(m) for m in meta_col]])
 
-- 
2.43.0


From 3aad440a73a7b3e0fe67848554255b29b53f83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 29/32] fix: values relative to a reference period with missing
 metadata

---
 openscm/scmdataframe/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index d9f6111..2999ce5 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -1332,10 +1332,11 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
         ts = self.timeseries()
         # mypy confused by `inplace` default
         ref_period_mean = (
-            self.filter(**kwargs).timeseries().mean(axis="columns")  # type: ignore
+            self.filter(**kwargs)._data.mean()  # type: ignore # pylint: disable=protected-access
         )
 
-        res = ts.sub(ref_period_mean, axis="rows")
+        # by label of the timeseries as metadata may be missing
+        res = ts.sub(ref_period_mean.reindex(self._data.columns).values, axis="rows")
         res.reset_index(inplace=True)
 
         if append_str is None:
-- 
2.43.0


From 4e8007dbc2ba1c2294f771d724cd861863fb676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:41 +0000
Subject: [PATCH 30/32] fix: keep type and unit of a parameter whose
 aggregation is refused

---
 openscm/core/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openscm/core/parameters.py b/openscm/core/parameters.py
index 038e511..a897927 100644
--- a/openscm/core/parameters.py
+++ b/openscm/core/parameters.py
@@ -262,13 +262,13 @@ class _Parameter:
         if self.parameter_type is not None and self.parameter_type != parameter_type:
             raise ParameterTypeError
         if self.parameter_type is None:
+            if parameter_type == ParameterType.GENERIC and self.children:
+                raise ParameterAggregationError
             self.unit = unit
             self.parameter_type = parameter_type
             if parameter_type == ParameterType.SCALAR:
                 self.data = float("NaN")
             elif parameter_type == ParameterType.GENERIC:
-                if self.children:
-                    raise ParameterAggregationError
                 self.data = None
             else:  # parameter is a timeseries
                 self.data = np.full(
-- 
2.43.0


From 55b48c560419d638dd2dd7d40c95513a2d7d3bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 31/32] fix: element writes through held timeseries values
 start from up-to-date data

---
 openscm/core/views.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openscm/core/views.py b/openscm/core/views.py
index 1efa1f7..edf8b91 100644
--- a/openscm/core/views.py
+++ b/openscm/core/views.py
@@ -40,6 +40,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
             for i in outputs:
                 if isinstance(i, type(self)):
                     i._parameter_view._check_write()
+                    i.__read__()
             kwargs["out"] = tuple(
                 i._ndarray if isinstance(i, type(self)) else i for i in outputs
             )
@@ -112,6 +113,7 @@ class _Timeseries(ExtensionOpsMixin, NDArrayOperatorsMixin):  # type: ignore
 
     def __setitem__(self, key, val):
         self._parameter_view._check_write()
+        self.__read__()
         self._ndarray[key] = val
         self.__write__()
 
-- 
2.43.0


From 6ee960b8569963858fa1d8cb60bfe28639ff21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 32/32] fix: filters by an empty list match nothing instead of
 crashing

---
 openscm/scmdataframe/base.py    | 2 +-
 openscm/scmdataframe/filters.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/openscm/scmdataframe/base.py b/openscm/scmdataframe/base.py
index 2999ce5..3c7cab7 100644
--- a/openscm/scmdataframe/base.py
+++ b/openscm/scmdataframe/base.py
@@ -780,7 +780,7 @@ class ScmDataFrameBase:  # pylint: disable=too-many-public-methods
     def _day_match(self, values):
         if isinstance(values, str):
             wday = True
-        elif isinstance(values, list) and isinstance(values[0], str):
+        elif isinstance(values, list) and values and isinstance(values[0], str):
             wday = True
         else:
             wday = False
diff --git a/openscm/scmdataframe/filters.py b/openscm/scmdataframe/filters.py
index d7d9870..c100eb2 100644
--- a/openscm/scmdataframe/filters.py
+++ b/openscm/scmdataframe/filters.py
@@ -151,7 +151,7 @@ def pattern_match(  # pylint: disable=too-many-arguments,too-many-locals
         Filtering is performed on a string metadata column which contains
         :class:`np.nan` and :obj:`has_nan` is ``False``
     """
-    matches = np.array([False] * len(meta_col))
+    matches = pd.Series(False, index=meta_col.index)
     _values = (
         [values]
         if not isinstance(values, Iterable) or isinstance(values, str)
@@ -359,7 +359,7 @@ def time_match(
             raise ValueError(error_msg)
         return res
 
-    if isinstance(times_list[0], str):
+    if len(times_list) > 0 and isinstance(times_list[0], str):
         single_times = []
         to_append = []  # type: List
         for timeset in times_list:
-- 
2.43.0

