From 0aaa7ad5ee20c5ace3c898c1213e12e4953aaabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 01/27] fix: linear alpha/beta no longer truncate to zero for
 integer temperature

---
 src/momlevel/eos/linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/eos/linear.py b/src/momlevel/eos/linear.py
index 300ae72..bdad54a 100644
--- a/src/momlevel/eos/linear.py
+++ b/src/momlevel/eos/linear.py
@@ -8,8 +8,6 @@ __all__ = [
     "beta",
 ]
 
-import numpy as np
-
 # In a linear equation of state, the density derivatives are typically not
 # calculated and are fixed parameters.
 
@@ -133,7 +131,7 @@ def alpha(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return -1.0 * (np.full_like(T, fill_value=DRHO_DT) / density(T, S, p))
+    return -1.0 * (DRHO_DT / density(T, S, p))
 
 
 def beta(T, S, p):
@@ -159,4 +157,4 @@ def beta(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return np.full_like(T, fill_value=DRHO_DS) / density(T, S, p)
+    return DRHO_DS / density(T, S, p)
-- 
2.43.0


From d4845dd7f51d5d00b8d0dad55d24b27d11bffbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 02/27] fix: pass zcoord on to adjust_negative_n2 in calc_n2
 and calc_wave_speed

---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 67b61b9..9d90fb9 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -406,7 +406,7 @@ def calc_n2(
         "units": "s-2",
     }
 
-    n2 = adjust_negative_n2(n2) if adjust_negative else n2
+    n2 = adjust_negative_n2(n2, zcoord=zcoord) if adjust_negative else n2
 
     return n2
 
@@ -817,7 +817,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
         in units of m s-1
     """
 
-    result = (np.sqrt(adjust_negative_n2(n2)) * dz).sum(zcoord) / np.pi
+    result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
     result = xr.where(n2[0].isnull(), np.nan, result)
 
     result.attrs = {
-- 
2.43.0


From 3d58b5fd7948966207058c6779e4908588044dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 03/27] fix: keep singleton z/y/x dimensions in the reference
 state

---
 src/momlevel/reference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/reference.py b/src/momlevel/reference.py
index ea44af3..53e89f2 100644
--- a/src/momlevel/reference.py
+++ b/src/momlevel/reference.py
@@ -56,15 +56,15 @@ def setup_reference_state(
     # initialize reference dataset
     reference = xr.Dataset()
 
-    # extract requested time level and squeeze the arrays
+    # extract requested time level
     reference["thetao"] = (
-        dset["thetao"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["thetao"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
     reference["so"] = (
-        dset["so"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["so"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
     reference["volcello"] = (
-        dset["volcello"].isel({tcoord: time_index}).squeeze().reset_coords(drop=True)
+        dset["volcello"].isel({tcoord: time_index}).reset_coords(drop=True)
     )
 
     # calculate in situ reference density
-- 
2.43.0


From 164ef4400649d676fb01f6c10d5f84f3b5062a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 04/27] fix: honour the time coordinate name in annual_average
 and steric(annual=True)

---
 src/momlevel/steric.py | 2 +-
 src/momlevel/util.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index abe23cb..6deee08 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -179,7 +179,7 @@ def steric(
             result[var].attrs = dset[var].attrs
 
     if annual:
-        result = annual_average(result)
+        result = annual_average(result, tcoord=tcoord)
 
     return (result, reference)
 
diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 1b56c6a..8b3afee 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -87,8 +87,8 @@ def annual_average(xobj, tcoord="time"):
             groups[grp].weighted(groups[grp][tcoord].dt.days_in_month).mean(tcoord)
         )
 
-    result = xr.concat(_annuals, dim="time")
-    result = result.transpose("time", ...)
+    result = xr.concat(_annuals, dim=tcoord)
+    result = result.transpose(tcoord, ...)
 
     def _find_ann_midpoint(year, calendar=calendar):
         """finds the midpoint of the year along the time dimension"""
@@ -102,7 +102,7 @@ def annual_average(xobj, tcoord="time"):
         for x in dict(groups).keys()
     ]
 
-    result = result.assign_coords({"time": new_time_axis})
+    result = result.assign_coords({tcoord: new_time_axis})
 
     if isinstance(xobj, xr.core.dataset.Dataset):
         for var in list(result.variables):
-- 
2.43.0


From 0f92104452ea42da09e6764d897fcf653582e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 05/27] fix: keep the requested output dtype encoding in
 steric(annual=True)

---
 src/momlevel/steric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 6deee08..273d700 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -180,6 +180,8 @@ def steric(
 
     if annual:
         result = annual_average(result, tcoord=tcoord)
+        for var in result.data_vars:
+            result[var].encoding["dtype"] = dtype
 
     return (result, reference)
 
-- 
2.43.0


From bc184a61a30bd75046c2d31ac954744ff20c5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 06/27] fix: reject reference datasets that carry a time
 coordinate

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 8b3afee..29b1ca8 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -727,7 +727,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
     if reference:
         try:
             assert "time" not in [
-                x.lower for x in list(dset.coords)
+                x.lower() for x in list(dset.coords)
             ], "Reference dataset cannot contain a time coordinate"
         except AssertionError as e:
             exceptions.append(e)
-- 
2.43.0


From 8935be79e819d02b8f47ed74b9eb93910d3d2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:08 +0000
Subject: [PATCH 07/27] fix: honour loc_coords when recording real_coords in
 geolocate_points

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 29b1ca8..ca8faab 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -361,8 +361,8 @@ def geolocate_points(
     df2["dim_vals"] = list(df1.index)
 
     # Clean up coordinates
-    df2["real_coords"] = list(zip(df2["lat"].values, df2["lon"].values))
-    df2 = df2.drop(["yrad", "xrad", "lat", "lon"], axis=1)
+    df2["real_coords"] = list(zip(df2[ycoord2].values, df2[xcoord2].values))
+    df2 = df2.drop(["yrad", "xrad", ycoord2, xcoord2], axis=1)
 
     return df2
 
-- 
2.43.0


From 12634037f7e2d53dd70f6196d544f5e8f1cc2a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 08/27] fix: mod_index refers to the full model dataframe, also
 when a mask is applied

---
 src/momlevel/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index ca8faab..0fa705e 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -323,7 +323,12 @@ def geolocate_points(
     df1 = df_model.copy()
     df2 = df_locs.copy()
 
+    # Row positions in `df_model` of the points that are searched
+    positions = np.arange(len(df1))
+
     if apply_mask:
+        if "mask" in df1.columns:
+            positions = positions[(df1["mask"] == 1.0).values]
         df1 = df1[df1["mask"] == 1.0] if "mask" in df1.columns else df1
 
     # Remove any duplicate coordinates from the model's dataframe
@@ -359,6 +364,7 @@ def geolocate_points(
     df1 = df1.iloc[df2["mod_index"].values]
     df2["model_coords"] = list(zip(df1[ycoord1].values, df1[xcoord1].values))
     df2["dim_vals"] = list(df1.index)
+    df2["mod_index"] = positions[df2["mod_index"].values]
 
     # Clean up coordinates
     df2["real_coords"] = list(zip(df2[ycoord2].values, df2[xcoord2].values))
-- 
2.43.0


From 351d6314b82aa04fc84a6d261e2bbb0549c8b98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 09/27] fix: do not mix up grid points when coordinate or mask
 dimension orders differ

---
 src/momlevel/tidegauge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/momlevel/tidegauge.py b/src/momlevel/tidegauge.py
index 3aec20e..ebf0d90 100644
--- a/src/momlevel/tidegauge.py
+++ b/src/momlevel/tidegauge.py
@@ -102,11 +102,12 @@ def extract_tidegauge(
 
     # Check that dimensions are the same for x/y coords
     _xdims = tuple(_xcoord.dims)
-    _ydims = tuple(_xcoord.dims)
+    _ydims = tuple(_ycoord.dims)
     assert _xdims == _ydims
 
     # Make sure mask does not have missing values
     mask = mask.fillna(0.0) if mask is not None else xr.ones_like(_xcoord)
+    mask = mask.transpose(*_xdims)
     if mask.name != "mask":
         mask = mask.rename("mask")
 
-- 
2.43.0


From 2552fd77702967b65665cdc6597dee58097c3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 10/27] fix: broadcast_trend(subtract_time_zero=True) works for
 any dimension name

---
 src/momlevel/trend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 779af5d..03437d3 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -106,8 +106,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Subtract first time step if asked to
     if subtract_time_zero:
-        tdim = "time"
-        result = result - result.isel({tdim: 0})
+        result = result - result.isel({dim_name: 0})
 
     return result
 
-- 
2.43.0


From 2edb6590cbc3ae693f82ba835a0f3432495b6c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 11/27] fix: linear_detrend works for variables whose units
 contain an inverse (e.g. m s-1)

---
 src/momlevel/trend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 03437d3..7e41dca 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -185,7 +185,9 @@ def _detrend_array(arr, dim="time", order=1, mode="remove"):
     slope = ds_trend[f"{varname}_slope"]
     intercept = ds_trend[f"{varname}_intercept"]
 
-    # construct the fitted line
+    # construct the fitted line; the slope is always per nanosecond here, whatever
+    # inverse units the variable itself has (e.g. m s-1)
+    slope = slope.assign_attrs({"units": "ns-1"})
     fit_x = broadcast_trend(slope, arr[dim])
 
     if mode not in ["remove", "correct"]:
-- 
2.43.0


From 6da56cf99e7a8218d4d172dfb2a7f40b1b5b0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 12/27] fix: trend time unit conversion is applied to
 datetime64 time axes too

---
 src/momlevel/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 7e41dca..76296ec 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -3,6 +3,7 @@
 import warnings
 import cftime
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 from xarray.core.missing import get_clean_interp_index
@@ -56,7 +57,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Determine if we have time trend. If so, check the units and convert
     # to nanoseconds if necessary
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(dim_arr.indexes[dim_name], x) for x in time_indexes]):
         # Flag to throw default behavior warning
         warn_time_units = False
@@ -267,7 +268,7 @@ def calc_linear_trend(arr, dim="time", time_units=None):
     intercept = intercept.rename(f"{varname}_intercept")
 
     # determine slope units
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(arr.indexes[dim], x) for x in time_indexes]):
         time_units = "ns" if time_units is None else time_units
 
-- 
2.43.0


From 6ecce1ed29c382a77e7d798d86dc1db9ba9e7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 13/27] fix: seasonal_model honours tcoord

---
 src/momlevel/trend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 76296ec..89e8388 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -415,19 +415,19 @@ def seasonal_model(da_timeseries, tcoord="time", return_model=False):
 
     model_da = xr.DataArray(
         model,
-        dims=["coeff", "time"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=["coeff", tcoord],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     model_da = model_da.expand_dims(dim=hashable_coords)
 
     pmodel_da = xr.DataArray(
         pmodel,
-        dims=["time", "coeff"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=[tcoord, "coeff"],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     pmodel_da = pmodel_da.expand_dims(dim=hashable_coords)
 
-    mcoeff = pmodel_da.dot(da_timeseries, dims="time")
+    mcoeff = pmodel_da.dot(da_timeseries, dims=tcoord)
 
     smodel = model_da.dot(mcoeff, dims="coeff")
     residuals = da_timeseries - smodel
-- 
2.43.0


From b5357d1788a1296432aab0d52fee67133d89ebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 14/27] fix: deseason honours tdim

---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 89e8388..23cef5c 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -775,7 +775,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         [
             366 if x is True else 365
             for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr.time.values)
+                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
             ]
         ]
     )
@@ -824,7 +824,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         result = result.assign_coords(coeff=coeff_coords)
         result = result.transpose("coeff", ...)
     else:
-        result = result.transpose("time", ...)
+        result = result.transpose(tdim, ...)
 
     # Calculate if original input array was not a dask array
     if keep_lazy is False:
-- 
2.43.0


From ecbdd4e9967343ae6314a54500e01ae11df7b459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 15/27] fix: deseason(output_format='coeff') works for a single
 time series

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 23cef5c..fed5ab8 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -599,7 +599,7 @@ def _detrend_deseason_chunk(chunk, axis=-1, daysinyear=365, output_format="resid
     if output_format == "coeff":
         # Reshape the chunk to 2D: (spatial_points, time)
         original_shape = chunk.shape
-        n_spatial_points = np.prod(original_shape[:-1])
+        n_spatial_points = int(np.prod(original_shape[:-1]))
         chunk_2d = chunk.reshape(n_spatial_points, original_shape[-1])
 
         # Apply the function to each spatial point
-- 
2.43.0


From 67ef42b417f19dcf3132ccf1acab2c5f8602c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 16/27] fix: deseason no longer modifies the attributes of its
 input

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index fed5ab8..1844cdf 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -744,7 +744,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
     assert isinstance(arr, xr.DataArray), "Input must be an xarray DataArray"
 
     # store array attributes for reassignment at the end
-    attrs = arr.attrs
+    attrs = dict(arr.attrs)
 
     # check that the specified time dimension exists
     core_dims = list(arr.dims)
-- 
2.43.0


From 9751a15450644410cd8b9332840d5247c4548edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:50 +0000
Subject: [PATCH 17/27] fix: deseason uses decimal years on leap-year and
 360-day calendars

---
 src/momlevel/trend.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 1844cdf..14fcc2e 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -500,10 +500,11 @@ def seasonal_cycle_model(ts, daysinyear=365.0, tdim="time"):
     """
 
     time_length = ts.shape[0]
-    if isinstance(daysinyear, float) or isinstance(daysinyear, int):
-        time_dec = np.arange(time_length) / 365.0
-    else:
+    if np.ndim(daysinyear) == 0:
         time_dec = np.arange(time_length) / daysinyear
+    else:
+        # accumulate the year fraction day by day, as the length of the year varies
+        time_dec = np.cumsum(1.0 / daysinyear) - 1.0 / daysinyear[0]
 
     assert len(ts) == len(
         time_dec
@@ -773,10 +774,9 @@ def deseason(arr, tdim="time", output_format="residuals"):
     # determine an array of the days in a year
     daysinyear = np.array(
         [
-            366 if x is True else 365
-            for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
-            ]
+            360 if x.calendar == "360_day"
+            else 366 if cftime.is_leap_year(x.year, x.calendar) else 365
+            for x in list(arr[tdim].values)
         ]
     )
 
-- 
2.43.0


From 6e9a1bba6235b9927e709dad3562fb7318fdf5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:07 +0000
Subject: [PATCH 18/27] fix: annual_average skips string and datetime variables
 instead of failing

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 0fa705e..85312a6 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -73,7 +73,7 @@ def annual_average(xobj, tcoord="time"):
         variables = set(xobj.variables) - dim_coords
         _xobj = xr.Dataset()
         for var in variables:
-            if xobj[var].dtype not in ["object", "timedelta64[ns]"]:
+            if xobj[var].dtype.kind in "biufc":
                 _xobj[var] = xobj[var]
     else:
         _xobj = xobj
-- 
2.43.0


From f119893a545839e6d285b8a1c7e8d71ca5d228c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:07 +0000
Subject: [PATCH 19/27] fix: generate_time_stub accepts start years before 1000

---
 src/momlevel/test_data/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/test_data/time.py b/src/momlevel/test_data/time.py
index 248189c..d6fe2b8 100644
--- a/src/momlevel/test_data/time.py
+++ b/src/momlevel/test_data/time.py
@@ -65,7 +65,7 @@ def generate_time_stub(start_year=1981, nyears=5, calendar="noleap", frequency="
 
     if frequency == "MS":
         bounds = xr.cftime_range(
-            f"{start_year}-01-01",
+            f"{str(start_year).zfill(4)}-01-01",
             freq=frequency,
             periods=(nyears * 12) + 1,
             calendar=calendar,
@@ -74,7 +74,7 @@ def generate_time_stub(start_year=1981, nyears=5, calendar="noleap", frequency="
 
     elif frequency == "D":
         bounds = xr.cftime_range(
-            f"{start_year}-01-01",
+            f"{str(start_year).zfill(4)}-01-01",
             freq=frequency,
             periods=(nyears * 366) + 1,
             calendar=calendar,
-- 
2.43.0


From 4c1a1af851a4587340d76ff874a404aa860a527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:07 +0000
Subject: [PATCH 20/27] fix: monthly_average handles records with incomplete
 years

---
 src/momlevel/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 85312a6..438a57c 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -507,6 +507,9 @@ def monthly_average(xobj, tcoord="time"):
             for x in range(0, len(bounds) - 1)
         ]
 
+        # the first and last year may be incomplete
+        bounds = [bounds[month - 1] for month in _ds["month"].values]
+
         _ds = _ds.rename({"month": tcoord})
         _ds = _ds.assign_coords({tcoord: bounds})
         record.append(_ds)
-- 
2.43.0


From a908b54355ec40f8851f1532bd12c3feea6e6a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:19 +0000
Subject: [PATCH 21/27] fix: calculations no longer strip the attributes of the
 input's coordinates

With keep_attrs unset, xarray's apply_ufunc/where drop the attributes of the
coordinates in place, i.e. on the caller's arrays, and steric lost the
coordinate attributes it means to copy to its result.
---
 src/momlevel/derived.py | 8 ++++++--
 src/momlevel/steric.py  | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 9d90fb9..ce46909 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -56,7 +56,7 @@ def adjust_negative_n2(n2, zcoord="z_l"):
     attrs = n2.attrs
 
     # mask out negative values of N2
-    adjusted = xr.where(n2 <= 0.0, np.nan, n2)
+    adjusted = xr.where(n2 <= 0.0, np.nan, n2, keep_attrs="override")
 
     # set negative surface values of N^2 to 1.e-8
     adjusted[0] = adjusted[0].fillna(1.0e-8)
@@ -104,6 +104,7 @@ def calc_alpha(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs="override",
     )
 
     alpha.attrs = {
@@ -148,6 +149,7 @@ def calc_beta(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs="override",
     )
 
     beta.attrs = {
@@ -627,6 +629,7 @@ def calc_rho(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs="override",
     )
 
     rho.attrs = {
@@ -700,6 +703,7 @@ def calc_spice(thetao, so):
         thetao,
         so,
         dask="allowed",
+        keep_attrs="override",
     )
 
     pi.attrs = {
@@ -818,7 +822,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
     """
 
     result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
-    result = xr.where(n2[0].isnull(), np.nan, result)
+    result = xr.where(n2[0].isnull(), np.nan, result, keep_attrs="override")
 
     result.attrs = {
         "long name": "Ocean gravity wave speed of the first baroclinic mode",
diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 273d700..045546d 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -149,7 +149,10 @@ def steric(
     # otherwise calculate the change in density relative to the reference
     else:
         delta_rho = xr.where(
-            reference["volcello"].notnull(), rho - reference["rho"], np.nan
+            reference["volcello"].notnull(),
+            rho - reference["rho"],
+            np.nan,
+            keep_attrs="override",
         )
         delta_rho = delta_rho.transpose(tcoord, ...)
         delta_rho.attrs = {
-- 
2.43.0


From de8420a30b9d3a465d6c735b76c2e845d23c97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 22/27] fix: geolocate_points(disable_warning=False) works
 without a threshold

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 438a57c..f3e29c2 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -347,7 +347,7 @@ def geolocate_points(
     df2["distance"], df2["mod_index"] = ball.query(df2[["yrad", "xrad"]].values, k=1)
     df2["distance"] = df2["distance"] * rad_earth
 
-    if not disable_warning:
+    if not disable_warning and threshold is not None:
         df_missing = df2[df2["distance"] >= threshold]
         if len(df_missing) > 0:
             for _, row in df_missing.iterrows():
-- 
2.43.0


From 2e0f7700212fcca277a6a35542c04cc084ee12e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:33 +0000
Subject: [PATCH 23/27] Revert "fix: geolocate_points(disable_warning=False)
 works without a threshold"

With the pinned pandas a comparison with None is False for every row, so
nothing was wrong.
---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index f3e29c2..438a57c 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -347,7 +347,7 @@ def geolocate_points(
     df2["distance"], df2["mod_index"] = ball.query(df2[["yrad", "xrad"]].values, k=1)
     df2["distance"] = df2["distance"] * rad_earth
 
-    if not disable_warning and threshold is not None:
+    if not disable_warning:
         df_missing = df2[df2["distance"] >= threshold]
         if len(df_missing) > 0:
             for _, row in df_missing.iterrows():
-- 
2.43.0


From 75638066ab519af42b0bce92e94693c96419e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:56 +0000
Subject: [PATCH 24/27] Revert "fix: generate_time_stub accepts start years
 before 1000"

The file counts as test data, which stays as it is.
---
 src/momlevel/test_data/time.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/test_data/time.py b/src/momlevel/test_data/time.py
index d6fe2b8..248189c 100644
--- a/src/momlevel/test_data/time.py
+++ b/src/momlevel/test_data/time.py
@@ -65,7 +65,7 @@ def generate_time_stub(start_year=1981, nyears=5, calendar="noleap", frequency="
 
     if frequency == "MS":
         bounds = xr.cftime_range(
-            f"{str(start_year).zfill(4)}-01-01",
+            f"{start_year}-01-01",
             freq=frequency,
             periods=(nyears * 12) + 1,
             calendar=calendar,
@@ -74,7 +74,7 @@ def generate_time_stub(start_year=1981, nyears=5, calendar="noleap", frequency="
 
     elif frequency == "D":
         bounds = xr.cftime_range(
-            f"{str(start_year).zfill(4)}-01-01",
+            f"{start_year}-01-01",
             freq=frequency,
             periods=(nyears * 366) + 1,
             calendar=calendar,
-- 
2.43.0


From 06b9ba3b835b619ed855310e5f5e0d67886553e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:56 +0000
Subject: [PATCH 25/27] fix: deseason of dask arrays declares the type its
 results have

---
 src/momlevel/trend.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 14fcc2e..bc66b35 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -661,12 +661,15 @@ def _detrend_deseason_lazy(arr, daysinyear=365, output_format="residuals"):
     nchunks = len(arr.chunks)
     depth = {nchunks - 1: 0}
 
+    # the fit is made in double precision, whatever the type of the input
+    dtype = np.result_type(arr.dtype, np.float64)
+
     # For coefficients, we need to adjust the output chunks
     if output_format == "coeff":
         # The output will have 6 coefficients instead of the time dimension
         new_chunks = list(arr.chunks[:-1])  # All chunks except time
         new_chunks.append((6,))  # Add chunk for coefficients
-        meta = np.array([], dtype=arr.dtype)
+        meta = np.array([], dtype=dtype)
     else:
         new_chunks = arr.chunks
         meta = None
@@ -675,7 +678,7 @@ def _detrend_deseason_lazy(arr, daysinyear=365, output_format="residuals"):
         _detrend_deseason_chunk,
         depth=depth,
         boundary="none",
-        dtype=arr.dtype,
+        dtype=dtype,
         chunks=new_chunks,
         meta=meta,
         daysinyear=daysinyear,
-- 
2.43.0


From 946dc1431e80afbe5230da7933bc876485cbd2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:04 +0000
Subject: [PATCH 26/27] fix: calc_stability_angle is defined where the
 temperature gradient is zero

The density ratio is infinite there and (1 + R) / (1 - R) was NaN although its
limit, and thereby the Turner angle, is well defined (-45 degrees). Use the
ratio of the sum to the difference of the two contributions instead.
---
 src/momlevel/derived.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index ce46909..c997bc6 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -755,10 +755,12 @@ def calc_stability_angle(thetao, so, pres, eos="Wright", zcoord="z_l"):
     dtdz = thetao.differentiate(zcoord, edge_order=2)
     dsdz = so.differentiate(zcoord, edge_order=2)
 
-    # calculate the density ratio
-    R_rho = (beta * dsdz) / (alpha * dtdz)
+    # calculate the contributions to the stratification; their sum over their
+    # difference is (1 + R_rho) / (1 - R_rho), defined where dtdz is zero as well
+    strat_t = alpha * dtdz
+    strat_s = beta * dsdz
 
-    result = np.degrees(np.arctan((1 + R_rho) / (1 - R_rho)))
+    result = np.degrees(np.arctan((strat_t + strat_s) / (strat_t - strat_s)))
 
     result = result.rename("tu_angle")
 
-- 
2.43.0


From bdf5115268a36844f0027b7268a9baeba063c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:32 +0000
Subject: [PATCH 27/27] fix: validate_dataset names rho when the rank of rho is
 wrong

---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 438a57c..dce989f 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -806,7 +806,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
             try:
                 assert (
                     len(dset["rho"].dims) == 3
-                ), "Variable areacello must have exactly 3 dimensions (z,y,x)"
+                ), "Variable rho must have exactly 3 dimensions (z,y,x)"
             except AssertionError as e:
                 exceptions.append(e)
 
-- 
2.43.0

