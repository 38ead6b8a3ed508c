From b77950d17b195c12ae8eb2bc53859ea1cc7d25fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 01/24] fix: evaluate at the requested points in the requested
 order

get_eval_case sorted the x-values when it undid the flattening scipy does,
so pdf(), cdf(), ppf() and sf() of an ensemble at x-values that are not in
increasing order returned the values of the sorted x-values, and isf(),
which always asks for the ppf() at decreasing values, was always wrong.
---
 src/qp/utils.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9fe99bb..b92c863 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -204,13 +204,19 @@ def get_eval_case(x, row):
         return CASE_PRODUCT, x, row
     if np.size(x) == 1 or np.size(row) == 1:
         return CASE_FLAT, x, row
-    xx = np.unique(x)
-    rr = np.unique(row)
-    if np.size(xx) == np.size(x):
-        xx = x
-    if np.size(rr) == np.size(row):
-        rr = row
-    if np.size(xx) * np.size(rr) != np.size(x):
+    n_x = np.size(np.unique(x))
+    n_row = np.size(np.unique(row))
+    if n_x * n_row != np.size(x):
+        return CASE_FLAT, x, row
+    # The values only factor if every row is evaluated at the same x-values
+    # in the same order, which need not be the sorted order
+    xx = x[:n_x]
+    if not np.array_equal(np.tile(xx, n_row), x):
+        return CASE_FLAT, x, row
+    if np.size(row) == n_row:
+        return CASE_FACTOR, xx, np.expand_dims(row, -1)
+    rr = row[::n_x]
+    if not np.array_equal(np.repeat(rr, n_x), row):
         return CASE_FLAT, x, row
     return CASE_FACTOR, xx, np.expand_dims(rr, -1)
 
-- 
2.43.0


From fadb3688d1ae5f787f798349d1b38d0da5b6370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 02/24] fix: quant pdf() returned the first row's values for
 every row

The cdf_spline_derivative and dual_spline_average constructors evaluate every
requested row on every requested x-value, while scipy asks quant_gen._pdf for
one value per flattened (x, row) pair; of the result scipy then only used the
part that belongs to the first row.
---
 src/qp/quant_pdf.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index fa80ef3..0d5b673 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -212,8 +212,19 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         # can be bad, but not all. It should be replaced with a more comprehensive
         # normalization function.
         # See qp issue #147
-        row = args[0]
-        return self._pdf_constructor.construct_pdf(x, row)
+        x, row = np.broadcast_arrays(x, args[0])
+        shape = x.shape
+        x, row = x.ravel(), row.ravel()
+        # scipy asks for one value per (x, row) pair, but some of the constructors
+        # evaluate every requested row at every x-value, so go row by row.
+        pdf_vals = np.empty(x.shape)
+        order = np.argsort(row, kind="stable")
+        rows, first = np.unique(row[order], return_index=True)
+        for irow, idx in zip(rows, np.split(order, first[1:])):
+            pdf_vals[idx] = np.ravel(
+                self._pdf_constructor.construct_pdf(x[idx], np.array([irow]))
+            )
+        return pdf_vals.reshape(shape)
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From 31eba46f77415d1b793a2ef65e3a393a8be7ed2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 03/24] fix: publish lazily built tables only once they are
 complete

An evaluation that was interrupted (KeyboardInterrupt, MemoryError) while it
built the table, or a second thread that looked while the first one was still
filling it, made every later evaluation silently use uninitialised memory or
a half-built table.
---
 src/qp/hist_pdf.py                              |  8 +++++---
 src/qp/interp_pdf.py                            | 16 ++++++++++------
 src/qp/packed_interp_pdf.py                     |  8 +++++---
 .../dual_spline_average.py                      | 17 +++++++++--------
 .../piecewise_constant.py                       | 11 +++++++----
 .../piecewise_linear.py                         |  5 ++++-
 6 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 3195609..2ae585b 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -90,9 +90,11 @@ class hist_gen(Pdf_rows_gen):
     def _compute_cdfs(self):
         copy_shape = np.array(self._hpdfs.shape)
         copy_shape[-1] += 1
-        self._hcdfs = np.ndarray(copy_shape)
-        self._hcdfs[:, 0] = 0.0
-        self._hcdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
+        hcdfs = np.ndarray(copy_shape)
+        hcdfs[:, 0] = 0.0
+        hcdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
+        # only publish the table once it is filled
+        self._hcdfs = hcdfs
 
     @property
     def bins(self):
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 60025d1..f455b9f 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -96,14 +96,16 @@ class interp_gen(Pdf_rows_gen):
 
     def _compute_ycumul(self):
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
+        ycumul[:, 1:] = np.cumsum(
             (self._xvals[1:] - self._xvals[:-1])
             * 0.5
             * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
+        # only publish the table once it is filled
+        self._ycumul = ycumul
 
     @property
     def xvals(self):
@@ -288,13 +290,15 @@ class interp_irregular_gen(Pdf_rows_gen):
 
     def _compute_ycumul(self):
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.0
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.0
+        ycumul[:, 1:] = np.cumsum(
             self._xvals[:, 1:] * self._yvals[:, 1:]
             - self._xvals[:, :-1] * self._yvals[:, 1:],
             axis=1,
         )
+        # only publish the table once it is filled
+        self._ycumul = ycumul
 
     @property
     def xvals(self):
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 376c584..c4945ae 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -125,14 +125,16 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         if self._yvals is None:
             self._unpack()
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
+        ycumul[:, 1:] = np.cumsum(
             (self._xvals[1:] - self._xvals[:-1])
             * 0.5
             * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
+        # only publish the table once it is filled
+        self._ycumul = ycumul
 
     def _unpack(self):
         self._yvals = unpack_array(
diff --git a/src/qp/quantile_pdf_constructors/dual_spline_average.py b/src/qp/quantile_pdf_constructors/dual_spline_average.py
index 1431ae3..846aceb 100644
--- a/src/qp/quantile_pdf_constructors/dual_spline_average.py
+++ b/src/qp/quantile_pdf_constructors/dual_spline_average.py
@@ -59,7 +59,7 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         """
 
         # Prepare an empty container for the output
-        self._p_of_zs = np.zeros(self._locations.shape)
+        p_of_zs = np.zeros(self._locations.shape)
 
         # Prepare an all-zero list, used in the step-wise calculation to prevent negative values
         zeros_for_comparison = np.zeros(self._locations.shape[0])
@@ -68,11 +68,11 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         first_term = 2 * np.diff(self._quantiles) / np.diff(self._locations)
 
         # Perform the step-wise calculation for all distributions simultaneously
-        for i in range(1, np.shape(self._p_of_zs)[-1]):
-            self._p_of_zs[:,i] = np.maximum(zeros_for_comparison, first_term[:,i-1] - self._p_of_zs[:,i-1])
+        for i in range(1, np.shape(p_of_zs)[-1]):
+            p_of_zs[:,i] = np.maximum(zeros_for_comparison, first_term[:,i-1] - p_of_zs[:,i-1])
 
-        # Set any negative values to 0.
-        self._p_of_zs = np.maximum(np.zeros(self._locations.shape), self._p_of_zs)
+        # Set any negative values to 0. Only publish the values once they are complete.
+        self._p_of_zs = np.maximum(np.zeros(self._locations.shape), p_of_zs)
 
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """This method utilizes intermediate calculations from `prepare_constructor`
@@ -130,11 +130,12 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         )
 
         # Evaluate all the splines at the input grid values
-        self.y1 = np.asarray([func_1(grid) for func_1 in f1])
-        self.y2 = np.asarray([func_2(grid) for func_2 in f2])
+        y1 = np.asarray([func_1(grid) for func_1 in f1])
+        y2 = np.asarray([func_2(grid) for func_2 in f2])
+        self.y1, self.y2 = y1, y2
 
         # Return the average of the spline values at each of the evaluated points.
-        return (self.y1 + self.y2) / 2
+        return (y1 + y2) / 2
 
     def debug(self):
         """This is a debugging utility that is meant to return intermediate calculation values
diff --git a/src/qp/quantile_pdf_constructors/piecewise_constant.py b/src/qp/quantile_pdf_constructors/piecewise_constant.py
index 9b85dc2..bfa21c2 100644
--- a/src/qp/quantile_pdf_constructors/piecewise_constant.py
+++ b/src/qp/quantile_pdf_constructors/piecewise_constant.py
@@ -35,18 +35,21 @@ class PiecewiseConstant(AbstractQuantilePdfConstructor):
         not a central derivative.
         """
 
-        self._cdf_derivatives = np.zeros(self._locations.shape)
-        self._cdf_2nd_derivatives = np.zeros(self._locations.shape)
+        cdf_derivatives = np.zeros(self._locations.shape)
+        cdf_2nd_derivatives = np.zeros(self._locations.shape)
 
-        self._cdf_derivatives[:,0:-1] = (self._quantiles[1:] - self._quantiles[0:-1])/\
+        cdf_derivatives[:,0:-1] = (self._quantiles[1:] - self._quantiles[0:-1])/\
           (self._locations[:,1:] - self._locations[:,0:-1])
-        self._cdf_2nd_derivatives[:,0:-1] = self._cdf_derivatives[:,1:]  - self._cdf_derivatives[:,0:-1]
+        cdf_2nd_derivatives[:,0:-1] = cdf_derivatives[:,1:]  - cdf_derivatives[:,0:-1]
 
         # Offset the locations by -(l_[i+1] - l_i) / 2. So that the cdf_deriv can be correctly located.
         # This offset is necessary to correctly place the _cdf_derivs because we are using a
         # forward difference to calculate the numerical derivative.
+        self._cdf_2nd_derivatives = cdf_2nd_derivatives
         self._adjusted_locations = self._locations[:,1:]-np.diff(self._locations)/2
 
+        # Set this last: construct_pdf takes it to mean that everything has been prepared.
+        self._cdf_derivatives = cdf_derivatives
 
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """Take the intermediate calculations and return the interpolated y values
diff --git a/src/qp/quantile_pdf_constructors/piecewise_linear.py b/src/qp/quantile_pdf_constructors/piecewise_linear.py
index 45421a6..5c7d7f4 100644
--- a/src/qp/quantile_pdf_constructors/piecewise_linear.py
+++ b/src/qp/quantile_pdf_constructors/piecewise_linear.py
@@ -34,7 +34,7 @@ class PiecewiseLinear(AbstractQuantilePdfConstructor):
         not a central derivative.
         """
         # calculate the first derivative using a forward difference.
-        self._cdf_derivatives = (self._quantiles[1:] - self._quantiles[0:-1])/\
+        cdf_derivatives = (self._quantiles[1:] - self._quantiles[0:-1])/\
           (self._locations[:,1:] - self._locations[:,0:-1])
 
         # Offset the locations by -(l_[i+1] - l_i) / 2. So that the cdf_deriv can be correctly located.
@@ -42,6 +42,9 @@ class PiecewiseLinear(AbstractQuantilePdfConstructor):
         # forward difference to calculate the numerical derivative.
         self._adjusted_locations = self._locations[:,1:]-np.diff(self._locations)/2
 
+        # Set this last: construct_pdf takes it to mean that everything has been prepared.
+        self._cdf_derivatives = cdf_derivatives
+
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """Take the intermediate calculations and return the interpolated y values
         given the input grid.
-- 
2.43.0


From a6772805e8bc606196113e5e8c0447d92f375d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 04/24] fix: gridded() returned values for another grid

The cached grid was the caller's own array, so changing that array in place
and asking again returned the values on the old grid; and with two threads
asking for different grids one could be handed the other's values.
---
 src/qp/ensemble.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a3e4bba..3640341 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -337,9 +337,13 @@ class Ensemble:
         This first comparse grid to the cached value, if they match it returns
         the cached value
         """
-        if self._gridded is None or not np.array_equal(self._gridded[0], grid):
-            self._gridded = (grid, self.pdf(grid))
-        return self._gridded
+        # Work on a local reference, another thread may replace the cached value, and
+        # keep a copy of the grid, the caller may go on to change theirs in place.
+        gridded = self._gridded
+        if gridded is None or not np.array_equal(gridded[0], grid):
+            gridded = (np.array(grid), self.pdf(grid))
+            self._gridded = gridded
+        return gridded
 
     def write_to(self, filename):
         """Save this ensemble to a file
-- 
2.43.0


From 1513ff7aec327a558bf714b635e7398060a0b16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 05/24] fix: a failed update() left the ensemble half updated

When the ancillary data did not match, update() raised but had already
replaced the distributions, with the old ancillary data and the old gridded
values still attached to them.
---
 src/qp/ensemble.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 3640341..3524f7f 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -170,7 +170,10 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        self._frozen = self._gen_func(**data)
+        # do everything that can fail before changing anything
+        frozen = self._gen_func(**data)
+        check_array_shapes(ancil, frozen.npdf)
+        self._frozen = frozen
         self._gen_obj = self._frozen.dist
         self.set_ancil(ancil)
         self._gridded = None
-- 
2.43.0


From 96d4721909e6a1b87b59478499b53a609984e6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 06/24] fix: add_to_ancil() changed other ensembles and failed
 without ancil

It updated the dict in place that the caller had passed in, and that other
ensembles may have been given too, and raised AttributeError for an ensemble
that had no ancillary data yet.
---
 src/qp/ensemble.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 3524f7f..44d88a5 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -265,7 +265,10 @@ class Ensemble:
         This calls dict.update() so it will overwrite existing columns
         """
         check_array_shapes(to_add, self.npdf)
-        self._ancil.update(to_add)
+        # build a new dict, the current one may be shared with the caller or other ensembles
+        ancil = {} if self._ancil is None else dict(self._ancil)
+        ancil.update(to_add)
+        self._ancil = ancil
 
     def append(self, other_ens):
         """Append another other_ens to this one
-- 
2.43.0


From dbde24c1baa82cbb3a482269b3bc91c816c64d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 07/24] fix: chunks from iterator() lost their ancillary data

All chunks shared one ancil dict, so once the iterator had moved on the
ensembles it had returned before had the ancillary data of the last chunk.
Without ancillary data in the file ancil is None now, as it is for read().
---
 src/qp/factory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index d00240c..3eac5ee 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -256,12 +256,14 @@ class Factory(OrderedDict):
             ancil_f, ancil_infp = (None, None)
         num_rows = io.getGroupInputDataLength(f)
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
-        data = self._build_data_dict(metadata, {})
-        ancil_data = OrderedDict()
         for start, end in ranges:
+            # every chunk needs its own dicts, the ensembles hold on to them
+            data = self._build_data_dict(metadata, {})
+            ancil_data = None
             for key, val in f.items():
                 data[key] = io.readHdf5DatasetToArray(val, start, end)
             if ancil_f is not None:
+                ancil_data = OrderedDict()
                 for key, val in ancil_f.items():
                     ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
             yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
-- 
2.43.0


From 6c5150e83a5e970b9cda71af65bf1d0a0eb25da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 08/24] fix: a partially written file was read as an ensemble
 without ancil

When write_to() or write_dict() got killed, or failed, after the data table
and before the ancil table was written, read() returned an ensemble without
its ancillary data. Write the meta table, which read() requires, last.
---
 src/qp/ensemble.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 44d88a5..d860182 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -300,9 +300,13 @@ class Ensemble:
         data : `dict`
             Table with the object data
         """
-        dd = dict(meta=self.metadata(), data=self.objdata())
+        # The tables are written one after the other in this order. A file can not be read
+        # without "meta", so with that one last a partial file is not taken for a complete one.
+        dd = {}
         if self.ancil is not None:
             dd["ancil"] = self.ancil
+        dd["data"] = self.objdata()
+        dd["meta"] = self.metadata()
         return dd
 
     def mode(self, grid):
-- 
2.43.0


From eb0f87f071d729566614e977d8cb11ce921898f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 09/24] fix: overwriting a file could leave tables of the
 ensemble it held before

write_to() overwrites .pq and .h5 files table by table. An ensemble without
ancil left the ancil table of the previous one in place, and read() returned
it with the new distributions; so did a crash between two tables.
---
 src/qp/ensemble.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index d860182..d07e3c1 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -371,6 +371,17 @@ class Ensemble:
         """
         basename, ext = os.path.splitext(filename)
         tables = self.build_tables()
+        # These formats overwrite table by table. Start from scratch, so that a table of
+        # an ensemble that was in the file before is not taken for one of this one.
+        if ext in [".pq", ".parq", ".parquet"]:
+            stale = [f"{basename}{key}{ext}" for key in ["meta", "data", "ancil"]]
+        elif ext == ".h5":
+            stale = [filename]
+        else:
+            stale = []
+        for path in stale:
+            if os.path.exists(path):
+                os.unlink(path)
         io.write(tables, basename, ext[1:])
 
     def pdf(self, x):
-- 
2.43.0


From e0d8c3b03cc7f3b8ad472ba36286824c9d8919cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 10/24] fix: eval_from_iterator() returned the metric of the
 last chunk only

---
 src/qp/metrics/base_metric_classes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/base_metric_classes.py b/src/qp/metrics/base_metric_classes.py
index 5efa360..ecfe048 100644
--- a/src/qp/metrics/base_metric_classes.py
+++ b/src/qp/metrics/base_metric_classes.py
@@ -157,9 +157,8 @@ class PointToPointMetric(BaseMetric):
 
     def eval_from_iterator(self, estimate, reference):
         self.initialize()
-        for estimate, reference in zip(estimate, reference):
-            centroids = self.accumulate(estimate, reference)
-        return self.finalize([centroids])
+        centroids = [self.accumulate(est, ref) for est, ref in zip(estimate, reference)]
+        return self.finalize(centroids)
 
     def evaluate(self, estimate, reference):
         raise NotImplementedError()
-- 
2.43.0


From dd39ff2c5125e284ece96a09581ce809b6004619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 11/24] fix: streaming Brier and PIT metrics failed on a chunk
 of one distribution

Squeezing dropped the row axis of the truth table, or of the PIT samples, when
the chunk had a single row.
---
 src/qp/metrics/concrete_metric_classes.py | 2 +-
 src/qp/metrics/metrics.py                 | 5 ++---
 src/qp/metrics/pit.py                     | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qp/metrics/concrete_metric_classes.py b/src/qp/metrics/concrete_metric_classes.py
index 00c7271..841ce01 100644
--- a/src/qp/metrics/concrete_metric_classes.py
+++ b/src/qp/metrics/concrete_metric_classes.py
@@ -276,7 +276,7 @@ class PITMetric(DistToPointMetricDigester):
         return pit_object.pit
 
     def accumulate(self, estimate, reference):
-        pit_samples = PIT(estimate, reference, self._eval_grid)._gather_pit_samples(estimate, reference)
+        pit_samples = PIT._gather_pit_samples(estimate, reference)
         digest = pytdigest.TDigest.compute(pit_samples, compression=self._tdigest_compression)
         centroids = digest.get_centroids()
         return centroids
diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index 1ccf600..ff9a99e 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -240,9 +240,8 @@ def _prepare_for_brier(p, truth, limits, dx=0.01):
     pdf_values = p.gridded(grid.grid_values)[1]
 
     # Create the NxM truth_array.
-    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array,
-    # thus we call np.squeeze to remove extra dimensions.
-    truth_array = np.squeeze([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
+    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array.
+    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
 
     # instantiate the Brier metric object
     return Brier(pdf_values, truth_array)
diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index b83586b..ec13832 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -174,7 +174,7 @@ class PIT:
 
     @classmethod
     def _gather_pit_samples(cls, qp_ens, true_vals):
-        pit_samples = np.squeeze(qp_ens.cdf(np.vstack(true_vals)))
+        pit_samples = np.atleast_1d(np.squeeze(qp_ens.cdf(np.vstack(true_vals))))
 
         # These two lines set all `NaN` values to 0. This may or may not make sense
         # Alternatively if it's better to simply remove the `NaN`, this can be done
-- 
2.43.0


From bbf47ae240316bce315d3ecb6b7b7eed3414030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 12/24] fix: picking one row dropped the row axis of its
 ancillary data

The result could not be written, appended, concatenated or sliced, and picking
a row failed altogether with a two-dimensional ancillary column.
---
 src/qp/ensemble.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index d07e3c1..228e28c 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -70,6 +70,9 @@ class Ensemble:
                 red_data[k] = v
         if self._ancil is not None:
             ancil = slice_dict(self._ancil, key)
+            if isinstance(key, (int, np.integer)):
+                # keep the row axis, as for the data above
+                ancil = {k: np.expand_dims(v, 0) for k, v in ancil.items()}
         else:
             ancil = None
         return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
-- 
2.43.0


From c141c13f978ee38ddb6edfc1d8a93171ae6ceeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 13/24] fix: append() and concatenate() failed for splines made
 by a conversion

They passed the parameters of the representation to the creation method the
ensemble had been made with, which takes others.
---
 src/qp/ensemble.py | 9 +++++++--
 src/qp/factory.py  | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 228e28c..a6523b0 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -173,8 +173,11 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
+        self._update(self._gen_func, data, ancil)
+
+    def _update(self, gen_func, data, ancil):
         # do everything that can fail before changing anything
-        frozen = self._gen_func(**data)
+        frozen = gen_func(**data)
         check_array_shapes(ancil, frozen.npdf)
         self._frozen = frozen
         self._gen_obj = self._frozen.dist
@@ -197,7 +200,9 @@ class Ensemble:
             new_data[k] = np.squeeze(v)
         new_data.update(self.objdata())
         new_data.update(data)
-        self.update(new_data, ancil)
+        # these are the parameters of the representation, not those of the
+        # creation method that this ensemble may have been made with
+        self._update(self._gen_obj.create, new_data, ancil)
 
     def metadata(self):
         """Return the metadata for this ensemble
diff --git a/src/qp/factory.py b/src/qp/factory.py
index 3eac5ee..ede1893 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -339,7 +339,9 @@ class Factory(OrderedDict):
             metadata_list.append(ensemble.metadata())
             objdata_list.append(ensemble.objdata())
             if gen_func is None:
-                gen_func = ensemble.gen_func
+                # the parameters are those of the representation, not those of the
+                # creation method the ensemble may have been made with
+                gen_func = ensemble.gen_obj.create
             if ancil_list is not None:
                 if ensemble.ancil is None:
                     ancil_list = None
-- 
2.43.0


From eec0b46728d43ec14dac365eb53f13f5d3b2d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 14/24] fix: histogram conversion by sampling failed with as
 many rows as bins

The number of distributions and of bins were used as dimension names, and
taken for the same dimension when equal.
---
 src/qp/conversion_funcs.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 85689b9..39f985e 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -142,9 +142,7 @@ def extract_hist_samples(in_dist, **kwargs):
     def hist_helper(sample):
         return np.histogram(sample, bins=bins)[0]
 
-    vv = np.vectorize(
-        hist_helper, signature="(%i)->(%i)" % (samples.shape[0], bins.size - 1)
-    )
+    vv = np.vectorize(hist_helper, signature="(nsamples)->(nbins)")
     pdfs = vv(samples)
     return dict(bins=bins, pdfs=pdfs)
 
-- 
2.43.0


From 551c8e096693fea0af521b73efa3d41aab7857e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 15/24] fix: mixture quantiles failed for a table of points,
 and so did sampling

ppf() of a mixmod ensemble raised for points which differ from row to row
(which is what rvs() asks for) and for a single row other than the first
(which is what mean() and std() ask for).
---
 src/qp/mixmod_pdf.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index e9cd405..9ba7eb6 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -9,7 +9,7 @@ from qp.conversion_funcs import extract_mixmod_fit_samples
 from qp.factory import add_class
 from qp.pdf_gen import Pdf_rows_gen
 from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
-from qp.utils import get_eval_case, interpolate_multi_x_y, reshape_to_pdf_size
+from qp.utils import interpolate_multi_x_y, reshape_to_pdf_size
 
 
 class mixmod_gen(Pdf_rows_gen):
@@ -122,17 +122,12 @@ class mixmod_gen(Pdf_rows_gen):
         min_val = np.min(self._means - 6 * self._stds)
         max_val = np.max(self._means + 6 * self._stds)
         grid = np.linspace(min_val, max_val, 201)
-        case_idx, _, rr = get_eval_case(x, row)
-        if case_idx == 1:
-            cdf_vals = self.cdf(grid, rr)
-        elif case_idx == 3:
-            cdf_vals = self.cdf(grid, np.expand_dims(rr, -1))
-        else:  # pragma: no cover
-            raise ValueError(
-                f"Opps, we handle this kind of input to mixmod._ppf {case_idx}"
-            )
+        # one line of cdf values for each of the rows asked for
+        rows, idx = np.unique(row, return_inverse=True)
+        cdf_vals = self.cdf(grid, np.expand_dims(rows, -1))
+        idx = idx.reshape(np.shape(row))
         return interpolate_multi_x_y(
-            x, row, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
+            x, idx, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
         ).ravel()
 
     def _updated_ctor_param(self):
-- 
2.43.0


From f30db4e17d90750991fb4046ce8306de02ebbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 16/24] fix: write_to() lost the suffix of a file name with
 another dot in it

An ensemble written to run.1.hdf5 ended up in a file run.1.
---
 src/qp/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a6523b0..3c25073 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -390,7 +390,8 @@ class Ensemble:
         for path in stale:
             if os.path.exists(path):
                 os.unlink(path)
-        io.write(tables, basename, ext[1:])
+        # the name is passed with its suffix, or tables_io takes another dot in it for one
+        io.write(tables, filename, ext[1:])
 
     def pdf(self, x):
         """
-- 
2.43.0


From f2fc18cdf0c02b6a14656172d16d49e59721c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 17/24] fix: hdf5 files lost the pdf constructor of quantile
 ensembles

The name was kept as a unicode array, which tables_io can not write to hdf5:
it dropped the column and the file was read with the default constructor.
---
 src/qp/quant_pdf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 0d5b673..6ea25df 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -129,9 +129,14 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
             )
         self._locs = locs_2d
 
-        self._pdf_constructor_name = str(
-            kwargs.pop("pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR)
+        pdf_constructor_name = kwargs.pop(
+            "pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR
         )
+        if isinstance(pdf_constructor_name, np.ndarray):
+            pdf_constructor_name = pdf_constructor_name.item()
+        if isinstance(pdf_constructor_name, bytes):
+            pdf_constructor_name = pdf_constructor_name.decode()
+        self._pdf_constructor_name = str(pdf_constructor_name)
         self._pdf_constructor = None
         self._instantiate_pdf_constructor()
 
@@ -139,7 +144,8 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         super().__init__(*args, **kwargs)
 
         self._addmetadata("quants", self._quants)
-        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
+        # as bytes, like the name of the class: hdf5 files take no unicode arrays
+        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name.encode())
         self._addmetadata("check_input", self._check_input)
         self._addobjdata("locs", self._locs)
 
@@ -187,7 +193,7 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
 
         self._pdf_constructor_name = value
         self._instantiate_pdf_constructor()
-        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
+        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name.encode())
 
     @property
     def pdf_constructor(self) -> AbstractQuantilePdfConstructor:
-- 
2.43.0


From c7b6ef051df221fbf146835b8af6b5cc88c62a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 18/24] fix: an ensemble read from a fits file could not be
 written to parquet

fits columns are big-endian, and pyarrow takes native byte order only.
---
 src/qp/factory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index ede1893..8dc2044 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -210,6 +210,12 @@ class Factory(OrderedDict):
             filename, NUMPY_DICT, keys=keys, allow_missing_keys=allow_missing_keys
         )  # pylint: disable=no-member
 
+        # fits files hold big-endian columns, which other formats can not be written from
+        for table in tables.values():
+            for col, val in table.items():
+                if not val.dtype.isnative:
+                    table[col] = val.astype(val.dtype.newbyteorder("="))
+
         return self.from_tables(tables)
 
     def data_length(self, filename):
-- 
2.43.0


From 81e62cf61942e42581fd66d6f1c007a82af51c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 19/24] fix: failing reads of an hdf5 file could go unnoticed

A dataset that h5py can not open comes as None, which ended up in the metadata
or as the ancillary column of an ensemble of one, and a failure to open the
ancil group made iterator() deliver chunks without ancil.
---
 src/qp/factory.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 8dc2044..3c9b795 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -27,6 +27,13 @@ class Factory(OrderedDict):
         super().__init__()
         self._load_scipy_classes()
 
+    @staticmethod
+    def _check_table(name, table):
+        """Raise OSError if a column could not be read, h5py has `None` in place of those"""
+        for col, val in table.items():
+            if np.ndim(val) == 0 and np.asarray(val).item() is None:
+                raise OSError(f"Failed to read column {col} of table {name}")
+
     @staticmethod
     def _build_data_dict(md_table, data_table):
         """Convert the tables to a dictionary that can be used to build an Ensemble"""
@@ -138,6 +145,10 @@ class Factory(OrderedDict):
         md_table = tables["meta"]
         data_table = tables["data"]
         ancil_table = tables.get("ancil")
+        self._check_table("meta", md_table)
+        self._check_table("data", data_table)
+        if ancil_table is not None:
+            self._check_table("ancil", ancil_table)
 
         data = self._build_data_dict(md_table, data_table)
 
@@ -161,6 +172,7 @@ class Factory(OrderedDict):
         filename : `str`
         """
         tables = io.read(filename, NUMPY_DICT, keys=["meta"])
+        self._check_table("meta", tables["meta"])
         return tables["meta"]
 
     def is_qp_file(self, filename):
@@ -247,6 +259,7 @@ class Factory(OrderedDict):
             raise TypeError("Can only use qp.iterator on hdf5 files")
 
         metadata = io.readHdf5ToDict(filename, "meta")
+        self._check_table("meta", metadata)
         pdf_name = metadata.pop("pdf_name")[0].decode()
         _pdf_version = metadata.pop("pdf_version")[0]
         if pdf_name not in self:  # pragma: no cover
@@ -256,9 +269,10 @@ class Factory(OrderedDict):
         ctor_func = the_class.creation_method(None)
 
         f, infp = io.readHdf5Group(filename, "data")
-        try:
+        # do not take a group that can not be read for one that is not there
+        if "ancil" in list(infp.keys()):
             ancil_f, ancil_infp = io.readHdf5Group(filename, "ancil")
-        except KeyError:  # pragma: no cover
+        else:
             ancil_f, ancil_infp = (None, None)
         num_rows = io.getGroupInputDataLength(f)
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
-- 
2.43.0


From 9fc6409072d5ac61a6106a0b1426df2b1c9d3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:01 +0000
Subject: [PATCH 20/24] fix: mixture densities were wrong for one distribution
 and some infinite points

scipy leaves out the points it can answer itself, and then passes the
row of a single distribution as an array of another shape than the
points; the sum over the components was taken over the wrong axis.
---
 src/qp/mixmod_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index 9ba7eb6..0254de8 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -103,7 +103,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).pdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
@@ -115,7 +115,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).cdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From 73be5991e0e437d252e8e41e54e2f60ab2f0c124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 21/24] fix: a file with a part of the metadata could be read
 as another ensemble

Metadata are written one by one. When the process was interrupted between
them, the file was closed on the way out and read back with the defaults of
the settings that had not been written, such as the pdf_constructor_name.
---
 src/qp/ensemble.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 3c25073..a980a5e 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -220,6 +220,9 @@ class Ensemble:
 
         dd = {}
         dd.update(self._gen_obj.metadata)
+        # Files are written in this order. A file can not be read without the name, so with
+        # that one last a file with a part of the metadata is not taken for a complete one.
+        dd["pdf_name"] = dd.pop("pdf_name")
         return dd
 
     def objdata(self):
-- 
2.43.0


From 9ce57689673eb69cfbe8c0cfe30e8f26c30c2fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 22/24] fix: seeded conversion to a mixture depended on the
 global random state

---
 src/qp/conversion_funcs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 39f985e..d49de33 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -223,9 +223,14 @@ def extract_mixmod_fit_samples(in_dist, **kwargs):
     n_sample = kwargs.pop("nsamples", 1000)
     random_state = kwargs.pop("random_state", None)
     samples = in_dist.rvs(size=n_sample, random_state=random_state)
+    if isinstance(random_state, np.random.Generator):
+        # the fit starts from random values, too, and does not take this kind
+        random_state = np.random.RandomState(random_state.bit_generator)
 
     def mixmod_helper(samps):
-        estimator = mixture.GaussianMixture(n_components=n_comps)
+        estimator = mixture.GaussianMixture(
+            n_components=n_comps, random_state=random_state
+        )
         estimator.fit(samps.reshape(-1, 1))
         weights = estimator.weights_
         means = estimator.means_[:, 0]
-- 
2.43.0


From 1eda2b285b628314309535578251459843ca74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 23/24] fix: one distribution given by quantiles could not be
 sampled

---
 src/qp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index b92c863..a53c92d 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -576,8 +576,8 @@ def interpolate_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
     def evaluate_row(rv, xv):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(evaluate_row, signature="(1),(%i)->(%i)" % (nx, nx))
-    return vv(row, x)
+    vv = np.vectorize(evaluate_row, signature="(),(%i)->(%i)" % (nx, nx))
+    return vv(np.squeeze(row), x)
 
 
 def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
-- 
2.43.0


From d3ec2d8a154dea12701468b7aaeb8f11cc016cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:11 +0000
Subject: [PATCH 24/24] fix: chunks of a file of an older version were not
 converted

Factory.read() and read_dict() pass what they read through the reader method
registered for the version of the file. Factory.iterator() did not, so the
same file gave other distributions (or an error) when it was read in chunks.
The chunks are now built like what read() gets, and converted like it.
---
 src/qp/factory.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 3c9b795..9457707 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -261,11 +261,11 @@ class Factory(OrderedDict):
         metadata = io.readHdf5ToDict(filename, "meta")
         self._check_table("meta", metadata)
         pdf_name = metadata.pop("pdf_name")[0].decode()
-        _pdf_version = metadata.pop("pdf_version")[0]
+        pdf_version = metadata.pop("pdf_version")[0]
         if pdf_name not in self:  # pragma: no cover
             raise KeyError("Class nameed %s is not in factory" % pdf_name)
         the_class = self[pdf_name]
-        # reader_convert = the_class.reader_method(pdf_version)
+        reader_convert = the_class.reader_method(pdf_version)
         ctor_func = the_class.creation_method(None)
 
         f, infp = io.readHdf5Group(filename, "data")
@@ -278,10 +278,13 @@ class Factory(OrderedDict):
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
         for start, end in ranges:
             # every chunk needs its own dicts, the ensembles hold on to them
-            data = self._build_data_dict(metadata, {})
-            ancil_data = None
+            data_table = OrderedDict()
             for key, val in f.items():
-                data[key] = io.readHdf5DatasetToArray(val, start, end)
+                data_table[key] = io.readHdf5DatasetToArray(val, start, end)
+            data = self._build_data_dict(metadata, data_table)
+            if reader_convert is not None:
+                data = reader_convert(data)
+            ancil_data = None
             if ancil_f is not None:
                 ancil_data = OrderedDict()
                 for key, val in ancil_f.items():
-- 
2.43.0

