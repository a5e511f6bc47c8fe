From 2c5b31de8da684b326b1481e4e42962851546284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 001/113] fix: accept a vector of depths when inverse
 projecting image points

---
 src/glimpse/camera.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9234bf4..95ca4a7 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1468,8 +1468,7 @@ class Camera:
             xyz = np.dot(xy, self.R[0:2, :])
         # Simulate z = 1 by adding 3rd column of rotation matrix
         xyz += self.R.T[:, 2]
-        if depth != 1:
-            xyz *= np.atleast_1d(depth).reshape(-1, 1)
+        xyz *= np.atleast_1d(depth).reshape(-1, 1)
         if not directions:
             xyz += self.xyz
         return xyz
-- 
2.43.0


From 159d05c553586a5cc42dddc2313068914cbd1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 002/113] fix: undistort points on the vertical axis of a
 camera with only k1

---
 src/glimpse/camera.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 95ca4a7..0ddb434 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1223,8 +1223,7 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        # r' = y / cos(phi)
-        R = -xy[:, 0] / (2 * self.k[0] * np.cos(phi))
+        R = -np.hypot(xy[:, 0], xy[:, 1]) / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
-- 
2.43.0


From 6ad24192d26c7e9708513691be5bf585fe552810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 003/113] fix: rasterize points on the right and bottom image
 edges and (n, d) values

---
 src/glimpse/camera.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 0ddb434..0eba55b 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -853,11 +853,12 @@ class Camera:
             array([[ 1., nan, nan],
                    [nan, nan,  3.]])
         """
+        values = np.asarray(values)
         mask = self.inframe(uv)
-        a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
-        helpers.rasterize_points(
-            uv[mask, 1].astype(int), uv[mask, 0].astype(int), values[mask], a=a
-        )
+        a = np.full((self.imgsz[1], self.imgsz[0], *values.shape[1:]), np.nan)
+        # Points on right or bottom edges fall in the last column or row
+        cr = np.minimum(uv[mask].astype(int), self.imgsz - 1)
+        helpers.rasterize_points(cr[:, 1], cr[:, 0], values[mask], a=a)
         return a
 
     def spherical_to_xyz(self, angles: np.ndarray) -> np.ndarray:
@@ -1077,7 +1078,8 @@ class Camera:
             if not np.count_nonzero(is_in):
                 # No cells in image
                 return None
-            rc = uv[is_in, ::-1].astype(int)
+            # Points on right or bottom edges fall in the last column or row
+            rc = np.minimum(uv[is_in].astype(int), self.imgsz - 1)[:, ::-1]
             # Compile values
             if has_values:
                 tile_values = tile_values[tile_mask][is_in]
-- 
2.43.0


From b54e3684f9e2537492d996aa2c586ca13ce48f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 004/113] fix: project rescaled DEM tiles with or without
 values

---
 src/glimpse/camera.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 0eba55b..88cb417 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1059,12 +1059,15 @@ class Camera:
                 tile_mask = scipy.ndimage.zoom(
                     tile_mask, zoom=float(tile_scale), order=0
                 )
-                tile_values = np.dstack(
-                    scipy.ndimage.zoom(
-                        tile_values[:, :, i], zoom=float(tile_scale), order=1
+                if has_values:
+                    tile_values = np.dstack(
+                        [
+                            scipy.ndimage.zoom(
+                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                            )
+                            for i in range(tile_values.shape[2])
+                        ]
                     )
-                    for i in range(tile_values.shape[2])
-                )
             # Project tile
             xyz = helpers.grid_to_points(
                 (tile.X[tile_mask], tile.Y[tile_mask], tile.array[tile_mask])
-- 
2.43.0


From 0e6068ec6b13882af92b1ad84807a7e8c261f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 005/113] fix: store grid dimensions as an array and update
 them on read

---
 src/glimpse/raster.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 65b00ae..b59595b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -51,7 +51,7 @@ class Grid:
         y: Iterable[Union[Number, Iterable[Number]]] = None,
         crs: Union[int, str] = None,
     ) -> None:
-        self._size = size
+        self.size = size
         self.xlim, self._x, self._X = self._parse_xy(x, dim=0)
         self.ylim, self._y, self._Y = self._parse_xy(y, dim=1)
         self.crs = crs
@@ -83,6 +83,7 @@ class Grid:
         if (value <= 0).any():
             raise ValueError("Grid dimensions must be positive")
         self._size = value
+        self._clear_cache()
 
     @property
     def xlim(self) -> np.ndarray:
@@ -216,7 +217,7 @@ class Grid:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
         grid.xlim, grid.ylim = xlim, ylim
-        grid.n = (buf_xsize, buf_ysize)
+        grid.size = (buf_xsize, buf_ysize)
         return grid
 
     # ---- Methods (private) ----
@@ -870,7 +871,9 @@ class Raster(Grid):
         """Grid dimensions (nx, ny)."""
         if self._array is None:
             # HACK: Use gdal.ReadAsArray arguments
-            return self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"]
+            return np.array(
+                (self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"])
+            )
         return np.array(self._array.shape[0:2][::-1]).astype(int)
 
     @property
-- 
2.43.0


From d5e719a172875154819488d6189cddf0cd30f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 006/113] fix: keep the coordinate reference system of copied
 and cropped grids

---
 src/glimpse/raster.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b59595b..59639a3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -286,7 +286,9 @@ class Grid:
 
     def copy(self) -> "Grid":
         """Copy grid."""
-        return Grid(self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy())
+        return Grid(
+            self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy(), crs=self.crs
+        )
 
     def resize(self, scale: Number) -> None:
         """
@@ -690,7 +692,9 @@ class Raster(Grid):
             x = x[[0, -1]] + (-0.5, 0.5) * d[0:1]
         if len(y) < 3:
             y = y[[0, -1]] + (-0.5, 0.5) * d[1:2]
-        return self.__class__(self.array[i, j], x=x, y=y, datetime=self.datetime)
+        return self.__class__(
+            self.array[i, j], x=x, y=y, datetime=self.datetime, crs=self.crs
+        )
 
     @classmethod
     def open(
@@ -885,7 +889,7 @@ class Raster(Grid):
     @property
     def grid(self) -> "Grid":
         """Raster grid."""
-        return Grid(self.size, x=self.xlim, y=self.ylim)
+        return Grid(self.size, x=self.xlim, y=self.ylim, crs=self.crs)
 
     # ---- Properties (cached) ----
 
@@ -909,6 +913,7 @@ class Raster(Grid):
             x=self.xlim.copy(),
             y=self.ylim.copy(),
             datetime=copy.copy(self.datetime),
+            crs=self.crs,
         )
 
     def sample(
-- 
2.43.0


From 65d8cbc84960e8b363fb0477b2d4459caba44d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 007/113] fix: shift rasters without corrupting their
 interpolant or other grids

---
 src/glimpse/raster.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 59639a3..af4a31b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -270,17 +270,17 @@ class Grid:
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
         if dx is not None:
-            self._xlim += dx
+            self._xlim = self._xlim + dx
             if self._x is not None:
-                self._x += dx
+                self._x = self._x + dx
             if self._X is not None:
-                self._X += dx
+                self._X = self._X + dx
         if dy is not None:
-            self._ylim += dy
+            self._ylim = self._ylim + dy
             if self._y is not None:
-                self._y += dy
+                self._y = self._y + dy
             if self._Y is not None:
-                self._Y += dy
+                self._Y = self._Y + dy
 
     # ---- Methods ---- #
 
@@ -1213,16 +1213,8 @@ class Raster(Grid):
         """
         self._shift_xy(dx=dx, dy=dy)
         if dz is not None:
-            # Prevent reset of cached interpolants
-            self._array += dz
-        if self._Zf is not None:
-            # Shift cached interpolants
-            if dx is not None:
-                self._Zf.grid[0][:] += dx
-            if dy is not None:
-                self._Zf.grid[1][:] += dy
-            if dy is not None:
-                self._Zf.values += dz
+            self.array = self.array + dz
+        self._clear_cache(["Zf"])
 
     def fill_circle(
         self, center: Iterable[Number], radius: Number, value: Any = np.nan
-- 
2.43.0


From 0eb90bc241b026d79ea85e3889782ad609e37404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 008/113] fix: rebuild the raster interpolant after its limits
 change

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index af4a31b..0cb65e4 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -95,7 +95,7 @@ class Grid:
         value = self._parse_limits(value)
         if not hasattr(self, "xlim") or not np.array_equal(self.xlim, value):
             self._xlim = value
-            self._clear_cache(["x", "X"])
+            self._clear_cache(["x", "X", "Zf"])
 
     @property
     def ylim(self) -> np.ndarray:
@@ -107,7 +107,7 @@ class Grid:
         value = self._parse_limits(value)
         if not hasattr(self, "ylim") or not np.array_equal(self.ylim, value):
             self._ylim = value
-            self._clear_cache(["y", "Y"])
+            self._clear_cache(["y", "Y", "Zf"])
 
     # ---- Properties (dependent) ---- #
 
-- 
2.43.0


From 1d4aef220255b52b4f99634fb68cb7ba2f053904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 009/113] fix: sample rasters on a grid without modifying or
 masking valid values

---
 src/glimpse/raster.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 0cb65e4..de4f422 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1055,24 +1055,28 @@ class Raster(Grid):
         """Sample raster values on regular grid."""
         x, y = xy
         signs = np.sign(self.d).astype(int)
-        # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
-        Zmin = np.nanmin(self.array)
-        is_nan = np.isnan(self.array)
-        self.array[is_nan] = helpers.numpy_dtype_minmax(self.array.dtype)[0]
-        fun = scipy.interpolate.RectBivariateSpline(
-            self.y[:: signs[1]],
-            self.x[:: signs[0]],
-            self.array[:: signs[1], :: signs[0]],
-            bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
-            kx=kx,
-            ky=ky,
-            s=s,
-        )
         xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
         ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
-        samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
-        samples[samples < Zmin] = np.nan
-        self.array[is_nan] = np.nan
+
+        def evaluate(array: np.ndarray, **kwargs: Any) -> np.ndarray:
+            fun = scipy.interpolate.RectBivariateSpline(
+                self.y[:: signs[1]],
+                self.x[:: signs[0]],
+                array[:: signs[1], :: signs[0]],
+                bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
+                **kwargs
+            )
+            return fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
+
+        # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
+        array = self.array.astype(float)
+        is_nan = np.isnan(array)
+        if not is_nan.any():
+            return evaluate(array, kx=kx, ky=ky, s=s)
+        array[is_nan] = 0 if is_nan.all() else np.nanmean(array)
+        samples = evaluate(array, kx=kx, ky=ky, s=s)
+        # Samples are missing if any of the surrounding cells are missing
+        samples[np.abs(evaluate(is_nan.astype(float), kx=1, ky=1)) > 1e-9] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From 0ad412219530b1adde4c8fd65920ba823554f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 010/113] fix: sample single-row and single-column rasters on
 any grid

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index de4f422..744fbd7 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -994,7 +994,7 @@ class Raster(Grid):
                 z = self._sample_1d(xy[dim], dim=dim, kind=methods[order])
                 samples = np.tile(
                     z.reshape(-1 if dim else 1, 1 if dim else -1),
-                    reps=(1 if dim else len(z), len(z) if dim else 1),
+                    reps=(1 if dim else len(xy[1]), len(xy[0]) if dim else 1),
                 )
             else:
                 # 0D: Return constant
-- 
2.43.0


From 4f7fb565aca202b4248a3d3cbe7812071b5e020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 011/113] fix: find the limits of boolean data types with
 current numpy

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 756db74..b9e9a90 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -110,7 +110,7 @@ def numpy_dtype_minmax(
     if issubclass(dtype.type, np.integer):
         info = np.iinfo(dtype)
         return info.min, info.max
-    if dtype.type in (np.bool_, np.bool):
+    if dtype.type is np.bool_:
         return False, True
     raise ValueError("Cannot determine min, max for " + str(dtype))
 
-- 
2.43.0


From f076719faa12c2101603c4a4c697d488aa0cd445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 012/113] fix: replace a no-data value of zero when opening a
 raster

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 744fbd7..6449b8f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -745,7 +745,7 @@ class Raster(Grid):
         dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(raster_band.DataType)
         is_float = np.issubdtype(dtype, np.floating)
         default_nan = raster_band.GetNoDataValue()
-        if nan is None and (is_float and default_nan):
+        if nan is None and is_float and default_nan is not None:
             nan = default_nan
         crs = raster.GetProjection()
         obj = cls(None, x=xlim, y=ylim, datetime=datetime, crs=crs if crs else None)
-- 
2.43.0


From 34005d45636eb3c5892fd7fc55a2aa4143188f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 013/113] fix: represent NaN by the requested no-data value
 when writing a raster

---
 src/glimpse/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index b9e9a90..890cca3 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -609,7 +609,10 @@ def write_raster(
     for i in range(output.RasterCount):
         if nan is not None:
             output.GetRasterBand(i + 1).SetNoDataValue(nan)
-        output.GetRasterBand(i + 1).WriteArray(a[:, :, i])
+        band = a[:, :, i]
+        if nan is not None and np.issubdtype(a.dtype, np.floating):
+            band = np.where(np.isnan(band), a.dtype.type(nan), band)
+        output.GetRasterBand(i + 1).WriteArray(band)
     if not can_create:
         output = driver.CreateCopy(path, output, 0)
     output.FlushCache()
-- 
2.43.0


From 0b88b71d3060b0917bfd41924790c46ad82c7200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 014/113] fix: leave cells without points empty when
 rasterizing points

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6449b8f..000c757 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1124,7 +1124,7 @@ class Raster(Grid):
         """
         mask = self.inbounds_xy(xy)
         rowcol = self.xy_to_rowcol(xy[mask, :], snap=True)
-        array = self.array.copy()
+        array = np.full(self.shape, np.nan)
         helpers.rasterize_points(rowcol[:, 0], rowcol[:, 1], values[mask], a=array)
         return array
 
-- 
2.43.0


From 439666fd74b62c0479971da26100ce6b1cc41120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 015/113] fix: interpolate rasters at the coordinates of the
 rasters

---
 src/glimpse/raster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 000c757..6bdaafe 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1684,7 +1684,8 @@ class RasterInterpolant:
         """Interpolate between two rasters."""
         dz = means[1].array - means[0].array
         dx = x[1] - x[0]
-        scale = (xi - x[0]) / dx
+        # Rasters are the same if xi is the coordinate of a raster
+        scale = (xi - x[0]) / dx if dx else 0
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
@@ -1696,7 +1697,7 @@ class RasterInterpolant:
             )
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
-            zi_var = ((1 / 3) * dz * (nearest_dx / dx)) ** 2
+            zi_var = ((1 / 3) * dz * (nearest_dx / dx if dx else 0)) ** 2
             sigma = raster.__class__(
                 np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
             )
-- 
2.43.0


From 1fbb0614bedddda48a4919c19617012ad8db5ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 016/113] fix: resize interpolated rasters to the target cell
 size

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 6bdaafe..77d4fe6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1586,7 +1586,7 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = d / np.abs(obj.d).mean()
+                scale = np.abs(obj.d).mean() / d
                 obj.resize(scale)
             return obj
         if isinstance(obj, str):
-- 
2.43.0


From 7a3367752e9dcdc72fb3a8025068c6ce3e484300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 017/113] fix: return grid samples of a single-cell raster in
 row, column order

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 77d4fe6..c7c0d2f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -998,7 +998,7 @@ class Raster(Grid):
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[0]), len(xy[1])), self.array.flat[0])
+                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
-- 
2.43.0


From 1d7e5a9c079fe251a9c2927bb9635b146b7026cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 018/113] fix: interpolate between rasters and numbers

---
 src/glimpse/raster.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index c7c0d2f..43debd6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1745,7 +1745,10 @@ class RasterInterpolant:
         # Determine common grid (lowest resolution, smallest extent)
         grids = [self._read_mean_grid(k) for k in ij]
         if d is None:
-            d = np.max(np.abs(np.stack([grid.d for grid in grids])))
+            ds = np.abs(np.stack([grid.d for grid in grids]))
+            if np.isfinite(ds).any():
+                # Ignore infinite rasters (numbers)
+                d = np.max(ds[np.isfinite(ds)])
         if xlim is None:
             xlim = (-np.inf, np.inf)
         if ylim is None:
@@ -1760,9 +1763,11 @@ class RasterInterpolant:
             for k in ij
         ]
         if means[0].grid != means[1].grid:
-            if means[1] is self.means[ij[1]]:
-                means[1] = means[1].copy()
-            means[1].resample(means[0])
+            # Match the first raster, unless it is infinite (number)
+            k = 0 if isinstance(self.means[ij[0]], numbers.Number) else 1
+            if means[k] is self.means[ij[k]]:
+                means[k] = means[k].copy()
+            means[k].resample(means[1 - k])
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-- 
2.43.0


From 8545b292d1c23b0125012b2750e7df83d23db16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 019/113] fix: keep diagonal steps of a circular path

---
 src/glimpse/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 890cca3..675cf2d 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1019,7 +1019,7 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         # 8th octant
         xy[6 * octant_size - i, :] = [x0 - y, y0 - x]
     # Remove duplicate points
-    unique = [True] + (np.diff(xy, axis=0).sum(axis=1) != 0).tolist()
+    unique = [True] + (np.diff(xy, axis=0) != 0).any(axis=1).tolist()
     return xy[unique]
 
 
-- 
2.43.0


From adaaf067c44f5949eb41f724db3a1bcdacd945e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 020/113] fix: fill circles in rasters with descending x
 coordinates

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 43debd6..b90b04f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1233,7 +1233,7 @@ class Raster(Grid):
         """
         # Circle indices
         rowcol = self.xy_to_rowcol(np.atleast_2d(center[0:2]), snap=True)
-        r = np.round(radius / self.d[0])
+        r = np.round(radius / abs(self.d[0]))
         xyi = helpers.bresenham_circle(rowcol[0, ::-1], r).astype(int)
         # Filled circle indices
         ind = []
-- 
2.43.0


From e690c12c451d9d77ac1cf05cf1c292425cb59afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 021/113] fix: rebuild the raster interpolant after modifying
 values in place

---
 src/glimpse/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index b90b04f..5945af6 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1184,6 +1184,7 @@ class Raster(Grid):
                 warnings.warn("array cast to float to accommodate NaN")
                 self.array = self.array.astype(float)
             self.array[outbounds] = np.nan
+            self._clear_cache(["Zf"])
 
     def resize(self, scale: Number, order: int = 1) -> None:
         """
@@ -1247,6 +1248,7 @@ class Raster(Grid):
                 ind.extend(self.rowcol_to_idx(rowcols))
         # Apply
         self.array.flat[ind] = value
+        self._clear_cache(["Zf"])
 
     def hillshade(
         self, azimuth: Number = 315, altitude: Number = 45, **kwargs: Any
-- 
2.43.0


From 6e2824c52a9d838db126af0a12c441482ed90623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 022/113] fix: trace the horizon from corners, edges, and
 outside of a raster

---
 src/glimpse/raster.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 5945af6..3c833a1 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1432,13 +1432,15 @@ class Raster(Grid):
             rowcol = self.xy_to_rowcol(np.atleast_2d(origin[0:2]), snap=True)
             starts = np.repeat(rowcol[:, ::-1], n, axis=0)
         else:
-            rowcol = self.xy_to_rowcol(xy_starts)
-            starts = rowcol[:, ::-1]
-        rowcol = self.xy_to_rowcol(xy_ends, snap=True)
-        ends = rowcol[:, ::-1]
+            # NOTE: Rounding errors may place intersections just out of bounds
+            rowcol = self.xy_to_rowcol(np.nan_to_num(xy_starts), snap=True)
+            starts = np.clip(rowcol[:, ::-1], 0, self.size - 1)
+        misses = np.isnan(xy_ends if inside else xy_starts).any(axis=1)
+        rowcol = self.xy_to_rowcol(np.nan_to_num(xy_ends), snap=True)
+        ends = np.clip(rowcol[:, ::-1], 0, self.size - 1)
         # Iterate over line in each direction
         hxyz = np.full((n, 3), np.nan)
-        for i in range(n):
+        for i in np.flatnonzero(~misses):
             rowcol = helpers.bresenham_line(starts[i, :], ends[i, :])[:, ::-1]
             if inside:
                 # Skip start cell
@@ -1446,6 +1448,8 @@ class Raster(Grid):
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
             dz = self.array.flat[idx] - origin[2]
+            if np.isnan(dz).all():
+                continue
             xy = self.rowcol_to_xy(rowcol)
             dxy = np.sum((xy - origin[0:2]) ** 2, axis=1)  # wait to take square root
             if isinstance(correction, dict):
-- 
2.43.0


From 02e71c4e81402878b6567d165ccb1eed31edaa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 023/113] fix: keep overlapping tiles within the grid

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3c833a1..36c172a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -602,9 +602,9 @@ class Grid:
         yends = np.insert(np.searchsorted(yi, np.unique(yi), side="right"), 0, 0)
         # HACK: Achieves overlap by increasing tile size
         xstarts = xends.copy()
-        xstarts[1:-1] -= overlap[0]
+        xstarts[1:-1] = np.maximum(xstarts[1:-1] - overlap[0], 0)
         ystarts = yends.copy()
-        ystarts[1:-1] -= overlap[1]
+        ystarts[1:-1] = np.maximum(ystarts[1:-1] - overlap[1], 0)
         return tuple(
             (slice(ystarts[i], yends[i + 1]), slice(xstarts[j], xends[j + 1]))
             for i in range(len(ystarts) - 1)
-- 
2.43.0


From 10a7a9a1975bc8be150e31ac1a60e1a3e139ff19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 024/113] fix: read a subset of a resized image directly from
 file

---
 src/glimpse/image.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 2b9546c..d12a893 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -185,8 +185,13 @@ class Image:
                 args["buf_xsize"], args["buf_ysize"] = cam_size
             if box is not None and not cache:
                 # Resize box to actual image size
-                xscale, yscale = size[0] / cam_size[0], size[1] / cam_size[1]
+                path_size = self._path_imgsz
+                xscale = path_size[0] / cam_size[0]
+                yscale = path_size[1] / cam_size[1]
                 # Read image subset
+                if resize:
+                    args["buf_xsize"] = int(box[2] - box[0])
+                    args["buf_ysize"] = int(box[3] - box[1])
                 args["xoff"] = int(round(box[0] * xscale))
                 args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
                 args["yoff"] = int(round(box[1] * yscale))
-- 
2.43.0


From 5aaac067ccb5046eeec83be0c07285c99ee47d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 025/113] fix: find nearest neighbors in a single value

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 675cf2d..6d30780 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -174,7 +174,8 @@ def _sorted_neighbors(x: Iterable, y: Iterable) -> np.ndarray:
     index[(index > 0) & (index < len(x))] -= 1
     # index = len(x) snap to index - 2
     index[index == len(x)] -= 2
-    return np.column_stack((index, index + 1))
+    # Single value is both left and right neighbor
+    return np.column_stack((np.maximum(index, 0), np.minimum(index + 1, len(x) - 1)))
 
 
 def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
-- 
2.43.0


From 3c29a8e7236bf34f02887b3cf99e12c5a745ad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 026/113] fix: flatten JSON arrays without changing strings or
 requiring an indent

---
 src/glimpse/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 6d30780..30fe96b 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -289,7 +289,7 @@ def write_json(
         '{\n  "x": [0, 1]\n}'
     """
     txt = json.dumps(obj, **kwargs)
-    if flat_arrays and kwargs.get("indent") >= 0:
+    if flat_arrays and kwargs.get("indent") is not None:
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
         squished_sep = re.sub(r"\s", "", sep)
@@ -297,7 +297,12 @@ def write_json(
         def flatten(match: Match) -> str:
             return re.sub(squished_sep, sep, re.sub(r"\s", "", match.group(0)))
 
+        # Set strings aside to leave their contents unchanged
+        pattern = r'"(?:[^"\\]|\\.)*"'
+        strings = iter(re.findall(pattern, txt))
+        txt = re.sub(pattern, '""', txt)
         txt = re.sub(r"(\[\s*)+[^\]\{]*(\s*\])+", flatten, txt)
+        txt = re.sub('""', lambda match: next(strings), txt)
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 632621d27cdecdf0ffbee61095e37280be7b52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 027/113] fix: include the last image when splitting an
 observer

---
 src/glimpse/track/observer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 87fac3b..3be94f9 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -477,8 +477,9 @@ class Observer:
         if np.iterable(n):
             breaks = np.unique(np.hstack((n, self.datetimes[[0, -1]])))
         else:
-            dt = (self.datetimes[-1] - self.datetimes[0]) / n
-            breaks = helpers.datetime_range(self.datetimes[0], self.datetimes[-1], dt)
+            start, end = self.datetimes[[0, -1]]
+            # NOTE: Avoids accumulating the rounding (to microseconds) of a time step
+            breaks = [start + (end - start) * i / n for i in range(n + 1)]
         observers = []
         start = breaks[0]
         for i in range(len(breaks) - 1):
-- 
2.43.0


From 6f2cc620d3e9576d04cef7558acbeaf6375de6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 028/113] fix: draw residual resampling remainders in
 proportion to fractional weights

---
 src/glimpse/track/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 616e0e4..fb06f2d 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -193,7 +193,9 @@ class Tracker:
             # NOTE: Assumes weights sum to 1
             repetitions = (n * weights).astype(int)
             initial_indexes = np.repeat(np.arange(n), repetitions)
-            residuals = weights - repetitions
+            if len(initial_indexes) == n:
+                return initial_indexes
+            residuals = n * weights - repetitions
             residuals *= 1 / residuals.sum()
             cumulative_sum = np.cumsum(residuals)
             cumulative_sum[-1] = 1.0
-- 
2.43.0


From baa8d8b8851c37caaf12d102ecdf81c34dda2dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 029/113] fix: track with observers that match no datetimes

---
 src/glimpse/track/tracker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index fb06f2d..0dff744 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -292,7 +292,11 @@ class Tracker:
             observer_mask = np.ones((ntracks, len(self.observers)), dtype=bool)
         # Compute matching images
         matching_images = self.match_datetimes(datetimes=datetimes, maxdt=maxdt)
-        template_indices = np.not_equal(matching_images, None).argmax(axis=0)
+        is_matched = np.not_equal(matching_images, None)
+        # NOTE: Observers without any matching images are never initialized
+        template_indices = np.where(
+            is_matched.any(axis=0), is_matched.argmax(axis=0), -1
+        )
         # Cache matching images
         if ntracks > 1:
             for i, observer in enumerate(self.observers):
-- 
2.43.0


From 01538b08114ce211218dad3faf0e0729239f6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 030/113] fix: report errors of any class raised while tracking

---
 src/glimpse/track/tracker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 0dff744..2edee9d 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -369,9 +369,12 @@ class Tracker:
                 if errors:
                     raise e
                 else:
-                    error = e.__class__(
-                        "".join(traceback.format_exception(*sys.exc_info()))
-                    )
+                    message = "".join(traceback.format_exception(*sys.exc_info()))
+                    try:
+                        error = e.__class__(message)
+                    except Exception:
+                        # Exception class does not accept a single message
+                        error = RuntimeError(message)
             results = [means, sigmas, error, all_warnings]
             if reduce_particles:
                 results += [reduce_particles(particles, weights)]
-- 
2.43.0


From df1b8fc269e7f2bca977ced4e669c1db69b7bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 031/113] fix: keep warnings of tracks that end in an error

---
 src/glimpse/track/tracker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 2edee9d..690a4dd 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -319,6 +319,7 @@ class Tracker:
                 weights = np.full((ntimes, motion_model.n), np.nan)
             error = None
             all_warnings = None
+            caught = None
             try:
                 with warnings.catch_warnings(record=True) as caught:
                     # Skip datetimes before first and after last available image
@@ -361,8 +362,6 @@ class Tracker:
                         if return_particles:
                             particles[i] = self.particles
                             weights[i] = self.weights
-                if caught:
-                    all_warnings = tuple(caught)
             except Exception as e:
                 # traceback object cannot be pickled, so include in message
                 # TODO: Use tblib instead (https://stackoverflow.com/a/26096355)
@@ -375,6 +374,8 @@ class Tracker:
                     except Exception:
                         # Exception class does not accept a single message
                         error = RuntimeError(message)
+            if caught:
+                all_warnings = tuple(caught)
             results = [means, sigmas, error, all_warnings]
             if reduce_particles:
                 results += [reduce_particles(particles, weights)]
-- 
2.43.0


From 4f2217d64d36b23fa34b89c4b89e43a6575c04d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 032/113] fix: initialize motion models without elevation
 uncertainty

---
 src/glimpse/track/motion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20a7c96..a853643 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -136,7 +136,7 @@ class CartesianMotion(Motion):
         if not isinstance(dem, Raster):
             dem = Raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
+        if dem_sigma is not None and not isinstance(dem_sigma, Raster):
             dem_sigma = Raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
@@ -247,7 +247,7 @@ class CylindricalMotion(CartesianMotion):
         if not isinstance(dem, Raster):
             dem = Raster(dem)
         self.dem = dem
-        if not isinstance(dem_sigma, Raster):
+        if dem_sigma is not None and not isinstance(dem_sigma, Raster):
             dem_sigma = Raster(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
@@ -442,7 +442,7 @@ class TangentCylindricalMotion(Motion):
         xy: Iterable[Number],
         time_unit: datetime.timedelta,
         dem: Union[Number, Raster],
-        dem_sigma: Union[Number, Raster] = None,
+        dem_sigma: Union[Number, Raster] = 0,
         n: int = 1000,
         xy_sigma: Iterable[Number] = (0, 0),
         vrth: Iterable[Number] = (0, 0),
-- 
2.43.0


From 331f195081055dc7f1248184ddc70f81d1871733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 033/113] fix: evolve cylindrical motion of particles at rest

---
 src/glimpse/track/motion.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index a853643..83641bf 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -295,13 +295,16 @@ class CylindricalMotion(CartesianMotion):
         vx = particles[:, 3]
         vy = particles[:, 4]
         vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Direction is undefined (and thus set to zero) for particles at rest
+        ux = np.divide(vx, vr, out=np.zeros_like(vr), where=vr > 0)
+        uy = np.divide(vy, vr, out=np.zeros_like(vr), where=vr > 0)
         arthz = self.arthz + self.arthz_sigma * np.random.randn(n, 3)
         axyz = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arthz[:, 0] * (vx / vr) - vy * arthz[:, 1],
+                arthz[:, 0] * ux - vy * arthz[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arthz[:, 0] * (vy / vr) + vx * arthz[:, 1],
+                arthz[:, 0] * uy + vx * arthz[:, 1],
                 arthz[:, 2],
             )
         )
@@ -502,13 +505,16 @@ class TangentCylindricalMotion(Motion):
         vx = particles[:, 3]
         vy = particles[:, 4]
         vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Direction is undefined (and thus set to zero) for particles at rest
+        ux = np.divide(vx, vr, out=np.zeros_like(vr), where=vr > 0)
+        uy = np.divide(vy, vr, out=np.zeros_like(vr), where=vr > 0)
         arth = self.arth + self.arth_sigma * np.random.randn(n, 2)
         axy = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arth[:, 0] * (vx / vr) - vy * arth[:, 1],
+                arth[:, 0] * ux - vy * arth[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arth[:, 0] * (vy / vr) + vx * arth[:, 1],
+                arth[:, 0] * uy + vx * arth[:, 1],
             )
         )
         dxy = time_units * particles[:, 3:5] + 0.5 * axy * time_units ** 2
-- 
2.43.0


From 5bb24176ec0da4b9cb1f3f04640f8b90ec567e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 034/113] fix: shift image tiles without modifying cached
 images

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 3be94f9..fa204c0 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -167,7 +167,8 @@ class Observer:
         cu = np.arange(0.5, tile.shape[1])  # x|cols
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
-        tile = np.atleast_3d(tile)
+        # NOTE: Copy to avoid modifying a view of a cached image
+        tile = np.atleast_3d(tile).copy()
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
             tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-- 
2.43.0


From 5c20b2dfd0a089066b5681d271f422fc4dbdf478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 035/113] fix: apply SVG group transforms after those of their
 elements

---
 src/glimpse/svg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index a964de2..f6a377e 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -126,7 +126,8 @@ def read(
         tag = (e.get(key) if key else None) or e.tag
         d: Dict[str, Any] = {tag: {}}
         # Grow transform
-        transform += e.get("transform", "")
+        # NOTE: Applied before the transforms of parent elements
+        transform = e.get("transform", "") + transform
         # Parse coordinates
         if e.tag in ("image", "path", "polyline", "polygon", "line", "circle", "rect"):
             points = Points.from_element(e.tag, **e.attrib)
-- 
2.43.0


From 9c2c99ead141becb59b0c53ac517e546ef120dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 036/113] fix: parse SVG paths with leading whitespace or
 adjacent commands

---
 src/glimpse/svg.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index f6a377e..479d9a7 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -659,20 +659,10 @@ class Points:
     @classmethod
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
-        regex = {
-            "cmd": re.compile(r"[a-df-zA-DF-Z]+"),
-            "seq": re.compile(r"[^a-df-zA-DF-Z]+"),
-            "coord": COORD_REGEX,
-        }
-        commands = regex["cmd"].findall(d)
-        parameters = [
-            [_num(coord) for coord in regex["coord"].findall(seq)]
-            for seq in regex["seq"].findall(d)
-        ]
-        if commands and commands[-1] in ("Z", "z"):
-            parameters.append([])
+        regex = re.compile(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)")
         xy = []
-        for cmd, params in zip(commands, parameters):
+        for cmd, seq in regex.findall(d):
+            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
-- 
2.43.0


From e80d9fc40661a0ff64be81d6b22d60077b8cb5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 037/113] fix: close SVG subpaths at their own starting point

---
 src/glimpse/svg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 479d9a7..aed897a 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -661,8 +661,11 @@ class Points:
         # NOTE: Only vertices are preserved. All curvature information is discarded.
         regex = re.compile(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)")
         xy = []
+        start = 0
         for cmd, seq in regex.findall(d):
             params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            if cmd in ("M", "m"):
+                start = len(xy)
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
@@ -717,7 +720,8 @@ class Points:
                     xy.append((xy[-1][0] + dx, xy[-1][1] + dy))
             # closePath: Z | z
             elif cmd in ("Z", "z"):
-                xy.append(xy[0])
+                # Return to start of current subpath
+                xy.append(xy[start])
             else:
                 raise ValueError(f"Invalid command encountered: {cmd}")
         return cls(xy)
-- 
2.43.0


From 2774afc9e3dcc07afd64becaddc40c2571ffe7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 038/113] fix: write single points as SVG paths and polygons

---
 src/glimpse/svg.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index aed897a..7fa1ab5 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -586,7 +586,8 @@ class Points:
         return pts
 
     def _to_polygon(self) -> Polygon:
-        xy = self.xy[:-1] if self.closed() else self.xy
+        # NOTE: A single point is kept
+        xy = self.xy[:-1] if len(self.xy) > 1 and self.closed() else self.xy
         return {"points": self._xy_to_points(xy)}
 
     @classmethod
@@ -729,7 +730,8 @@ class Points:
     def _to_path(self) -> Path:
         # NOTE: Uses only moveTo (`M`), lineTo (`L`), and closePath (`Z`) if closed.
         commands = []
-        for i, xy in enumerate(self.xy[:-1] if self.closed() else self.xy):
+        closed = len(self.xy) > 1 and self.closed()
+        for i, xy in enumerate(self.xy[:-1] if closed else self.xy):
             x, y = xy
             if i == 0:
                 cmd = f"M {x},{y}"
@@ -738,7 +740,7 @@ class Points:
             else:
                 cmd = f"{x},{y}"
             commands.append(cmd)
-        if self.closed():
+        if closed:
             commands.append("Z")
         return {"d": " ".join(commands)}
 
-- 
2.43.0


From 501d9360b83c3ae453835feddc1ca017ba334070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 039/113] fix: draw every unique RANSAC sample

---
 src/glimpse/optimize.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2badb7a..a61e28c 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1,6 +1,7 @@
 """Optimize camera models to fit observations taken from images and the world."""
 import copyreg
 import datetime
+import math
 import os
 import sys
 from typing import Any, Dict, Iterable, List, Optional, Tuple, Type, Union
@@ -2167,14 +2168,8 @@ def _ransac_samples(n: int, size: int, iterations: int = 100) -> List[int]:
     """
     if n >= size:
         raise ValueError("Sample size is larger or equal to total size")
-    # Estimate factorial with log(gamma) to avoid overflow
-    log = (
-        np.math.lgamma(size + 1) - np.math.lgamma(n + 1) - np.math.lgamma(size - n + 1)
-    )
-    if log:
-        # Compute max iterations if no float overflow
-        max_iterations = np.floor(np.exp(log))
-        iterations = min(iterations, max_iterations)
+    # Limit iterations to the number of unique combinations
+    iterations = min(iterations, math.comb(size, n))
     samples = set()
     indices = np.arange(size)
     while len(samples) < iterations:
-- 
2.43.0


From 9a27c5a01e66cddaf01fe43d7eb2b140f86036f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:25 +0000
Subject: [PATCH 040/113] fix: filter all coordinates of rotation matches

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a61e28c..55297c7 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -734,7 +734,7 @@ class Matches:
         # HACK: Support for RotationMatches
         if self.uvs:
             self.uvs = [uv[selected] for uv in self.uvs]
-        else:
+        if getattr(self, "xys", None):
             self.xys = [xy[selected] for xy in self.xys]
         if self.weights is not None:
             self.weights = self.weights[selected]
-- 
2.43.0


From 06c75bb3bd81a13eb8c2dca207683b8ef68c3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 041/113] fix: initialize rotation matches without image
 coordinates

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 55297c7..7d70046 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -541,8 +541,8 @@ class Matches:
     def _test_matches(self) -> None:
         if self.cams[0] is self.cams[1]:
             raise ValueError("Both cameras are the same object")
-        # HACK: Support subclasses with xyzs and optional uvs
-        uvs = self.uvs or self.xyzs
+        # HACK: Support subclasses with xys and optional uvs
+        uvs = self.uvs or self.xys
         if len(self.cams) != 2 or len(uvs) != 2:
             raise ValueError(
                 "Cameras and point coordinates do not have two elements each"
-- 
2.43.0


From 57d53fd392d4ba2489d8cf13e137cc30fdceb39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 042/113] fix: match required images to later images

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7d70046..305eabd 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2506,7 +2506,8 @@ class KeypointMatcher:
         # Filter matched image pairs
         if imgs is not None:
             for i, m in enumerate(matching_images):
-                matching_images[i] = m[np.isin(m, imgs)]
+                if not np.isin(i, imgs):
+                    matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter:
-- 
2.43.0


From b22a7e12c0fcbca125c1c61765ba76a7055af8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 043/113] fix: store matches as an (n, n) matrix

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 305eabd..077b7cf 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2587,7 +2587,9 @@ class KeypointMatcher:
                 )
                 cols = np.concatenate(matching_images)
                 # HACK: Initialize with numeric data to avoid type errors
-                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)))
+                matches = scipy.sparse.coo_matrix(
+                    ([1] * len(data), (rows, cols)), shape=(n, n)
+                )
                 matches.data = data
         if clear_matches:
             self.matches = None
-- 
2.43.0


From 9d4a45c35b742716218d04349794daf637524154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 044/113] fix: ignore match filter when clearing matches

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 077b7cf..51e2a4a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2510,7 +2510,7 @@ class KeypointMatcher:
                     matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
-            if filter:
+            if filter and not clear_matches:
                 for match in matches:
                     if match:
                         match.filter(**filter)
-- 
2.43.0


From d8f00e829c3bf8d61a8b287238faac807989d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 045/113] fix: filter keypoint matches by distance when there
 are none

---
 src/glimpse/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 51e2a4a..272b537 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2270,8 +2270,10 @@ def match_keypoints(
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if max_ratio:
             matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches])
-        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches])
+        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches], dtype=float)
+        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches], dtype=float)
+        # Ensure correct shape if no matches
+        uva, uvb = uva.reshape(-1, 2), uvb.reshape(-1, 2)
         if return_ratios:
             ratios = np.array([m.distance / n.distance for m, n in matches])
         if max_distance:
-- 
2.43.0


From d6e6e660ef99c673cae70c82b3c6605a6aa52b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 046/113] fix: drop the keypoints of dropped images

---
 src/glimpse/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 272b537..5868456 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2735,6 +2735,8 @@ class KeypointMatcher:
         self.matches._shape = (n, n)
         # Remove dropped images
         self.images = np.delete(self.images, drop)
+        if self.keypoints is not None:
+            self.keypoints = [self.keypoints[i] for i in keep]
 
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
-- 
2.43.0


From 5a0f943fc6eb581cd532b029965360c9e2a457e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 047/113] fix: find match breaks with a minimum number of
 matches

---
 src/glimpse/optimize.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 5868456..7cbc071 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2741,14 +2741,8 @@ class KeypointMatcher:
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
         self._test_matches()
-        all_starts = np.arange(len(self.images) - 1)
-        starts, counts = np.unique(self.matches.row, return_counts=True)
-        breaks = np.setdiff1d(all_starts, starts)
-        if min_matches:
-            min_matches = np.minimum(
-                min_matches, len(self.images) - np.arange(len(self.images))
-            )
-            breaks = np.sort(
-                np.concatenate((breaks, np.where(counts < min_matches)[0]))
-            )
-        return breaks
+        n = len(self.images)
+        counts = np.bincount(self.matches.row, minlength=n)[: n - 1]
+        # NOTE: Images can only be matched to the images that follow
+        min_counts = np.minimum(max(min_matches, 1), n - 1 - np.arange(n - 1))
+        return np.where(counts < min_counts)[0]
-- 
2.43.0


From d56e5df6048af962bd2cfbeb5cfff37fb41e36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 048/113] fix: overwrite existing keypoints when requested

---
 src/glimpse/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7cbc071..443eccf 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2400,10 +2400,10 @@ class KeypointMatcher:
                 written = False
             keypoints = self.keypoints[i]
             read = keypoints is not None
-            if not read and written and not clear_keypoints:
+            if not overwrite and not read and written and not clear_keypoints:
                 # Read keypoints from file
                 keypoints = helpers.read_pickle(outpath)
-            elif read and not written and path:
+            elif not overwrite and read and not written and path:
                 # Write keypoints to file
                 helpers.write_pickle(keypoints, path=outpath)
             elif (not read and not written) or overwrite:
-- 
2.43.0


From 214512a64067a22111d7dd27a73fe68634bb21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 049/113] fix: set parameters of cameras that do not belong to
 a group

---
 src/glimpse/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 443eccf..4052fde 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1689,9 +1689,10 @@ class Cameras:
                 self.cams[j]._vector[self.group_masks[i]] = params[
                     self.group_breaks[i] : self.group_breaks[i + 1]
                 ]
-                self.cams[j]._vector[self.cam_masks[j]] = params[
-                    self.cam_breaks[j] : self.cam_breaks[j + 1]
-                ]
+        for j, cam in enumerate(self.cams):
+            cam._vector[self.cam_masks[j]] = params[
+                self.cam_breaks[j] : self.cam_breaks[j + 1]
+            ]
         if save:
             self.vectors = [cam.to_array() for cam in self.cams]
 
-- 
2.43.0


From b69b0df4125f34e2d51525070bfdaa24bfff4f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 050/113] fix: ignore camera parameters set to False

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 4052fde..8e92513 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1495,7 +1495,7 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if selection or selection == 0:
+                if selection is not False and (selection or selection == 0):
                     i = attributes.index(key)
                     if selection is True:
                         positions = range(indices[i], indices[i + 1])
-- 
2.43.0


From 68d86978c0d36a18d7c1688fa18555178a3f3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 051/113] fix: restore cameras if prediction fails

---
 src/glimpse/optimize.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 8e92513..57d9c73 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1731,20 +1731,18 @@ class Cameras:
             params: Parameter values (see :meth:`Cameras.set_cameras`).
             index: Indices of points to return.
         """
-        if params is not None:
-            vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
-        if len(self.controls) == 1:
-            result = self.controls[0].predicted(index=index)
-        else:
+        vectors = [cam.to_array() for cam in self.cams]
+        try:
+            if params is not None:
+                self.set_cameras(params)
+            if len(self.controls) == 1:
+                return self.controls[0].predicted(index=index)
             # TODO: Map index to subindices for each control
-            result = np.vstack([control.predicted() for control in self.controls])[
-                index
-            ]
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
-        return result
+            return np.vstack([control.predicted() for control in self.controls])[index]
+        finally:
+            if params is not None:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
 
     def residuals(
         self, params: FitParams = None, index: Index = slice(None)
-- 
2.43.0


From 7a1b53b72171b4b0132a0c550bb606cf95b7e654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 052/113] fix: fit cameras iteratively by group and with
 weights

---
 src/glimpse/optimize.py | 42 +++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 57d9c73..31a5470 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1812,6 +1812,28 @@ class Cameras:
                 by group or camera (group, cam0, cam1, ...),
                 then ordered by position in :meth:`Camera.to_array()`.
         """
+        iterations = max(
+            len(cam_params) if cam_params else 0,
+            len(group_params) if group_params else 0,
+        )
+        if iterations:
+            for n in range(iterations):
+                iter_cam_params = cam_params[n] if cam_params else self.cam_params
+                iter_group_params = (
+                    group_params[n] if group_params else self.group_params
+                )
+                model = Cameras(
+                    cams=self.cams,
+                    controls=self.controls,
+                    cam_params=iter_cam_params,
+                    group_indices=self.group_indices,
+                    group_params=iter_group_params,
+                    weights=self.weights,
+                )
+                values = model.fit(index=index, method=method, **kwargs)
+                if values is not None:
+                    model.set_cameras(params=values)
+            self.update_params()
         kwargs = {"nan_policy": "omit", **kwargs}
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
@@ -1837,26 +1859,6 @@ class Cameras:
             sys.stdout.write("\r" + str(err))
             sys.stdout.flush()
 
-        iterations = max(
-            len(cam_params) if cam_params else 0,
-            len(group_params) if group_params else 0,
-        )
-        if iterations:
-            for n in range(iterations):
-                iter_cam_params = cam_params[n] if cam_params else self.cam_params
-                iter_group_params = (
-                    group_params[n] if group_params else self.group_params
-                )
-                model = Cameras(
-                    cams=self.cams,
-                    controls=self.controls,
-                    cam_params=iter_cam_params,
-                    group_params=iter_group_params,
-                )
-                values = model.fit(index=index, method=method, **kwargs)
-                if values is not None:
-                    model.set_cameras(params=values)
-            self.update_params()
         result = lmfit.minimize(
             params=self.params,
             fcn=self.residuals,
-- 
2.43.0


From 45c0f19476291891437e4f3e6daeed923749d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:15 +0000
Subject: [PATCH 053/113] fix: restore cameras to their state before an
 iterative fit

---
 src/glimpse/optimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 31a5470..f8e6312 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1817,6 +1817,7 @@ class Cameras:
             len(group_params) if group_params else 0,
         )
         if iterations:
+            vectors = [cam.to_array() for cam in self.cams]
             for n in range(iterations):
                 iter_cam_params = cam_params[n] if cam_params else self.cam_params
                 iter_group_params = (
@@ -1869,7 +1870,9 @@ class Cameras:
         )
         sys.stdout.write("\n")
         if iterations:
-            self.reset_cameras()
+            # Restore state before fit (which may differ from that last saved)
+            for cam, vector in zip(self.cams, vectors):
+                cam._vector = vector
             self.update_params()
         if not result.success:
             print(result.message)
-- 
2.43.0


From 86b92d7ef1f5f7c6f2e12b654cd0aee6a3d9e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 054/113] fix: optimize observer view directions with current
 scipy

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f8e6312..17e6093 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2076,7 +2076,7 @@ class ObserverCameras:
             return objective, gradients.ravel()
 
         # Optimize camera view directions
-        viewdirs_0 = [img.cam.viewdir for img in self.observer.images]
+        viewdirs_0 = np.concatenate([img.cam.viewdir for img in self.observer.images])
         result = scipy.optimize.minimize(
             fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
         )
-- 
2.43.0


From fe6eed9326413e4fe5c8dec1c79af3b90fbba483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 055/113] fix: supplement partial camera parameters with image
 metadata

---
 src/glimpse/image.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index d12a893..9daf644 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -94,12 +94,13 @@ class Image:
             cam = {}
         if isinstance(cam, dict):
             if not (
-                "imgsz" in cam and "f" in cam or ("fmm" in cam and "sensorsz" in cam)
+                "imgsz" in cam and ("f" in cam or ("fmm" in cam and "sensorsz" in cam))
             ):
                 exif = exif or Exif(path)
                 cam = {
                     "imgsz": exif.imgsz,
-                    "fmm": exif.fmm,
+                    # Focal length cannot be both in pixels and millimeters
+                    **({} if "f" in cam else {"fmm": exif.fmm}),
                     "sensorsz": exif.sensorsz,
                     **cam,
                 }
-- 
2.43.0


From dca7376dc71444e761add6cbcdd1482c48da81a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:38 +0000
Subject: [PATCH 056/113] fix: compute distances between datetimes exactly

---
 src/glimpse/helpers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 30fe96b..2b95474 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1581,10 +1581,13 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to POSIX timestamps (seconds since 1970-01-01 00:00:00 UTC)
-    x = [xi.timestamp() for xi in x]
-    y = [yi.timestamp() for yi in y]
-    return pairwise_distance(x, y, metric="minkowski", p=1)
+    # Convert datetimes to microseconds since the first datetime
+    # NOTE: Exact, unlike POSIX timestamps, whose differences are subject to rounding
+    origin = x[0]
+    microsecond = datetime.timedelta(microseconds=1)
+    x = [(xi - origin) / microsecond for xi in x]
+    y = [(yi - origin) / microsecond for yi in y]
+    return pairwise_distance(x, y, metric="minkowski", p=1) / 1e6
 
 
 def datetime_range(
-- 
2.43.0


From f2deb2459d2fcf767382dff453a4d6a0bb591837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 057/113] fix: do not estimate tracks of observers without any
 matching images

---
 src/glimpse/track/tracker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 690a4dd..3a6a56d 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -330,6 +330,8 @@ class Tracker:
                     ).any(axis=1)
                     first = np.argmax(observed)
                     last = len(observed) - 1 - np.argmax(observed[::-1])
+                    if not observed.any():
+                        last = first - 1
                     for i in range(first, last + 1):
                         if i == first:
                             self.particles = motion_model.initialize_particles()
-- 
2.43.0


From 0e73576acbe5634878c04df162b6e82588299449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 058/113] fix: keep warnings of tracks that differ in their
 number of warnings

---
 src/glimpse/track/tracks.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ce7fb73..43c54b9 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -85,7 +85,13 @@ class Tracks:
         self.images = images if images is None else np.asarray(images)
         self.params = params
         self.errors = errors if errors is None else np.asarray(errors)
-        self.warnings = warnings if warnings is None else np.asarray(warnings)
+        if warnings is not None:
+            # NOTE: Tracks may differ in their number of warnings
+            array = np.empty(len(warnings), dtype=object)
+            for i, values in enumerate(warnings):
+                array[i] = values
+            warnings = array
+        self.warnings = warnings
 
     @property
     def xyz(self) -> np.ndarray:
-- 
2.43.0


From e05466b4bbd5312bac7fbb06f9ad1b49b27301cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 059/113] fix: report warnings of tracks tracked in parallel

---
 src/glimpse/track/tracker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 3a6a56d..d866845 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -307,6 +307,8 @@ class Tracker:
         bar = helpers._progress_bar(max=ntracks)
         ntimes = len(datetimes)
         dts = np.diff(datetimes)
+        # NOTE: Parallel backends may ignore warnings unless filters are restored
+        filters = list(warnings.filters)
 
         def process(motion_model: Motion, observer_mask: np.ndarray) -> list:
             means = np.full((ntimes, 6), np.nan)
@@ -322,6 +324,7 @@ class Tracker:
             caught = None
             try:
                 with warnings.catch_warnings(record=True) as caught:
+                    warnings.filters[:] = filters
                     # Skip datetimes before first and after last available image
                     # NOTE: Track thus starts from initial particle state at first
                     # available image
-- 
2.43.0


From 3a35a933946c52c6872fad782ce1468812185b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 060/113] fix: apply constant surfaces of motion models
 everywhere

---
 src/glimpse/track/motion.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 83641bf..c461635 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,6 +10,11 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _constant_surface(value: Number) -> Raster:
+    """Build a surface with the same value everywhere."""
+    return Raster(value, x=(-np.inf, np.inf), y=(-np.inf, np.inf))
+
+
 class Motion:
     """
     Illustration of the motion model interface required by :class:`Tracker`.
@@ -134,10 +139,10 @@ class CartesianMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_surface(dem)
         self.dem = dem
         if dem_sigma is not None and not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_surface(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -245,10 +250,10 @@ class CylindricalMotion(CartesianMotion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_surface(dem)
         self.dem = dem
         if dem_sigma is not None and not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_surface(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -366,10 +371,10 @@ class TangentCartesianMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_surface(dem)
         self.dem = dem
         if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_surface(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
@@ -457,10 +462,10 @@ class TangentCylindricalMotion(Motion):
         self.xy = xy
         self.time_unit = time_unit
         if not isinstance(dem, Raster):
-            dem = Raster(dem)
+            dem = _constant_surface(dem)
         self.dem = dem
         if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
+            dem_sigma = _constant_surface(dem_sigma)
         self.dem_sigma = dem_sigma
         self.n = n
         self.xy_sigma = xy_sigma
-- 
2.43.0


From be269a797600ba39bb4e0459bbbc8a2a8dbe767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 061/113] fix: sample rasters as numbers with a decimal part
 when filling

---
 src/glimpse/raster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 36c172a..7f6c528 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -998,7 +998,9 @@ class Raster(Grid):
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
+                samples = np.full(
+                    (len(xy[1]), len(xy[0])), self.array.flat[0], dtype=float
+                )
             if has_fill:
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
@@ -1006,7 +1008,7 @@ class Raster(Grid):
         else:
             # Sample at points
             if has_fill:
-                samples = np.full(len(xy), fill_value)
+                samples = np.full(len(xy), fill_value, dtype=float)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
                 self.Zf.bounds_error = False
-- 
2.43.0


From 301255d4c7c3dcaefdd05c07541480d0177cc870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:23 +0000
Subject: [PATCH 062/113] fix: search all of the image region compared with
 subpixel templates

---
 src/glimpse/track/tracker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index d866845..16a7e38 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -595,7 +595,11 @@ class Tracker:
         size = np.asarray(self.templates[obs]["tile"].shape[0:2][::-1])
         uv = self.observers[obs].xyz_to_uv(self.particles[:, 0:3], img=img)
         halfsize = size * 0.5
-        box = np.row_stack((uv.min(axis=0) - halfsize, uv.max(axis=0) + halfsize))
+        # (shifted by subpixel offset of template tile)
+        centers = uv - self.templates[obs]["duv"]
+        box = np.row_stack(
+            (centers.min(axis=0) - halfsize, centers.max(axis=0) + halfsize)
+        )
         # Enlarge box to ensure SSE has cols, rows (ky + 1, kx + 1) for interpolation
         ky = self.interpolation.get("ky", 3)
         ncols = ky - (np.diff(box[:, 0]) - size[0])
-- 
2.43.0


From f8282f387346f7d189c1ae1363b5dbc661ccdd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 063/113] fix: cache the full raster when reading part of it

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 7f6c528..179b103 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -811,7 +811,7 @@ class Raster(Grid):
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None:
+            if box is not None and not cache:
                 # Convert box coordinates to source coordinates
                 scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
                     (kwargs["buf_xsize"], kwargs["buf_ysize"])
-- 
2.43.0


From 653cddfc2779be160f050c6606cbd2b285934911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 064/113] fix: subset rasters by the last or reversed rows and
 columns

---
 src/glimpse/raster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 179b103..28119be 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -679,13 +679,13 @@ class Raster(Grid):
             raise IndexError("Only integers and slices are valid indices")
         i, j = indices[0], indices[1]
         if not isinstance(i, slice):
-            i = slice(i, i + 1)
+            i = slice(i, i + 1 if i != -1 else None)
         if not isinstance(j, slice):
-            j = slice(j, j + 1)
+            j = slice(j, j + 1 if j != -1 else None)
         d = self.d
-        if i.step and i.step > 1:
+        if i.step:
             d[1] *= i.step
-        if j.step and j.step > 1:
+        if j.step:
             d[0] *= j.step
         x, y = self.x[j], self.y[i]
         if len(x) < 3:
-- 
2.43.0


From ef094aaa062508cce3d316040b27cd59fae8eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:17 +0000
Subject: [PATCH 065/113] fix: illuminate rasters from the stated side of North

---
 src/glimpse/raster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 28119be..67e348b 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1267,7 +1267,8 @@ class Raster(Grid):
                 :meth:`matplotlib.colors.LightSource.hillshade`.
         """
         light = matplotlib.colors.LightSource(azdeg=azimuth, altdeg=altitude)
-        return light.hillshade(self.array, dx=self.d[0], dy=self.d[1], **kwargs)
+        # NOTE: matplotlib expects positive dy for y coordinates decreasing with row
+        return light.hillshade(self.array, dx=self.d[0], dy=-self.d[1], **kwargs)
 
     def fill_crevasses(
         self,
-- 
2.43.0


From 907372af8fe476fdb2032f5cfcd5e41a953a2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 066/113] fix: crop integer rasters with all values within zlim

---
 src/glimpse/raster.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 67e348b..375df34 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1180,13 +1180,12 @@ class Raster(Grid):
             self.ylim = ylim
         if zlim is not None:
             outbounds = (self.array < min(zlim)) | (self.array > max(zlim))
-            if np.count_nonzero(outbounds) and not issubclass(
-                self.array.dtype.type, np.floating
-            ):
-                warnings.warn("array cast to float to accommodate NaN")
-                self.array = self.array.astype(float)
-            self.array[outbounds] = np.nan
-            self._clear_cache(["Zf"])
+            if np.count_nonzero(outbounds):
+                if not issubclass(self.array.dtype.type, np.floating):
+                    warnings.warn("array cast to float to accommodate NaN")
+                    self.array = self.array.astype(float)
+                self.array[outbounds] = np.nan
+                self._clear_cache(["Zf"])
 
     def resize(self, scale: Number, order: int = 1) -> None:
         """
-- 
2.43.0


From 18d4e1f5508704c5492e9f2abcdc5f31dd3749fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 067/113] fix: missing samples extrapolated between missing
 cells

---
 src/glimpse/raster.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 375df34..88729eb 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1078,7 +1078,19 @@ class Raster(Grid):
         array[is_nan] = 0 if is_nan.all() else np.nanmean(array)
         samples = evaluate(array, kx=kx, ky=ky, s=s)
         # Samples are missing if any of the surrounding cells are missing
-        samples[np.abs(evaluate(is_nan.astype(float), kx=1, ky=1)) > 1e-9] = np.nan
+
+        def weigh(xi: np.ndarray, x: Iterable[Number]) -> np.ndarray:
+            # Linear weight (magnitude) of each cell center
+            i = np.clip(np.searchsorted(xi, x, side="right") - 1, 0, len(xi) - 2)
+            w = (x - xi[i]) / (xi[i + 1] - xi[i])
+            weights = np.zeros((len(w), len(xi)))
+            weights[np.arange(len(w)), i] = np.abs(1 - w)
+            weights[np.arange(len(w)), i + 1] = np.abs(w)
+            return weights
+
+        xw, yw = weigh(self.x[:: signs[0]], x), weigh(self.y[:: signs[1]], y)
+        is_missing = yw @ is_nan[:: signs[1], :: signs[0]] @ xw.T > 1e-9
+        samples[is_missing] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From 0a4f03163d8f80825d56bbd422254c04ec9b99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 068/113] fix: snap coordinates to the right cell despite
 rounding errors

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 88729eb..08bd303 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -498,7 +498,7 @@ class Grid:
         origin = np.append(self.xlim[0], self.ylim[0])
         colrow = (xy - origin) / self.d - 0.5
         if snap:
-            colrow = colrow.astype(int)
+            colrow = np.round(colrow).astype(int)
         return colrow[:, ::-1]
 
     def rowcol_to_idx(self, rowcol: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 08bd6e2f27fb56c8675a3c795827c9659f831c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 069/113] fix: count cells of the target size despite rounding
 errors when reading rasters

---
 src/glimpse/raster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 08bd303..5d59b4e 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -211,8 +211,8 @@ class Grid:
         win_xsize = (cols[1] - cols[0]) + 1
         win_ysize = (rows[1] - rows[0]) + 1
         if d:
-            buf_xsize = int(np.ceil(abs(win_xsize * grid.d[0] / d)))
-            buf_ysize = int(np.ceil(abs(win_ysize * grid.d[1] / d)))
+            buf_xsize = int(np.ceil(np.round(abs(win_xsize * grid.d[0] / d), 6)))
+            buf_ysize = int(np.ceil(np.round(abs(win_ysize * grid.d[1] / d), 6)))
         else:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
@@ -736,8 +736,8 @@ class Raster(Grid):
         win_xsize = (cols[1] - cols[0]) + 1
         win_ysize = (rows[1] - rows[0]) + 1
         if d:
-            buf_xsize = np.ceil(abs(win_xsize * grid.d[0] / d))
-            buf_ysize = np.ceil(abs(win_ysize * grid.d[1] / d))
+            buf_xsize = np.ceil(np.round(abs(win_xsize * grid.d[0] / d), 6))
+            buf_ysize = np.ceil(np.round(abs(win_ysize * grid.d[1] / d), 6))
         else:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
-- 
2.43.0


From b6e55b716a0ab7c64e4027225bc2446271514b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:41 +0000
Subject: [PATCH 070/113] fix: interpolate uncertainty on the grid of the mean
 rasters

---
 src/glimpse/raster.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 5d59b4e..ccbc2c5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1791,10 +1791,18 @@ class RasterInterpolant:
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-            if sigmas[0].grid != sigmas[1].grid:
-                if sigmas[1] is self.sigmas[ij[1]]:
-                    sigmas[1] = sigmas[1].copy()
-                sigmas[1].resample(sigmas[0])
+            for k in range(2):
+                # Match the mean rasters, unless both or this are infinite (number)
+                obj = 0 if self.sigmas is None else self.sigmas[ij[k]]
+                if (
+                    isinstance(obj, numbers.Number)
+                    or not np.isfinite(means[0].d).all()
+                    or sigmas[k].grid == means[0].grid
+                ):
+                    continue
+                if sigmas[k] is obj:
+                    sigmas[k] = sigmas[k].copy()
+                sigmas[k].resample(means[0])
         else:
             sigmas = None
         # Interpolate
-- 
2.43.0


From d31446d839e633b5be873f4707e6f9928bcb8663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 071/113] fix: interpolate rasters of integers without overflow

---
 src/glimpse/raster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ccbc2c5..ecf479f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1702,7 +1702,11 @@ class RasterInterpolant:
         sigmas: Iterable[Raster] = None,
     ) -> Union[Raster, Tuple[Raster, Raster]]:
         """Interpolate between two rasters."""
-        dz = means[1].array - means[0].array
+        dtype = np.result_type(means[0].array, means[1].array)
+        if not np.issubdtype(dtype, np.floating):
+            # Avoid overflow of integers
+            dtype = float
+        dz = np.subtract(means[1].array, means[0].array, dtype=dtype)
         dx = x[1] - x[0]
         # Rasters are the same if xi is the coordinate of a raster
         scale = (xi - x[0]) / dx if dx else 0
-- 
2.43.0


From 09fdf4b4a3eefe9a1c512c0d11962a80e90c42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:05 +0000
Subject: [PATCH 072/113] fix: format lists without extending the list given

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 2b95474..06fbed0 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -62,7 +62,8 @@ def format_list(
         return x
     if not np.iterable(x):
         x = [x]
-    elif not isinstance(x, list):
+    else:
+        # Copy, since lists are extended in place below
         x = list(x)
     if length:
         nx = len(x)
-- 
2.43.0


From 48dbcaf760a97d955bc8cd6c6c6fe0588de10afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 073/113] fix: test whether points are in front of the camera
 with its elevation corrections

---
 src/glimpse/camera.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 88cb417..2bd737e 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -672,6 +672,10 @@ class Camera:
             array([False, True, False, False])
         """
         dxyz = xyz if directions else xyz - self.xyz
+        if not directions and isinstance(self.correction, dict):
+            dxyz[:, 2] += helpers.elevation_corrections(
+                np.sum(dxyz[:, 0:2] ** 2, axis=1), **self.correction
+            )
         z = np.dot(dxyz, self.R.T[:, 2])
         return z > 0
 
-- 
2.43.0


From fa1d4be2fa86a234db589d35d393efcdb827b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:38 +0000
Subject: [PATCH 074/113] fix: project images into cameras up to the edges of
 their frame

---
 src/glimpse/image.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 9daf644..1000419 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -333,8 +333,13 @@ class Image:
         uv = np.column_stack((U.flatten(), V.flatten()))
         # Project grid out target image
         dxyz = cam.uv_to_xyz(uv)
-        # Project target grid onto source image (flip for RegularGridInterpolator)
-        pvu = np.fliplr(self.cam.xyz_to_uv(dxyz, directions=True))
+        # Project target grid onto source image
+        puv = self.cam.xyz_to_uv(dxyz, directions=True)
+        # Sample the outer half of edge pixels at their centers
+        inframe = self.cam.inframe(puv)
+        puv[inframe] = np.clip(puv[inframe], 0.5, self.cam.imgsz - 0.5)
+        # Flip for RegularGridInterpolator
+        pvu = np.fliplr(puv)
         # Construct grid in source image
         if cam.imgsz[0] == self.cam.imgsz[0]:
             pu = u
-- 
2.43.0


From ba11181fcc88029e34de7b59f61e1b9e8fcb9591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:43 +0000
Subject: [PATCH 075/113] fix: round rather than truncate interpolated integers
 when projecting images

---
 src/glimpse/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 1000419..1afa871 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -361,5 +361,8 @@ class Image:
             f = scipy.interpolate.RegularGridInterpolator(
                 (pv, pu), array[:, :, i], method=method, bounds_error=False
             )
-            projected[:, :, i] = f(pvu).reshape(projected.shape[0:2])
+            values = f(pvu)
+            if np.issubdtype(array.dtype, np.integer):
+                values = np.round(values)
+            projected[:, :, i] = values.reshape(projected.shape[0:2])
         return projected
-- 
2.43.0


From 5d828ecd1526b4d12a381f22f6ba5e3934256f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 076/113] fix: select and bound camera parameters only within
 the attribute requested

---
 src/glimpse/optimize.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 17e6093..7946b56 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1497,19 +1497,19 @@ class Cameras:
                     selection = value
                 if selection is not False and (selection or selection == 0):
                     i = attributes.index(key)
-                    if selection is True:
-                        positions = range(indices[i], indices[i + 1])
-                    else:
-                        positions = indices[i] + np.atleast_1d(selection)
+                    # NOTE: Index within attribute to support negative indices
+                    positions = np.arange(indices[i], indices[i + 1])
+                    if selection is not True:
+                        positions = positions[np.atleast_1d(selection)]
                     mask[positions] = True
-                if isinstance(value, tuple):
-                    min_bounds = np.atleast_1d(value[1])
-                    if len(min_bounds) == 1:
-                        min_bounds = np.repeat(min_bounds, len(positions))
-                    max_bounds = np.atleast_1d(value[2])
-                    if len(max_bounds) == 1:
-                        max_bounds = np.repeat(max_bounds, len(positions))
-                    bounds[positions] = np.column_stack((min_bounds, max_bounds))
+                    if isinstance(value, tuple):
+                        min_bounds = np.atleast_1d(value[1])
+                        if len(min_bounds) == 1:
+                            min_bounds = np.repeat(min_bounds, len(positions))
+                        max_bounds = np.atleast_1d(value[2])
+                        if len(max_bounds) == 1:
+                            max_bounds = np.repeat(max_bounds, len(positions))
+                        bounds[positions] = np.column_stack((min_bounds, max_bounds))
         if default_bounds is not None:
             missing_min = (bounds[:, 0] is None) | (np.isnan(bounds[:, 0]))
             missing_max = (bounds[:, 1] is None) | (np.isnan(bounds[:, 1]))
-- 
2.43.0


From 48d382f6db0b8e21fa53a9ae67d2c69387d27440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:16 +0000
Subject: [PATCH 077/113] fix: restore cameras if an iterated fit fails

---
 src/glimpse/optimize.py | 46 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7946b56..cc52f38 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1818,23 +1818,30 @@ class Cameras:
         )
         if iterations:
             vectors = [cam.to_array() for cam in self.cams]
-            for n in range(iterations):
-                iter_cam_params = cam_params[n] if cam_params else self.cam_params
-                iter_group_params = (
-                    group_params[n] if group_params else self.group_params
-                )
-                model = Cameras(
-                    cams=self.cams,
-                    controls=self.controls,
-                    cam_params=iter_cam_params,
-                    group_indices=self.group_indices,
-                    group_params=iter_group_params,
-                    weights=self.weights,
-                )
-                values = model.fit(index=index, method=method, **kwargs)
-                if values is not None:
-                    model.set_cameras(params=values)
-            self.update_params()
+            try:
+                for n in range(iterations):
+                    iter_cam_params = cam_params[n] if cam_params else self.cam_params
+                    iter_group_params = (
+                        group_params[n] if group_params else self.group_params
+                    )
+                    model = Cameras(
+                        cams=self.cams,
+                        controls=self.controls,
+                        cam_params=iter_cam_params,
+                        group_indices=self.group_indices,
+                        group_params=iter_group_params,
+                        weights=self.weights,
+                    )
+                    values = model.fit(index=index, method=method, **kwargs)
+                    if values is not None:
+                        model.set_cameras(params=values)
+                self.update_params()
+                return self.fit(index=index, full=full, method=method, **kwargs)
+            finally:
+                # Restore state before fit (which may differ from that last saved)
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
+                self.update_params()
         kwargs = {"nan_policy": "omit", **kwargs}
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
@@ -1869,11 +1876,6 @@ class Cameras:
             **kwargs
         )
         sys.stdout.write("\n")
-        if iterations:
-            # Restore state before fit (which may differ from that last saved)
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
-            self.update_params()
         if not result.success:
             print(result.message)
         if full:
-- 
2.43.0


From 40be947530684b421e5631a8d3a470161d19d266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:28 +0000
Subject: [PATCH 078/113] fix: restore observer cameras to their state before
 the fit

---
 src/glimpse/optimize.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index cc52f38..7316fbb 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2079,10 +2079,13 @@ class ObserverCameras:
 
         # Optimize camera view directions
         viewdirs_0 = np.concatenate([img.cam.viewdir for img in self.observer.images])
-        result = scipy.optimize.minimize(
-            fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
-        )
-        self.reset_cameras()
+        try:
+            result = scipy.optimize.minimize(
+                fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
+            )
+        finally:
+            # Restore state before fit (which may differ from the original)
+            self.set_cameras(viewdirs=viewdirs_0.reshape(-1, 3))
         if not result.success:
             sys.stdout.write("\n")  # new line
             print(result.message)
-- 
2.43.0


From ea98c14a5da352baeaea6516f85a81953a1c49ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:06 +0000
Subject: [PATCH 079/113] fix: fit a single camera parameter without the sparse
 solver

---
 src/glimpse/optimize.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7316fbb..ac9b227 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1849,7 +1849,12 @@ class Cameras:
         if method == "least_squares":
             if self.scales is not None and "x_scale" not in kwargs:
                 kwargs["x_scale"] = self.scales
-            if self.sparsity is not None and "jac_sparsity" not in kwargs:
+            # NOTE: Sparse (lsmr) solver of scipy fails with a single parameter
+            if (
+                self.sparsity is not None
+                and len(self.params) > 1
+                and "jac_sparsity" not in kwargs
+            ):
                 if isinstance(index, slice) and index == slice(None):
                     kwargs["jac_sparsity"] = self.sparsity
                 else:
-- 
2.43.0


From eed2ca602bdac2310058c2c392c8b5a382326824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 080/113] fix: match keypoints that are identical to more than
 one

---
 src/glimpse/optimize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index ac9b227..1135f22 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2282,14 +2282,19 @@ def match_keypoints(
             matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask)
             ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
+        if compute_ratios:
+            # NOTE: Distances are zero if both match exactly
+            ratios = np.array(
+                [m.distance / n.distance if n.distance else 1.0 for m, n in matches]
+            )
         if max_ratio:
-            matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
+            selected = ratios < max_ratio
+            matches = [m for m, keep in zip(matches, selected) if keep]
+            ratios = ratios[selected]
         uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches], dtype=float)
         uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches], dtype=float)
         # Ensure correct shape if no matches
         uva, uvb = uva.reshape(-1, 2), uvb.reshape(-1, 2)
-        if return_ratios:
-            ratios = np.array([m.distance / n.distance for m, n in matches])
         if max_distance:
             valid = np.linalg.norm(uva - uvb, axis=1) < max_distance
             uva, uvb = uva[valid], uvb[valid]
-- 
2.43.0


From 34de15a677dd7a93945e27ce12f2cb48a7a178f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:57 +0000
Subject: [PATCH 081/113] fix: match keypoints within the pixel mask

---
 src/glimpse/optimize.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1135f22..a4218ca 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2237,6 +2237,17 @@ def detect_keypoints(
     return keypoints, descriptors
 
 
+def _mask_keypoints(
+    keypoints: Tuple[List[cv2.KeyPoint], np.ndarray], mask: np.ndarray
+) -> Tuple[List[cv2.KeyPoint], np.ndarray]:
+    """Return the keypoints (and descriptors) in the pixel regions of a mask."""
+    # NOTE: As in cv2, pixel centers have integer coordinates
+    valid = [mask[int(k.pt[1] + 0.5), int(k.pt[0] + 0.5)] > 0 for k in keypoints[0]]
+    if all(valid):
+        return keypoints
+    return [k for k, keep in zip(keypoints[0], valid) if keep], keypoints[1][valid]
+
+
 def match_keypoints(
     ka: Tuple[List[cv2.KeyPoint], np.ndarray],
     kb: Tuple[List[cv2.KeyPoint], np.ndarray],
@@ -2274,12 +2285,13 @@ def match_keypoints(
     """
     if mask is not None:
         mask = np.asarray(mask, dtype=np.uint8)
+        ka, kb = _mask_keypoints(ka, mask), _mask_keypoints(kb, mask)
     compute_ratios = max_ratio or return_ratios
     n = 2 if compute_ratios else 1
     if len(ka[0]) >= n and len(kb[0]) >= n:
-        matches = matcher.knnMatch(ka[1], kb[1], k=n, mask=mask)
+        matches = matcher.knnMatch(ka[1], kb[1], k=n)
         if cross_check:
-            matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask)
+            matches_ba = matcher.knnMatch(kb[1], ka[1], k=n)
             ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if compute_ratios:
-- 
2.43.0


From 7499cde37a6587265e2dff48ea00846b90d847ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:08 +0000
Subject: [PATCH 082/113] fix: match images with an empty sequence of neighbors

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index a4218ca..003b304 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2530,7 +2530,7 @@ class KeypointMatcher:
             matching_images = [np.array([], dtype=int) for i in range(n)]
         # Add match sequence
         if seq is not None:
-            seq = np.asarray(seq)
+            seq = np.asarray(seq, dtype=int)
             seq = np.unique(seq[seq > 0])
             for i, m in enumerate(matching_images):
                 iseq = seq + i
-- 
2.43.0


From 4ca5ad8627d3567857b1c178b0a8d014e0ba6f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:28 +0000
Subject: [PATCH 083/113] fix: filter normalized matches by distances in the
 image

---
 src/glimpse/optimize.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 003b304..d6475e6 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -713,11 +713,17 @@ class Matches:
                 selected &= self.weights >= min_weight
         ci = self._cam_index(cam)
         co = 0 if ci else 1
+        matches = self
+        if isinstance(self, RotationMatchesXY) and (max_error or max_distance):
+            # NOTE: Limits apply to image (not normalized camera) coordinates
+            self._test_internals()
+            matches = self.to_type(Matches)
         if max_error:
             if scaled:
                 max_error = max_error * self.cams[ci].imgsz[0]
             errors = np.linalg.norm(
-                self.observed(ci, index=selected) - self.predicted(ci, index=selected),
+                matches.observed(ci, index=selected)
+                - matches.predicted(ci, index=selected),
                 axis=1,
             )
             selected[selected] &= errors <= max_error
@@ -726,8 +732,8 @@ class Matches:
                 max_distance = max_distance * self.cams[ci].imgsz[0]
             scale = self.cams[ci].imgsz / self.cams[co].imgsz
             distances = np.linalg.norm(
-                self.observed(co, index=selected) * scale
-                - self.observed(ci, index=selected),
+                matches.observed(co, index=selected) * scale
+                - matches.observed(ci, index=selected),
                 axis=1,
             )
             selected[selected] &= distances <= max_distance
-- 
2.43.0


From cca36306580266db32fb5da86f68ba06d19de9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:03 +0000
Subject: [PATCH 084/113] fix: apply SVG transforms with whitespace before
 parentheses

---
 src/glimpse/svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 7fa1ab5..fd49c0d 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -552,7 +552,7 @@ class Points:
             ValueError: Unsupported (or invalid) transform function: magic
         """
         points = self
-        for func, params in re.findall(r"([A-Za-z]+)\(([^\)]*)\)", transform):
+        for func, params in re.findall(r"([A-Za-z]+)\s*\(([^\)]*)\)", transform):
             method = getattr(points, func, None)
             if not method:
                 raise ValueError(f"Unsupported (or invalid) transform function: {func}")
-- 
2.43.0


From 7b28feb84061d1ceaf515c70a72dc80d60a7e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:07 +0000
Subject: [PATCH 085/113] fix: parse SVG arcs with adjacent flags

---
 src/glimpse/svg.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index fd49c0d..4d578b9 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -24,6 +24,11 @@ Path = TypedDict("Path", {"d": str})
 COORD_REGEX = re.compile(
     r"(?:\+|\-)?(?:\.[0-9]+|[0-9]+(?:\.[0-9]+)?)(?:[Ee][+-]?[0-9]+)?"
 )
+# NOTE: Arc flags may be followed by other numbers without a separator
+ARC_REGEX = re.compile(
+    r"[\s,]*".join([f"({COORD_REGEX.pattern})"] * 3 + ["([01])"] * 2)
+    + "".join([rf"[\s,]*({COORD_REGEX.pattern})"] * 2)
+)
 
 
 def _strip_etree_namespaces(tree: ET.ElementTree) -> None:
@@ -664,7 +669,11 @@ class Points:
         xy = []
         start = 0
         for cmd, seq in regex.findall(d):
-            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            if cmd in ("A", "a"):
+                coords = [coord for arc in ARC_REGEX.findall(seq) for coord in arc]
+            else:
+                coords = COORD_REGEX.findall(seq)
+            params = [_num(coord) for coord in coords]
             if cmd in ("M", "m"):
                 start = len(xy)
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
-- 
2.43.0


From ac814007f2552d9c1ab00a715b9a4f3115553171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:03 +0000
Subject: [PATCH 086/113] fix: optimize single parameters of external cameras

---
 src/glimpse/convert/converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 90c3cb3..6e71bb5 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -115,7 +115,11 @@ class Converter:
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
         # Drop empty params and normalize value as a numpy index
-        indices = {k: slice(None) if v is True else v for k, v in params.items() if v}
+        indices = {
+            k: slice(None) if v is True else np.atleast_1d(v).astype(int)
+            for k, v in params.items()
+            if v is not False and v is not None
+        }
         x0 = []
         for key, idx in indices.items():
             value = np.atleast_1d(getattr(self.xcam, key))
-- 
2.43.0


From ccb0a9cfcb72f5a3044b988b68927eb8e4084672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:07 +0000
Subject: [PATCH 087/113] fix: compare cameras at few points in elongated
 images

---
 src/glimpse/convert/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 6e71bb5..3c8da93 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -56,9 +56,9 @@ class Converter:
         d = np.sqrt(area / n)
         # Place points such that spacing to edge is half of interpoint spacing
         # - | -- | -- | -- | -
-        dx = imgsz[0] / round(imgsz[0] / d)
+        dx = imgsz[0] / max(round(imgsz[0] / d), 1)
         x = np.arange(0.5 * dx, imgsz[0], dx)
-        dy = imgsz[1] / round(imgsz[1] / d)
+        dy = imgsz[1] / max(round(imgsz[1] / d), 1)
         y = np.arange(0.5 * dy, imgsz[1], dy)
         return np.reshape(np.meshgrid(x, y), (2, -1)).T
 
-- 
2.43.0


From d3be0d8230504f01fa75c1722d47d33956d24c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:54 +0000
Subject: [PATCH 088/113] fix: clip lines that leave from the side of a box

---
 src/glimpse/helpers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 06fbed0..f84253f 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -779,9 +779,10 @@ def intersect_edge_box(
         0.5
     """
     distance = np.asarray(distance).reshape(1, -1)
-    t = np.nanmin(intersect_rays_box(origin, distance, box, t=True))
-    if t > 0 and t < 1:
-        return t
+    t = np.ravel(intersect_rays_box(origin, distance, box, t=True))
+    t = t[(t > 0) & (t < 1)]
+    if t.size:
+        return t.min()
     return None
 
 
-- 
2.43.0


From 5e1a93e14cf092d747ae0913417e74a0b75f1b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:58 +0000
Subject: [PATCH 089/113] fix: intersect rays along the sides of a box

---
 src/glimpse/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index f84253f..83e45e1 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -836,6 +836,9 @@ def intersect_rays_box(
     tmin = (fbounds[idx] - origin[0]) * invdir[:, 0]
     idx = np.ravel_multi_index((all_rays, (1 - sign[:, 0]) * ndims), bounds.shape)
     tmax = (fbounds[idx] - origin[0]) * invdir[:, 0]
+    # Rays along either x-axis bound (0 * inf) are not limited by it
+    tmin[np.isnan(tmin)] = -np.inf
+    tmax[np.isnan(tmax)] = np.inf
     # Apply y-axis intersections
     idx = np.ravel_multi_index((all_rays, 1 + sign[:, 1] * ndims), bounds.shape)
     tymin = (fbounds[idx] - origin[1]) * invdir[:, 1]
-- 
2.43.0


From 3535e5ede12d734a4ac930675c37729e32fd2def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:01 +0000
Subject: [PATCH 090/113] fix: fill beyond the ends of lines with decreasing
 distances

---
 src/glimpse/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 83e45e1..3ff71cc 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1158,8 +1158,10 @@ def interpolate_line(
         # Ensure defaults for speed
         error = False
         fill = "endpoints"
+    x = np.asarray(x)
     # x must be increasing
-    if len(x) > 1 and x[1] < x[0]:
+    is_decreasing = len(x) > 1 and x[1] < x[0]
+    if is_decreasing:
         sort_index = np.argsort(x)
         x = x[sort_index]
         vertices = vertices[sort_index, :]
@@ -1175,7 +1177,7 @@ def interpolate_line(
         fill = (fill, fill)
     left = np.less(xi, x[0])
     right = np.greater(xi, x[-1])
-    if x[0] > x[-1]:
+    if is_decreasing:
         right, left = left, right
     if error and (left.any() or right.any()):
         raise ValueError("Requested distance outside range")
-- 
2.43.0


From 7ade2759586c581e2dab2deb94e25d707ff47045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:23 +0000
Subject: [PATCH 091/113] fix: correct elevations of integer rasters in
 viewsheds

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index ecf479f..86b90e5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1340,7 +1340,7 @@ class Raster(Grid):
         if correction is True:
             correction = {}
         if isinstance(correction, dict):
-            dz += helpers.elevation_corrections(dxy, **correction)
+            dz = dz + helpers.elevation_corrections(dxy, **correction)
         dxy = np.sqrt(dxy)
         dxy_cell = (dxy * (1 / abs(self.d[0])) + 0.5).astype(int)
         # Compute heading (-pi to pi CW from -y axis)
-- 
2.43.0


From 2417996b610c0385fca5abea32d9f6c8a263adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:28 +0000
Subject: [PATCH 092/113] fix: include the cell of the origin in viewsheds

---
 src/glimpse/raster.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 86b90e5..4c327e3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1359,8 +1359,8 @@ class Raster(Grid):
                 # Single ring starting at 0
                 rings = np.array([0])
             else:
-                # Single co-located pixel, return all visible
-                return np.ones(self.array.shape, dtype=bool)
+                # Single co-located pixel, visible (if not NaN)
+                return ~np.isnan(self.array)
         rings = np.append(rings, len(ix))
         # Compute elevation ratio
         first_ring = ix[rings[0] : rings[1]]
@@ -1371,6 +1371,8 @@ class Raster(Grid):
         # N = int(np.ceil(2 * np.pi * dxy_cell_sorted[-1]))
         # Initialize result raster
         vis = np.zeros(self.array.size, dtype=bool)
+        # Co-located pixels are always visible (if not NaN)
+        vis[ix[: rings[0]]] = ~np.isnan(dz[ix[: rings[0]]])
         # Loop through rings
         period = 2 * np.pi
         previous_headings = None
-- 
2.43.0


From 7ca13bc992e2a38776a20acf581dfb4da24adb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:46 +0000
Subject: [PATCH 093/113] fix: read subseconds of any number of digits

---
 src/glimpse/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index fe5a890..7e25b93 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -102,7 +102,8 @@ class Exif:
         ymdhms = self.parse_tag("DateTimeOriginal")
         if not ymdhms:
             return None
-        ss = self.parse_tag("SubSecTimeOriginal")
+        # Blanks and digits beyond microseconds are not supported by strptime
+        ss = str(self.parse_tag("SubSecTimeOriginal") or "").strip()[:6]
         if not ss:
             return datetime.datetime.strptime(str(ymdhms), "%Y:%m:%d %H:%M:%S")
         return datetime.datetime.strptime(
-- 
2.43.0


From e01c9e6f9c683b62dbed4ad25f007cd20a4abb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:49 +0000
Subject: [PATCH 094/113] fix: read unknown date and time in metadata as
 missing

---
 src/glimpse/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index 7e25b93..eab75da 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -100,7 +100,8 @@ class Exif:
     def datetime(self) -> Optional[datetime.datetime]:
         """Capture date and time."""
         ymdhms = self.parse_tag("DateTimeOriginal")
-        if not ymdhms:
+        if not ymdhms or not str(ymdhms).strip(" :0"):
+            # Missing or unknown (blank or zero)
             return None
         # Blanks and digits beyond microseconds are not supported by strptime
         ss = str(self.parse_tag("SubSecTimeOriginal") or "").strip()[:6]
-- 
2.43.0


From 10d8a7cbb080656bee92c7e5f5bf3a4a8eb96162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:53 +0000
Subject: [PATCH 095/113] fix: read rational metadata without denominator as
 missing

---
 src/glimpse/exif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index eab75da..0e0ac3e 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -175,7 +175,8 @@ class Exif:
         if isinstance(value, bytes):
             return value.decode()
         if isinstance(value, tuple) and len(value) == 2:
-            return value[0] / value[1]
+            # Zero denominator: Unknown or infinite
+            return value[0] / value[1] if value[1] else None
         return value
 
     def dump(self) -> bytes:
-- 
2.43.0


From b06cfb2475b35a1cff713b3e462a4b9392744f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:57 +0000
Subject: [PATCH 096/113] fix: do not read pairs of values in metadata as
 ratios

---
 src/glimpse/exif.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index 0e0ac3e..2ca010d 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -127,6 +127,9 @@ class Exif:
     def iso(self) -> Optional[int]:
         """Film speed following the ISO system."""
         value = self.parse_tag("ISOSpeedRatings")
+        if isinstance(value, tuple):
+            # Any number of values is allowed
+            value = value[0]
         return int(value) if value else None
 
     @property
@@ -174,7 +177,10 @@ class Exif:
             return None
         if isinstance(value, bytes):
             return value.decode()
-        if isinstance(value, tuple) and len(value) == 2:
+        types = {t["name"]: t["type"] for t in piexif.TAGS[group].values()}
+        is_rational = types.get(tag) in (piexif.TYPES.Rational, piexif.TYPES.SRational)
+        is_pair = isinstance(value, tuple) and len(value) == 2
+        if is_rational and is_pair and not isinstance(value[0], tuple):
             # Zero denominator: Unknown or infinite
             return value[0] / value[1] if value[1] else None
         return value
-- 
2.43.0


From a2664a1305c38cdb698b60101790d45439e4771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:28 +0000
Subject: [PATCH 097/113] fix: refuse cameras of unknown image size

---
 src/glimpse/camera.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 2bd737e..857ce90 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -95,6 +95,8 @@ class Camera:
             raise ValueError(
                 "Principal point offset provided in both pixels and mm (c, cmm)"
             )
+        if imgsz is None:
+            raise ValueError("Image size (imgsz) is missing")
         self._vector = np.full(20, np.nan, dtype=float)
         self.xyz = xyz
         self.viewdir = viewdir
-- 
2.43.0


From 998501d448d7597304592a38d8ff8eeaef77f16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:32 +0000
Subject: [PATCH 098/113] fix: end text in metadata at its terminator

---
 src/glimpse/exif.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index 2ca010d..a0f1fa4 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -175,9 +175,12 @@ class Exif:
             value = self.tags[group][tag]
         except KeyError:
             return None
+        types = {t["name"]: t["type"] for t in piexif.TAGS[group].values()}
         if isinstance(value, bytes):
+            if types.get(tag) == piexif.TYPES.Ascii:
+                # Text ends at the first null byte
+                value = value.split(b"\0")[0]
             return value.decode()
-        types = {t["name"]: t["type"] for t in piexif.TAGS[group].values()}
         is_rational = types.get(tag) in (piexif.TYPES.Rational, piexif.TYPES.SRational)
         is_pair = isinstance(value, tuple) and len(value) == 2
         if is_rational and is_pair and not isinstance(value[0], tuple):
-- 
2.43.0


From a7105566ffb567af067fc8e65f3ac49577e7ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:41 +0000
Subject: [PATCH 099/113] fix: replace collections of animated tracks

---
 src/glimpse/track/tracks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 43c54b9..f513063 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -398,7 +398,8 @@ class Tracks:
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
             for ax in axes:
-                ax.collections = []
+                for collection in list(ax.collections):
+                    collection.remove()
             img = self.images[i, obs]
             if particles:
                 # Map: Particles
-- 
2.43.0


From 39f79932e5c1d9ef3fc3b65c23a15cb394608b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:46 +0000
Subject: [PATCH 100/113] fix: scale velocities of animated tracks by their own
 frame

---
 src/glimpse/track/tracks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index f513063..75733fd 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -401,10 +401,12 @@ class Tracks:
                 for collection in list(ax.collections):
                     collection.remove()
             img = self.images[i, obs]
+            # Frames may skip datetimes
+            scale = scales[np.searchsorted(frames, i)]
             if particles:
                 # Map: Particles
                 particle_xyz = self.particles[track, i, :, 0:3]
-                particle_vxy = self.particles[track, i, :, 3:5] * scales[i]
+                particle_vxy = self.particles[track, i, :, 3:5] * scale
                 axes[0].quiver(
                     particle_xyz[:, 0],
                     particle_xyz[:, 1],
@@ -452,8 +454,8 @@ class Tracks:
             axes[0].quiver(
                 self.xyz[track, i, 0],
                 self.xyz[track, i, 1],
-                self.vxyz[track, i, 0] * scales[i],
-                self.vxyz[track, i, 1] * scales[i],
+                self.vxyz[track, i, 0] * scale,
+                self.vxyz[track, i, 1] * scale,
                 color="red",
                 alpha=1,
                 angles="xy",
-- 
2.43.0


From 467ed7302691ee8f5ec4c0ac7f6fa7c09f73a91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:51 +0000
Subject: [PATCH 101/113] fix: animate tracks without images

---
 src/glimpse/track/tracks.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 75733fd..a794179 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -489,7 +489,6 @@ class Tracks:
                 )
             else:
                 basename = str(obs) + " : " + str(img)
-            basename = helpers.strip_path(self.tracker.observers[obs].images[img].path)
             map_txt.set_text(basename)
             if images:
                 return map_track, map_txt, image_track, image_tile, image_mean
-- 
2.43.0


From a61c1af3e9182cdce3e9049c13c3c2ffc22e4322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:27 +0000
Subject: [PATCH 102/113] fix: plot tiles at their own size

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index fa204c0..1eeda2d 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -233,7 +233,7 @@ class Observer:
             **kwargs: Optional arguments to :func:`matplotlib.pyplot.imshow`.
         """
         if box is None:
-            box = (0, 0, tile.shape[0], tile.shape[1])
+            box = (0, 0, tile.shape[1], tile.shape[0])
         extent = (box[0], box[2], box[3], box[1])
         if axes is None:
             axes = matplotlib.pyplot.gca()
-- 
2.43.0


From 629ec919f2b347f52382e86362fa0e5021c1f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:31 +0000
Subject: [PATCH 103/113] fix: move points of animated tiles

---
 src/glimpse/track/observer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 1eeda2d..fd15b2c 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -353,8 +353,8 @@ class Observer:
             for j in range(2):
                 im[j].set_array(tile)
                 im[j].set_extent((box[0], box[2], box[3], box[1]))
-                pt[j].set_xdata(puv[0])
-                pt[j].set_ydata(puv[1])
+                pt[j].set_xdata([puv[0]])
+                pt[j].set_ydata([puv[1]])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
             ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[0])
             basename = helpers.strip_path(self.images[i].path)
@@ -440,8 +440,8 @@ class Observer:
             im[1].set_extent((box[0], box[2], box[3], box[1]))
             track.set_xdata(track_uv[:, 0])
             track.set_ydata(track_uv[:, 1])
-            pt[1].set_xdata(uv[0])
-            pt[1].set_ydata(uv[1])
+            pt[1].set_xdata([uv[0]])
+            pt[1].set_ydata([uv[1]])
             basename = helpers.strip_path(self.images[i].path)
             txt.set_x(uv[0])
             txt.set_y(uv[1] - (halfsize[1] - 10))
-- 
2.43.0


From 1461baa9a4bc35894985909e21a40d4e334e5bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:36 +0000
Subject: [PATCH 104/113] fix: animate lists of frames of moving points

---
 src/glimpse/track/observer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index fd15b2c..b2fec9f 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -395,6 +395,7 @@ class Observer:
         """
         if frames is None:
             frames = np.arange(len(xyz))
+        frames = np.asarray(frames)
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-- 
2.43.0


From 8167c5148d9ba3093c54df906de72768fda6e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:41 +0000
Subject: [PATCH 105/113] fix: center animated tiles that are not square

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index b2fec9f..216bb43 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -329,7 +329,7 @@ class Observer:
             transform=ax[0].transAxes,
         )
         ax[1].set_xlim(uv[0] - halfsize[0], uv[0] + halfsize[0])
-        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[0])
+        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[1])
 
         # Update plot
         def update_plot(i: int) -> list:
@@ -356,7 +356,7 @@ class Observer:
                 pt[j].set_xdata([puv[0]])
                 pt[j].set_ydata([puv[1]])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
-            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[0])
+            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
             basename = helpers.strip_path(self.images[i].path)
             txt.set_text(str(i) + " : " + basename)
             return im + pt + [txt]
-- 
2.43.0


From d31421972ec74086d48b5e97cb1f3e40549128b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:44 +0000
Subject: [PATCH 106/113] fix: start animated tiles at the first frame

---
 src/glimpse/track/observer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 216bb43..47c1984 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -314,7 +314,7 @@ class Observer:
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes) for axes in ax]
         pt = [axis.plot(uv[0], uv[1], marker=".", color="red")[0] for axis in ax]
@@ -401,7 +401,7 @@ class Observer:
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
         track_uv: np.ndarray = self.images[frames[0]].xyz_to_uv(xyz[0:1])
         uv = track_uv[-1]
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes, zorder=1) for axes in ax]
         track = ax[1].plot(track_uv[:, 0], track_uv[:, 1], "y.-", alpha=0.5, zorder=2)[
@@ -414,7 +414,7 @@ class Observer:
         ax[0].text(
             0.5,
             0.95,
-            "0 : " + basename,
+            str(frames[0]) + " : " + basename,
             color="white",
             horizontalalignment="center",
             zorder=4,
-- 
2.43.0


From 0dc31cf598515741926bb68d42714822b0fe5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:43 +0000
Subject: [PATCH 107/113] fix: animate tiles of cached images

---
 src/glimpse/track/observer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 47c1984..943c110 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -346,6 +346,7 @@ class Observer:
                 box = grid.snap_xy(
                     helpers.unravel_box(box), centers=False, edges=True
                 ).ravel()
+                box = box.astype(int)
                 tile = self.extract_tile(img=i, box=box)
             else:
                 # Use white tile
-- 
2.43.0


From 63b230be2f5339b2daec52cafdbe703357226508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:14 +0000
Subject: [PATCH 108/113] fix: plot polynomials without unselected points

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index d6475e6..12398ec 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1113,7 +1113,7 @@ class Polynomial:
             (index, selected, "selected"),
         ]:
             if not len(idx) or args is None:
-                result = None
+                result[label] = None
                 continue
             if not isinstance(args, dict):
                 args = {"c": args}
-- 
2.43.0


From ca5e83e58211cbdfa0043f7950af3beef681bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:18 +0000
Subject: [PATCH 109/113] fix: plot points of cameras selected by an array

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 12398ec..7bc06bc 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1932,7 +1932,8 @@ class Cameras:
                 matplotlib.pyplot.plot (dict), color, or `None` to hide.
             **kwargs: Optional arguments to matplotlib.pyplot.quiver for all points.
         """
-        if index != slice(None) and len(self.controls) > 1:
+        all_points = isinstance(index, slice) and index == slice(None)
+        if not all_points and len(self.controls) > 1:
             # TODO: Map index to subindices for each control
             raise ValueError(
                 "Plotting with `index` not yet supported with multiple controls"
-- 
2.43.0


From e20159e2255767a5fc14a56ba21cf739959588d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:22 +0000
Subject: [PATCH 110/113] fix: refuse to plot rotation matches of normalized
 coordinates

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 7bc06bc..726b67a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -920,7 +920,7 @@ class RotationMatchesXY(RotationMatches):
             return mtype(cams=self.cams, uvs=uvs, weights=self.weights)
         return mtype(cams=self.cams, uvs=self.uvs, xys=self.xys, weights=self.weights)
 
-    def plot() -> None:
+    def plot(self, *args: Any, **kwargs: Any) -> None:
         """Plotting is not available for RotationMatchesXY and RotationMatchesXYZ."""
         raise NotImplementedError()
 
-- 
2.43.0


From e84ab957757199057e6d23c026eadf091b435420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:38 +0000
Subject: [PATCH 111/113] fix: restore cameras when their points cannot be
 plotted

---
 src/glimpse/optimize.py | 68 +++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 726b67a..38c0f36 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1938,39 +1938,41 @@ class Cameras:
             raise ValueError(
                 "Plotting with `index` not yet supported with multiple controls"
             )
-        if params is not None:
-            vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
-        cam = self.cams[cam] if isinstance(cam, int) else cam
-        cam_controls = self.prune_controls(self.controls, cams=[cam])
-        results = []
-        for control in cam_controls:
-            if isinstance(control, Lines):
-                result = control.plot(
-                    index=index,
-                    selected=selected,
-                    unselected=unselected,
-                    observed=lines_observed,
-                    predicted=lines_predicted,
-                    **kwargs
-                )
-            elif isinstance(control, Points):
-                result = control.plot(
-                    index=index, selected=selected, unselected=unselected, **kwargs
-                )
-            elif isinstance(control, Matches):
-                result = control.plot(
-                    cam=cam,
-                    index=index,
-                    selected=selected,
-                    unselected=unselected,
-                    **kwargs
-                )
-            results.append(result)
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
-        return results
+        vectors = [cam.to_array() for cam in self.cams]
+        try:
+            if params is not None:
+                self.set_cameras(params)
+            cam = self.cams[cam] if isinstance(cam, int) else cam
+            cam_controls = self.prune_controls(self.controls, cams=[cam])
+            results = []
+            for control in cam_controls:
+                if isinstance(control, Lines):
+                    result = control.plot(
+                        index=index,
+                        selected=selected,
+                        unselected=unselected,
+                        observed=lines_observed,
+                        predicted=lines_predicted,
+                        **kwargs
+                    )
+                elif isinstance(control, Points):
+                    result = control.plot(
+                        index=index, selected=selected, unselected=unselected, **kwargs
+                    )
+                elif isinstance(control, Matches):
+                    result = control.plot(
+                        cam=cam,
+                        index=index,
+                        selected=selected,
+                        unselected=unselected,
+                        **kwargs
+                    )
+                results.append(result)
+            return results
+        finally:
+            if params is not None:
+                for cam, vector in zip(self.cams, vectors):
+                    cam._vector = vector
 
     def plot_weights(
         self, index: Index = slice(None), **kwargs: Any
-- 
2.43.0


From fe429b1951b31ab29309bf16f3752759451336aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:39 +0000
Subject: [PATCH 112/113] fix: filter some cells of integer arrays

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 3ff71cc..44d9342 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -370,7 +370,8 @@ def gaussian_filter(
     """
     if mask is None:
         return scipy.ndimage.filters.gaussian_filter(a, **kwargs)
-    x = a.copy()
+    # NOTE: Weights are not integer
+    x = a.astype(np.result_type(a, np.float32))
     x[~mask] = 0
     xf = scipy.ndimage.filters.gaussian_filter(x, **kwargs)
     x[mask] = 1
-- 
2.43.0


From fec03a9f76db88794315e2359cc30747fd60e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:45 +0000
Subject: [PATCH 113/113] fix: fill cells next to cells of the minimum value

---
 src/glimpse/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 44d9342..1bae0b9 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -416,11 +416,12 @@ def maximum_filter(
         return scipy.ndimage.filters.maximum_filter(a, **kwargs)
     dtype_min = numpy_dtype_minmax(a.dtype)[0]
     x = a.copy()
-    mask = ~mask
+    included, mask = mask, ~mask
     x[mask] = dtype_min
     x = scipy.ndimage.filters.maximum_filter(x, **kwargs)
     if fill:
-        mask = x == dtype_min
+        # NOTE: Included cells may be equal to the minimum value
+        mask = ~scipy.ndimage.filters.maximum_filter(included, **kwargs)
     x[mask] = a[mask]
     return x
 
-- 
2.43.0

