From 796838e395be82ed4c77c0461c8d3a120494ab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:52 +0000
Subject: [PATCH 01/46] fix: import utilities modules through the package only

Running 'python all_multipliers.py -c cfg' as documented failed with
ModuleNotFoundError because meta, convert and parallel were imported a
second time by their bare names.
---
 utilities/blrb.py       | 1 -
 utilities/mpi_runner.py | 2 --
 2 files changed, 3 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index a77cae8..3e5c65d 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -11,7 +11,6 @@ makes some of the code harder to follow.
 import numpy
 import logging
 from utilities.meta import print_call
-from meta import print_call
 import math
 
 LOGGER = logging.getLogger('root.' + __name__)
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 0f4a0a6..bfede40 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -7,8 +7,6 @@ from osgeo import gdal
 
 from utilities.convert import Converter, create_sub_dirs_for_convert
 from utilities.parallel import attempt_parallel
-from convert import Converter, create_sub_dirs_for_convert
-from parallel import attempt_parallel
 
 
 def parallelise_convert_on_tiles(data_path, comm):
-- 
2.43.0


From 2ffb8ad94f49d27b35f7e2182cce33ffe356b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:20 +0000
Subject: [PATCH 02/46] fix: save multipliers when git cannot describe the code

A downloaded (rather than cloned) copy of the code, a clone without tags,
or a machine without git made save_multiplier raise and leave the working
directory changed. The version is metadata only: record it as unknown.
---
 utilities/nctools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86f73d5..9912a2b 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -320,7 +320,11 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
     # code - not from data directory
     cwd = os.getcwd()  # save working directory
     os.chdir(os.path.dirname(os.path.realpath(__file__)))
-    git_info = subprocess.check_output(["git", "describe"])
+    try:
+        git_info = subprocess.check_output(["git", "describe"])
+    except (OSError, subprocess.CalledProcessError):
+        # a downloaded copy, or a clone without tags
+        git_info = 'unknown'
     os.chdir(cwd)  # restore working directory from saved value
 
     # Set global attributes, including metadata capture:
-- 
2.43.0


From d7141bc23c8540596371bba0e03a7a45c984be10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:23 +0000
Subject: [PATCH 03/46] fix: keep unbuffered tiles from overlapping

When the last row or column of tiles is narrower than the buffer, the
buffer of the tile before it reaches the raster edge, and its unbuffered
extent was taken to reach the edge too, overlapping the last tile.
---
 all_multipliers.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 69ceb7d..a1b1938 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -166,25 +166,14 @@ class TileGrid(object):
 
         """
 
-        if int(self.x_start[k]) != 0:
-            x1 = int(self.x_start[k] + self.x_buffer)
-        else:
-            x1 = self.x_start[k]
-
-        if int(self.y_start[k]) != 0:
-            y1 = int(self.y_start[k] + self.y_buffer)
-        else:
-            y1 = self.y_start[k]
-
-        if int(self.x_end[k]) != (self.x_dim - 1):
-            x2 = int(self.x_end[k] - self.x_buffer + 1)
-        else:
-            x2 = self.x_dim
-
-        if int(self.y_end[k]) != (self.y_dim - 1):
-            y2 = int(self.y_end[k] - self.y_buffer + 1)
-        else:
-            y2 = self.y_dim
+        # the buffered limits are clipped to the raster, so the limits without
+        # buffer cannot be recovered from them: use the position of the tile
+        i, j = divmod(int(k), self.subset_maxrows)
+
+        x1 = i * self.x_step
+        y1 = j * self.y_step
+        x2 = min(x1 + self.x_step, self.x_dim)
+        y2 = min(y1 + self.y_step, self.y_dim)
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From 261fc3917c255b2f71055d2391b99b764a4ebf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 04/46] fix: do not compound shielding over directions for
 coarse cells

With cells larger than 100 m the initial factors were passed to combine
without a copy; combine works in place, so each direction started from
the result of the one before.
---
 shielding/shield_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index fd30647..213e8fa 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -306,7 +306,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
             mask = kern_dir(kernel_size)
             outdata = blur_image(data, mask)
         else:
-            outdata = data
+            outdata = data.copy()
 
         result = combine(outdata, slope_array, aspect_array, one_dir)
         log.debug('Maximum shielding value is {0}'.format(result.max()))
-- 
2.43.0


From b3935423c1baa93c70b00236bea59d439158a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 05/46] fix: do not write the multiplier of the first ridge to
 the line end

The first index went to -1 for a ridge near the start of the line, which
wraps to the last cell of the line.
---
 topographic/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/mh.py b/topographic/mh.py
index 76bf130..8c5deaa 100644
--- a/topographic/mh.py
+++ b/topographic/mh.py
@@ -85,7 +85,7 @@ def mh_calc(profile, ridge, valley, data_spacing):
 
     # calculate the mh from the front l2_capital to the back l2_capital with
     # the escarpment factor considered:
-    l1 = int(np.floor(fl2_ind)) - 1
+    l1 = max(0, int(np.floor(fl2_ind)) - 1)
     l2 = int(
         np.floor(
             np.minimum(
-- 
2.43.0


From 595779a93882db8a54e14e16134bd480e723bb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:30 +0000
Subject: [PATCH 06/46] fix: do not smooth zeros into the edge of the
 topographic multiplier

The 3 by 3 mean treated cells outside the raster as 0, so multipliers on
the outer edge fell to 0.67, and to 0.44 in the corners.
---
 topographic/topo_mult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 3c30a0c..549c204 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -22,7 +22,7 @@ import math
 import logging as log
 from os.path import join as pjoin
 import numpy as np
-from scipy import signal
+from scipy import ndimage
 from osgeo import gdal
 
 from utilities.get_pixel_size_grid import get_pixel_size_grids
@@ -134,7 +134,7 @@ def topomult(input_dem, tile_extents_nobuffer):
 
         # smooth
         g = np.ones((3, 3)) / 9.
-        mhsmooth = signal.convolve(mhdata, g, mode='same')
+        mhsmooth = ndimage.convolve(mhdata, g, mode='nearest')
         mhsmooth[np.isnan(elevation_array)] = np.nan
         del mhdata
 
-- 
2.43.0


From b9ca72c51759033bc2a980a5adb8e4487469d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:32 +0000
Subject: [PATCH 07/46] fix: convert non-square tiles that lack a multiplier

The ones that replace a missing multiplier were shaped (columns, rows),
and the transform was undefined if the first file was the missing one.
---
 utilities/convert.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0e77a4..558e8ab 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -92,6 +92,7 @@ class Converter:
         tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
+        transform = tmpds.GetGeoTransform()
 
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
 
@@ -103,8 +104,6 @@ class Converter:
 
         band_index = 1
 
-        first = True
-
         for direction in self.directions:
             bands = []
 
@@ -121,16 +120,12 @@ class Converter:
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
                     band = ds.GetRasterBand(1)
-                    band.WriteArray(np.ones((nx, ny)))
+                    band.WriteArray(np.ones((ny, nx)))
 
                 bands.append(ma.masked_values(
                     BandReadAsArray(ds.GetRasterBand(1)),
                     self.missing_value))
 
-                if first:
-                    transform = ds.GetGeoTransform()
-                    first = False
-
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
 
-- 
2.43.0


From 2a805c863c33e261241ec9877562fc54b946c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:52 +0000
Subject: [PATCH 08/46] fix: keep missing multipliers missing in the product

Where the terrain or topographic multiplier was missing, the data under
the mask (the product without it) was written as a valid value.
---
 utilities/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 558e8ab..c0428d1 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -131,12 +131,13 @@ class Converter:
 
             # Write the pre-multiplied value to a band
             band = out_ds.GetRasterBand(band_index)
+            multiplied = multiplied.filled(self.missing_value)
             try:
-                band.WriteArray(multiplied.data[::-1])
-                band.WriteArray(multiplied.data)
+                band.WriteArray(multiplied[::-1])
+                band.WriteArray(multiplied)
             except ValueError:
                 log.error("Mismatch between output file and data array")
-                log.error(multiplied.data.shape)
+                log.error(multiplied.shape)
             band.SetDescription(direction)
             band.ComputeStatistics(False)
             band.SetNoDataValue(-9999)
-- 
2.43.0


From 28bcdb22d800a883ad649215510ea46f33204644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 09/46] fix: write the maximum over directions as a single band

A second band of zeros was added to each M3_max tile.
---
 utilities/convert.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0428d1..3a5163a 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -57,7 +57,6 @@ class Converter:
         maxima = np.max(np.dstack(bands), axis=2)
         # Create output dataset - single band required (maximum only)
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
-        out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
         band.WriteArray(maxima.data)
         band.SetDescription("Maximum of all directions")
-- 
2.43.0


From c6d594713c69afa6fffa93e093338bcb790bdf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:56 +0000
Subject: [PATCH 10/46] fix: write every variable given to nc_save_grid

The function returned after the first variable, so the crs variable of
the multiplier files was never written.
---
 utilities/nctools.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 9912a2b..d5c8c27 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -283,14 +283,14 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
         var.setncatts(v['atts'])
         ncobj.setncatts(gatts)
 
-        if datatitle:
-            ncobj.setncattr('title', datatitle)
-
-        if keepfileopen:
-            return ncobj
-        else:
-            ncobj.close()
-            return
+    if datatitle:
+        ncobj.setncattr('title', datatitle)
+
+    if keepfileopen:
+        return ncobj
+    else:
+        ncobj.close()
+        return
 
 
 def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
-- 
2.43.0


From d0885ed123a5458a31e70917b03385bc7195ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:14 +0000
Subject: [PATCH 11/46] fix: do not cut tiles that are a single cell wide or
 high

A raster with one column or row more than a multiple of the tile size
(such as a 3601 by 3601 SRTM raster) got tiles one cell wide, whose netCDF
files GDAL reads without a georeference and upside down: their M3 rasters
came out flipped and at (0, 0), and spoiled the mosaics.
---
 all_multipliers.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index a1b1938..3021723 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -101,8 +101,13 @@ class TileGrid(object):
                  str(self.x_buffer) + ', %s' %
                  str(self.y_buffer))
 
-        self.subset_maxcols = int(np.ceil(self.x_dim / float(self.x_step)))
-        self.subset_maxrows = int(np.ceil(self.y_dim / float(self.y_step)))
+        # a tile that is one cell wide or high cannot be georeferenced in its
+        # netCDF files: a single column or row left over at the end of the
+        # raster goes to the tile before it
+        self.subset_maxcols = max(
+            1, int(np.ceil((self.x_dim - 1) / float(self.x_step))))
+        self.subset_maxrows = max(
+            1, int(np.ceil((self.y_dim - 1) / float(self.y_step))))
         self.num_tiles = self.subset_maxcols * self.subset_maxrows
         self.x_start = np.zeros(self.num_tiles, 'i')
         self.x_end = np.zeros(self.num_tiles, 'i')
@@ -127,11 +132,11 @@ class TileGrid(object):
             for j in range(self.subset_maxrows):
                 self.x_start[k] = max(0, i * self.x_step - self.x_buffer)
                 self.x_end[k] = min(
-                    ((i + 1) * self.x_step + self.x_buffer),
+                    self.get_gridlimit(k)[1] + self.x_buffer,
                     self.x_dim) - 1
                 self.y_start[k] = max(0, j * self.y_step - self.y_buffer)
                 self.y_end[k] = min(
-                    ((j + 1) * self.y_step + self.y_buffer),
+                    self.get_gridlimit(k)[3] + self.y_buffer,
                     self.y_dim) - 1
                 k += 1
 
@@ -172,8 +177,8 @@ class TileGrid(object):
 
         x1 = i * self.x_step
         y1 = j * self.y_step
-        x2 = min(x1 + self.x_step, self.x_dim)
-        y2 = min(y1 + self.y_step, self.y_dim)
+        x2 = x1 + self.x_step if i + 1 < self.subset_maxcols else self.x_dim
+        y2 = y1 + self.y_step if j + 1 < self.subset_maxrows else self.y_dim
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From 7673da67d76b9bff0275ae143e308ecb14d33559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:16 +0000
Subject: [PATCH 12/46] fix: do not skip tiles whose elevations have a checksum
 of zero

The 16 bit checksum is of rounded elevations, and is 0 for some tiles with
elevations, such as low coastal tiles with elevations below 0.5 m. Only
skip tiles whose elevations are all 0.
---
 all_multipliers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 3021723..c4bf23b 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -370,8 +370,8 @@ class Multipliers(object):
         tile_name = tile_info[0]
         tile_extents_nobuffer = tile_info[2]
 
-        # check the checksum value of the terrain map tile, if it is greater
-        # than 0, go ahead
+        # check that the DEM tile has an elevation other than 0, if so, go
+        # ahead
         if not os.path.exists(temp_tile_dem):
             log.critical(f'File does not exist: {temp_tile_dem}')
             raise OSError
@@ -381,10 +381,10 @@ class Multipliers(object):
             raise IOError
 
         band = temp_dataset.GetRasterBand(1)
-        checksum = band.Checksum()
-        log.info(f'This DEM tile checksum is {str(checksum)}')
+        empty = not np.any(band.ReadAsArray())
+        log.info(f'This DEM tile is empty: {empty}')
 
-        if checksum > 0:
+        if not empty:
             # extract the temporary tile from landcover
             terrain_resample = pjoin(output_folder, tile_name + '.img')
 
-- 
2.43.0


From 6edd309652e0147921302f02773826bff585d063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:19 +0000
Subject: [PATCH 13/46] fix: do not average terrain over zero cells

With cells so coarse that the averaging distance rounds to no cells, the
mean of no cells raised ZeroDivisionError: keep the value of the cell.
---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 3b24600..68257d5 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -226,7 +226,7 @@ def convo(one_dir, data, avg_width, lag_width):
             all_neighb_no = all_neighbour_lambda(i, jj, rows, cols,
                                                  lag_width)
 
-            if all_neighb_no > 0:
+            if all_neighb_no > 0 and avg_width > 0:
                 if all_neighb_no < avg_width:
                     max_neighb_no = all_neighb_no
                 else:
-- 
2.43.0


From 828d0f60f7d373d9de5babfceff5383c93f96749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:22 +0000
Subject: [PATCH 14/46] fix: do not limit the upwind terrain by the rows of the
 tile

The averaging and lag distances of every direction were limited by the
number of rows, so a tile with few rows and many columns was averaged over
too short a distance, or not at all, along its rows; in the latter case
unmapped cells were also given a multiplier of 1.
---
 terrain/terrain_mult.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 68257d5..f4bdffa 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -115,18 +115,11 @@ def terrain(temp_tile, tile_extents_nobuffer):
             avg_width = int(avg_dist / (gridwidth * 1.414))
             lag_width = int(lag_dist / (gridwidth * 1.414))
 
-        # if the tile is smaller than the lag distance, no convolultion
-        if lag_width > reclassified_array.shape[0]:
-            outdata = reclassified_array
-        else:
-            # if the tile is smaller than the upwind buffer, all the tile is in
-            # buffer
-            if (avg_width + lag_width) > reclassified_array.shape[0]:
-                avg_width = reclassified_array.shape[0] - lag_width
-
-            log.info('convolution average width ' + str(avg_width))
-            outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-            outdata[mask] = np.nan
+        # convo allows for a tile that is smaller than the lag distance or the
+        # upwind buffer
+        log.info('convolution average width ' + str(avg_width))
+        outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
+        outdata[mask] = np.nan
 
         # find output folder
         tile_folder = os.path.dirname(temp_tile)
-- 
2.43.0


From d5a41fee78637cd4f339e9fd25ee493aabe78b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:24 +0000
Subject: [PATCH 15/46] fix: keep the working directory when computing
 shielding

convo_combine changed to the shielding folder to remove files, so with a
relative output_dir (or log file) the next step failed.
---
 shielding/shield_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 213e8fa..8bb5bfc 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -334,8 +334,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         os.remove(ms_orig)
     except:
         pass
-    os.chdir(ms_folder)
-    filelist = glob.glob('*.xml')
+    filelist = glob.glob(pjoin(glob.escape(ms_folder), '*.xml'))
 
     log.debug("useless xml files: {0}".format(repr(filelist)))
 
-- 
2.43.0


From 435c13bdc45c2b5f06e06860645f3c2b96237b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:06 +0000
Subject: [PATCH 16/46] fix: compute the topographic multiplier of integer DEMs

A DEM of 32 bit integers is clipped to integer tiles, which cannot hold
the NaN that marks missing elevations: topomult raised ValueError.
---
 topographic/topo_mult.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 549c204..45e3f44 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -61,6 +61,7 @@ def topomult(input_dem, tile_extents_nobuffer):
 
     band = ds.GetRasterBand(1)
     elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    elevation_array = elevation_array.astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From 7a3c8bec8fcd54090c9ed55b5c629dca9d4c2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:08 +0000
Subject: [PATCH 17/46] fix: bisect grids at whole cells

Python 3 division put the middle of a grid with an odd number of rows or
columns between cells, so blocks overlapped and were interpolated from the
wrong corners, and small grids failed or became NaN.
---
 utilities/blrb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index 3e5c65d..e866d44 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -48,8 +48,9 @@ def bilinear(shape, f_ul, f_ur, f_lr, f_ll, dtype=numpy.float64):
 
     s, t = [a.astype(dtype) for a in numpy.ogrid[0:shape[0], 0:shape[1]]]
 
-    s /= (shape[0] - 1.0)
-    t /= (shape[1] - 1.0)
+    # a block that is one cell high or wide has nothing to interpolate
+    s /= max(shape[0] - 1.0, 1.0)
+    t /= max(shape[1] - 1.0, 1.0)
 
     return s * (t * f_lr + (1.0 - t) * f_ll) + \
         (1.0 - s) * (t * f_ur + (1.0 - t) * f_ul)
@@ -92,8 +93,8 @@ def subdivide(origin=DEFAULT_ORIGIN, shape=DEFAULT_SHAPE):
               'LR': <list of 2-tuples> }
     """
     i0, ie, j0, je = indices(origin, shape)
-    ic = origin[0] + shape[0] / 2
-    jc = origin[1] + shape[1] / 2
+    ic = origin[0] + shape[0] // 2
+    jc = origin[1] + shape[1] // 2
 
     return {
         'UL': [(i0, j0), (i0, jc), (ic, j0), (ic, jc)],
-- 
2.43.0


From 8a3d0e31bedfb61ea020489a3bf693ed8b8a8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:10 +0000
Subject: [PATCH 18/46] fix: evaluate pixel sizes at the right row and column

interpolate_grid calls the function with (row, column), but they were
taken as (x, y): the pixel sizes were transposed, changing along the
columns (and beyond the raster if it is not square) instead of with the
latitude of the row.
---
 utilities/get_pixel_size_grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 7955341..ec87565 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -120,27 +120,27 @@ def get_pixel_size_grids(dataset):
     :return: tuple of :class:`numpy.ndarray` grid sizes for input dataset
     """
 
-    def get_pixel_x_size(x, y):
+    def get_pixel_x_size(row, col):
         """
         Returns x size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param (row, col): `tuple` the grid indices of the input point
 
         :return: `float` the grid x size at the input (x, y) point
         """
 
-        return get_pixel_size(dataset, (x, y))[0]
+        return get_pixel_size(dataset, (col, row))[0]
 
-    def get_pixel_y_size(x, y):
+    def get_pixel_y_size(row, col):
         """
         Returns y size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param (row, col): `tuple` the grid indices of the input point
 
         :return: `float` the grid y size at the input (x, y) point
         """
 
-        return get_pixel_size(dataset, (x, y))[1]
+        return get_pixel_size(dataset, (col, row))[1]
 
     x_size_grid = np.zeros((dataset.RasterYSize,
                             dataset.RasterXSize)).astype(np.float32)
-- 
2.43.0


From ab42a55bf81aedd70e93de76ff5570448aa5cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 19/46] fix: measure distances along the equator

The sine of the azimuth rounds to more than 1 for many pairs of points on
the equator, and vinc_dist raised a math domain error.
---
 utilities/vincenty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 3f69a31..815cdce 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -224,7 +224,8 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
 
         Sin_alpha = math.cos(U1) * math.cos(U2) * math.sin(lembda) / \
             math.sin(sigma)
-        alpha = math.asin(Sin_alpha)
+        # rounding can take this past 1 along the equator
+        alpha = math.asin(max(-1.0, min(1.0, Sin_alpha)))
 
         Cos2sigma_m = math.cos(sigma) - (2 * math.sin(U1) * math.sin(U2) /
                                          pow(math.cos(alpha), 2))
-- 
2.43.0


From 36a503cded5f353e3691e5419b442ae15e22b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:15 +0000
Subject: [PATCH 20/46] fix: keep a singleton that is false

A singleton whose truth value is false, such as an empty container, was
created anew by each call.
---
 utilities/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/meta.py b/utilities/meta.py
index 5c29cfc..628345a 100644
--- a/utilities/meta.py
+++ b/utilities/meta.py
@@ -25,9 +25,9 @@ class Singleton(type):
         return super(Singleton, cls).__new__(cls, name, bases, dct)
 
     def __call__(cls, *args, **kwargs):
-        if not cls._instance_for_singleton_ssfusousoifusos:
+        if cls._instance_for_singleton_ssfusousoifusos is None:
             with cls._lock_for_singleton_ssfusousoifusos:
-                if not cls._instance_for_singleton_ssfusousoifusos:
+                if cls._instance_for_singleton_ssfusousoifusos is None:
                     cls._instance_for_singleton_ssfusousoifusos = \
                         super(Singleton, cls).__call__(*args, **kwargs)
         return cls._instance_for_singleton_ssfusousoifusos
-- 
2.43.0


From 8e8d1ad6ce5a76e7bc651c7c88d6e1ae5eb4a1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:18 +0000
Subject: [PATCH 21/46] fix: complete a run that produces no tile

results has an element for each process, so it is never empty: a DEM that
is 0 everywhere made BuildVRT fail on an empty list of files instead of
logging the warning that there is no raster file.
---
 utilities/mpi_runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index bfede40..8aaa7ba 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -36,7 +36,7 @@ def parallelise_convert_on_tiles(data_path, comm):
     results = comm.gather(results, root=0)
 
     if comm.rank == 0:
-        if len(results) > 0:
+        if any(element[0] for element in results):
             log.info("Creating virtual raster table")
             tile_files = functools.reduce(lambda total, element:
                                           total + element[0], results, [])
-- 
2.43.0


From 1f69b0e6c5d29df21ef6feb62e6622cbfc7326bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:20 +0000
Subject: [PATCH 22/46] fix: report a missing terrain table as a failure

all_multipliers stopped with exit status 0 when the terrain table did not
exist, as if the run had succeeded.
---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index f4bdffa..cad97e2 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -161,7 +161,7 @@ def get_terrain_table():
         mz_init = pd.read_csv(terrain_table, comment='#', index_col=False)
     except IOError:
         log.exception(f"Terrain table file does not exist: {terrain_table}")
-        sys.exit()
+        sys.exit(1)
     except:
         raise
 
-- 
2.43.0


From 73dda390ec09f189740a41913f8e08f70a81a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:22 +0000
Subject: [PATCH 23/46] fix: refuse a configuration file that does not exist

A mistyped path was ignored, and the run went ahead with the default
configuration, deleting and rewriting the default output directory.
---
 utilities/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/config.py b/utilities/config.py
index c6c3eae..2b11d9a 100644
--- a/utilities/config.py
+++ b/utilities/config.py
@@ -49,6 +49,8 @@ class _ConfigParser(RawConfigParser):
         """
         Change configuration file
         """
+        if not os.path.exists(config_file):
+            raise OSError(f"Configuration file does not exist: {config_file}")
         self.config_file = config_file
         self.readonce = False
         self._read_file()
-- 
2.43.0


From 43c4133439ef93a98aea94982deb88901a91976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:24 +0000
Subject: [PATCH 24/46] fix: join shapes with the spatial index of shapely 2

The tree returns the indices of geometries instead of the geometries since
shapely 2.0, so every spatial join raised TypeError.
---
 utilities/shapefiles.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 2779db0..9b1f6ab 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -66,16 +66,14 @@ class shp_file:
         self.attribute = clip_attribute
 
     def spatial_join(self, other, var):
-        # create the index.
-        index_by_id = dict((id(pt), i) for i, pt in enumerate(other.geom))
         # create the spatial tree
         idx_other = STRtree(other.geom)
         # start the merge:
 
         def process(i):
             poly = self.geom[i]
-            fids = [index_by_id[id(pt)] for pt in idx_other.query(poly)
-                    if poly.intersects(pt)]
+            fids = [j for j in idx_other.query(poly)
+                    if poly.intersects(other.geom[j])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From c5ec91b7cd185415997219917ed9753467650402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:26 +0000
Subject: [PATCH 25/46] fix: return lists of points along a great circle of a
 sphere

In Python 3 map returns an iterator, not the documented list.
---
 utilities/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 815cdce..89811a6 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -103,8 +103,8 @@ class GreatCircle(object):
             z = A * math.sin(lat1) + B * math.sin(lat2)
             lats = np.arctan2(z, np.sqrt(x ** 2 + y ** 2))
             lons = np.arctan2(y, x)
-            lons = map(math.degrees, lons.tolist())
-            lats = map(math.degrees, lats.tolist())
+            lons = list(map(math.degrees, lons.tolist()))
+            lats = list(map(math.degrees, lats.tolist()))
         # use ellipsoid formulas
         else:
             latpt = self.lat1
-- 
2.43.0


From 0c1f4178506a8229ac23edea7b09b2d2d01b024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 26/46] fix: save a file that is named without a folder

---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 0d27f9f..4f8f886 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -121,7 +121,7 @@ def fl_save_file(filename, data, header='', delimiter=',', fmt='%.18e'):
     """
 
     directory, fname = os.path.split(filename)
-    if not os.path.isdir(directory):
+    if directory and not os.path.isdir(directory):
         os.makedirs(directory)
 
     try:
-- 
2.43.0


From 721b26cdb6e2b0c0f4183f88b3b675e975c93f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 27/46] fix: exit with a failure status after a fatal error

---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 4f8f886..443bf24 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -298,7 +298,7 @@ def fl_log_fatal_error(tblines):
 
     for line in tblines:
         logger.critical(line.lstrip())
-    sys.exit()
+    sys.exit(1)
 
 
 def fl_mod_date(filename, dateformat='%Y-%m-%d %H:%M:%S'):
-- 
2.43.0


From 33abcc8f20016283fa3fb9d3158b41ae2e445edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:49 +0000
Subject: [PATCH 28/46] fix: create a netCDF variable from an array

The truth value of an array is ambiguous, so nc_create_var raised ValueError
for any data of more than one value, and dropped a single 0.
---
 utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index d5c8c27..86b6c0a 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -114,7 +114,7 @@ def nc_create_var(
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From d66ba446e416680fa99a34cef9e20f79678cf8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 29/46] fix: an unreadable multiplier file does not stand for
 ones

---
 utilities/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities/convert.py b/utilities/convert.py
index 3a5163a..4cf620a 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -115,6 +115,9 @@ class Converter:
                     ds = gdal.Open(filename)
                 except RuntimeError:
                     log.error(f"Cannot open {filename}")
+                    # only a file that was not written stands for ones
+                    if os.path.exists(filename):
+                        raise
                     log.error("Replacing all data with ones")
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
-- 
2.43.0


From de90576a07582b609a7665f098e5e6fed08eabe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 30/46] fix: a point at distance zero is the point itself

---
 utilities/vincenty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 89811a6..b6b3de3 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -339,7 +339,7 @@ def vinc_pt(f, a, phi1, lembda1, alpha12, s):
     # Iterate the following three equations
     # until there is no significant change in sigma
     # two_sigma_m , delta_sigma
-    while (abs((last_sigma - sigma) / sigma) > 1.0e-9):
+    while abs(last_sigma - sigma) > 1.0e-9 * abs(sigma):
         two_sigma_m = 2 * sigma1 + sigma
 
         delta_sigma = B * math.sin(sigma) * \
-- 
2.43.0


From 80175cfbcde3847d0c25515a4e8aed4f4a561af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 31/46] fix: great circle points between equal points of a
 sphere

---
 utilities/vincenty.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index b6b3de3..c4913b3 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -94,8 +94,11 @@ class GreatCircle(object):
         lon2 = self.lon2
         # perfect sphere, use great circle formula
         if self.f == 0.:
-            A = np.sin((1 - f) * d) / math.sin(d)
-            B = np.sin(f * d) / math.sin(d)
+            if d == 0.:     # the end points coincide
+                A, B = 1 - f, f
+            else:
+                A = np.sin((1 - f) * d) / math.sin(d)
+                B = np.sin(f * d) / math.sin(d)
             x = A * math.cos(lat1) * math.cos(lon1) + B * \
                 math.cos(lat2) * math.cos(lon2)
             y = A * math.cos(lat1) * math.sin(lon1) + B * \
-- 
2.43.0


From 4160d1f00963a42ee40987fe239a7c6ad883a2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 32/46] fix: distances across the date line to the same
 accuracy

---
 utilities/vincenty.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index c4913b3..62bed48 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -187,11 +187,14 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
     :Returns: ( s, alpha12,  alpha21 ) as a tuple
     """
 
-    if (abs(phi2 - phi1) < 1e-8) and (abs(lembda2 - lembda1) < 1e-8):
-        return 0.0, 0.0, 0.0
-
     two_pi = 2.0 * math.pi
 
+    # longitudes on both sides of the date line differ by the short way
+    lembda = math.remainder(lembda2 - lembda1, two_pi)
+
+    if (abs(phi2 - phi1) < 1e-8) and (abs(lembda) < 1e-8):
+        return 0.0, 0.0, 0.0
+
     b = a * (1.0 - f)
 
     tan_u1 = (1 - f) * math.tan(phi1)
@@ -200,7 +203,6 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
     U1 = math.atan(tan_u1)
     U2 = math.atan(tan_u2)
 
-    lembda = lembda2 - lembda1
     last_lembda = -4000000.0                # an impossibe value
     omega = lembda
 
-- 
2.43.0


From 5d6de4cd838b6c17638c65533275b121c25f24d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 33/46] fix: fl_module_name gives the name of the module

---
 utilities/files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/files.py b/utilities/files.py
index 443bf24..9dcc8e3 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -61,8 +61,8 @@ def fl_module_name(level=1):
 
     """
 
-    package = sys._getframe(level).f_code.co_name
-    return package
+    filename = os.path.realpath(sys._getframe(level).f_code.co_filename)
+    return os.path.splitext(os.path.basename(filename))[0]
 
 
 def fl_program_version(level=None):
-- 
2.43.0


From 2dfe019084abea1b99d367cc678900459d8a31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 34/46] fix: a shape beside another one is not covered by it

---
 utilities/shapefiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 9b1f6ab..135f937 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -73,7 +73,8 @@ class shp_file:
         def process(i):
             poly = self.geom[i]
             fids = [j for j in idx_other.query(poly)
-                    if poly.intersects(other.geom[j])]
+                    if poly.intersects(other.geom[j]) and
+                    not poly.touches(other.geom[j])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From db621725b3c221c1af1b365b49db3a7c3bca515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 35/46] fix: crop shapes that run along the border of the mask

---
 utilities/shapefiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 135f937..6f6933b 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -60,6 +60,9 @@ class shp_file:
         for idx, poly in enumerate(self.geom):
             result = polybox.intersection(poly)
             if result.area:
+                if result.geom_type == 'GeometryCollection':
+                    # leave out the lines and points along the border
+                    result = unary_union([g for g in result.geoms if g.area])
                 clip_geom.append(result)
                 clip_attribute.append(self.attribute[idx])
         self.geom = clip_geom
-- 
2.43.0


From 48924caa1a3141db8137df92ece869cac6490921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:56 +0000
Subject: [PATCH 36/46] fix: rasterize the attribute that is asked for

---
 pre_process.py | 7 +++++--
 rasterize.py   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pre_process.py b/pre_process.py
index 7b45e46..bc5bc92 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -32,7 +32,7 @@ logger.addHandler(fh)
 logger.addHandler(ch)
 
 
-def rasterize(input, output, input_topo, crop_topo):
+def rasterize(input, output, input_topo, crop_topo, attribute="CAT"):
 
     """
     Function to rasterize a shapefile
@@ -43,6 +43,9 @@ def rasterize(input, output, input_topo, crop_topo):
     :param output: name/path of the tiff file
     :type output: str
 
+    :param attribute: name of the attribute that holds the values
+    :type attribute: str
+
     """
     print("args ", input, output, input_topo, crop_topo)
     source_ds = ogr.Open(input)
@@ -78,7 +81,7 @@ def rasterize(input, output, input_topo, crop_topo):
     band.SetNoDataValue(NoData_value)
     band.FlushCache()
     gdal.RasterizeLayer(target_ds, [1],
-                        source_layer, options=["ATTRIBUTE=CAT"])
+                        source_layer, options=["ATTRIBUTE=" + attribute])
 
 
 def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
diff --git a/rasterize.py b/rasterize.py
index 5426886..024e317 100644
--- a/rasterize.py
+++ b/rasterize.py
@@ -43,7 +43,7 @@ if __name__ == "__main__":
         write_topo = None
     else:
         topofile = arg.topography
-    rasterize(arg.input, "test.tiff", topofile, True)
+    rasterize(arg.input, "test.tiff", topofile, True, arg.attribute)
     if arg.crop:
         write_topo = gdal.Warp("test_crop.tiff",
                                "test.tiff",
-- 
2.43.0


From 27f5a432e873d8f71ad25c214d1b136c97015e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 37/46] fix: save a grid without global attributes

---
 utilities/nctools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86b6c0a..2ddb569 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -281,7 +281,8 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
             var[:] = np.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
-        ncobj.setncatts(gatts)
+        if gatts is not None:
+            ncobj.setncatts(gatts)
 
     if datatitle:
         ncobj.setncattr('title', datatitle)
-- 
2.43.0


From d93a41300b749f3f103f957f3aa1ea55f72f7139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:50 +0000
Subject: [PATCH 38/46] fix: accept a log folder that another process has just
 made

With several processes, the one that lost the race to create the log
folder wrote its log in the working directory instead.
---
 all_multipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index c4bf23b..1cbce55 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -720,7 +720,7 @@ def run():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'multipliers.log')
 
-- 
2.43.0


From a27c5137335cdecd014109dc043a3c1d88cc822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 39/46] fix: start a log in a folder that another process has
 just made

fl_start_log took the folder for one that cannot be made, and put the log
in the working directory.
---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 9dcc8e3..a081694 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -246,7 +246,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
     log_dir = os.path.dirname(os.path.realpath(log_file))
     if not os.path.isdir(log_dir):
         try:
-            os.makedirs(log_dir)
+            os.makedirs(log_dir, exist_ok=True)
         except OSError:
             # Unable to create the directory, so stick it in the
             # current working directory:
-- 
2.43.0


From 65aaccb6009492ea8027ec51de95001c3b217ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:16 +0000
Subject: [PATCH 40/46] fix: save a file in a folder that another process has
 just made

fl_save_file failed when the folder appeared after it had looked for it.
---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index a081694..85a1804 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -122,7 +122,7 @@ def fl_save_file(filename, data, header='', delimiter=',', fmt='%.18e'):
 
     directory, fname = os.path.split(filename)
     if directory and not os.path.isdir(directory):
-        os.makedirs(directory)
+        os.makedirs(directory, exist_ok=True)
 
     try:
         np.savetxt(filename, data, header=header, delimiter=delimiter,
-- 
2.43.0


From 2c7526dd0a9c49471a8b2b99228c37d6eb6f2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 41/46] fix: write preprocessed attributes in the encoding of
 the land use layer

---
 utilities/shapefiles.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 6f6933b..a01fffa 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -13,12 +13,15 @@ class shp_file:
 
     def __init__(self):
         self.meta = None
+        self.encoding = None
         self.geom = []
         self.attribute = []
 
     def read(self, fname):
         with fiona.open(fname) as input:
             self.meta = input.meta
+            # write attributes in the encoding they were read from
+            self.encoding = input.tags(ns='SHAPEFILE').get('SOURCE_ENCODING')
             for i, poly in enumerate(input):
                 if poly['geometry'] is None:
                     logger.info("geometry %i is empty of %s" % (i, fname))
@@ -27,7 +30,8 @@ class shp_file:
                     self.attribute.append(poly['properties'])
 
     def save(self, fname):
-        with fiona.open(fname, 'w', **self.meta) as output:
+        with fiona.open(fname, 'w', encoding=self.encoding,
+                        **self.meta) as output:
             for i in range(len(self.attribute)):
                 output.write({
                     'geometry': mapping(self.geom[i]),
-- 
2.43.0


From 69ed6578384a9ed49dd5c4f25e7f3f1518f5d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:03 +0000
Subject: [PATCH 42/46] fix: fail when a mosaic cannot be written

---
 utilities/mpi_runner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 8aaa7ba..13c88ed 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -42,12 +42,13 @@ def parallelise_convert_on_tiles(data_path, comm):
                                           total + element[0], results, [])
             max_tile_files = functools.reduce(lambda total, element:
                                               total + element[1], results, [])
+            # errors in writing are raised here, but not when it is closed
             gdal.BuildVRT(os.path.join(data_path, 'M3',
                                        'wind-multipliers.vrt'),
-                          tile_files)
+                          tile_files).FlushCache()
             gdal.BuildVRT(os.path.join(data_path, 'M3_max',
                                        'wind-multipliers.vrt'),
-                          max_tile_files)
+                          max_tile_files).FlushCache()
         else:
             log.warning("No raster file found to build virtual raster table")
 
-- 
2.43.0


From 64eb40d7194103cf4addefd562394f0be4473fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:01 +0000
Subject: [PATCH 43/46] fix: fail when a rasterized layer cannot be written

---
 pre_process.py | 20 ++++++++++++++++++++
 rasterize.py   |  5 ++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/pre_process.py b/pre_process.py
index bc5bc92..a0f11e4 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -82,6 +82,26 @@ def rasterize(input, output, input_topo, crop_topo, attribute="CAT"):
     band.FlushCache()
     gdal.RasterizeLayer(target_ds, [1],
                         source_layer, options=["ATTRIBUTE=" + attribute])
+    # close it: errors in writing (a full disk) do not show there
+    failed = target_ds.FlushCache()
+    target_ds = band = None
+    if failed or not readable(output):
+        raise IOError("Cannot write %s" % (output))
+
+
+def readable(raster):
+    """
+    See if all cells of a raster can be read.
+
+    :param raster: name/path of the raster
+    :type raster: str
+
+    :Returns: False if it cannot be opened or some are missing
+
+    """
+    dataset = gdal.Open(raster)
+    return (dataset is not None and
+            dataset.GetRasterBand(1).Checksum() >= 0)
 
 
 def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
diff --git a/rasterize.py b/rasterize.py
index 024e317..b7b8332 100644
--- a/rasterize.py
+++ b/rasterize.py
@@ -4,7 +4,7 @@ from os.path import splitext
 from osgeo import gdal
 
 from utilities.shapefiles import shp_file
-from pre_process import rasterize
+from pre_process import rasterize, readable
 
 
 def cmdline():
@@ -50,4 +50,7 @@ if __name__ == "__main__":
                                cutlineDSName=arg.crop,
                                cropToCutline=True,
                                dstNodata=0)
+        failed = write_topo is None or write_topo.FlushCache()
         write_topo = None
+        if failed or not readable("test_crop.tiff"):
+            raise IOError("Cannot write test_crop.tiff")
-- 
2.43.0


From 775b90eb05f67840af4a8e2d12ea8671537c6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:01 +0000
Subject: [PATCH 44/46] fix: fail when a preprocessed layer cannot be written

---
 utilities/shapefiles.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index a01fffa..cc8e157 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -36,6 +36,13 @@ class shp_file:
                 output.write({
                     'geometry': mapping(self.geom[i]),
                     'properties': self.attribute[i]})
+        # some is only written when the file is closed, which hides errors
+        # such as a full disk: see if all features and attributes are there
+        with fiona.open(fname) as saved:
+            if (sum(1 for _ in saved) != len(self.attribute) or
+                    len(saved.schema['properties']) <
+                    len(self.meta['schema']['properties'])):
+                raise IOError("Cannot write %s" % (fname))
 
     def dissolve(self, attribute_name):
         list_z = zip(self.attribute, self.geom)
-- 
2.43.0


From f7006b497c36b636e2bdbe8d54c3421cc2ca54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:49 +0000
Subject: [PATCH 45/46] fix: fail when a temporary tile cannot be written

---
 all_multipliers.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 1cbce55..9c365a1 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -354,7 +354,11 @@ class Multipliers(object):
         # Do the work
         gdal.ReprojectImage(self.dem_ds, dst, self.dem_proj, self.dem_proj)
 
-        del dst  # Flush
+        # errors in writing (a full disk) are raised here, but not by del
+        if dst.FlushCache():
+            log.critical(f'Could not write {dst_filename}')
+            raise IOError
+        del dst
 
         return
 
@@ -655,7 +659,11 @@ def reproject_dataset(src_file, match_filename, dst_filename,
     # Do the work
     gdal.ReprojectImage(src, dst, src_proj, match_proj, resampling_method)
 
-    del dst  # Flush
+    # errors in writing (a full disk) are raised here, but not by del
+    if dst.FlushCache():
+        log.critical(f'Could not write {dst_filename}')
+        raise IOError
+    del dst
     if type(match_filename) == str:
         del match_ds
     if type(src_file) == str:
-- 
2.43.0


From 1f2fe749c60ffe24adb16cce9446c00fb55c2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:57 +0000
Subject: [PATCH 46/46] fix: fail when a product of the conversion cannot be
 written

---
 utilities/convert.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/utilities/convert.py b/utilities/convert.py
index 4cf620a..8a99ac8 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -76,6 +76,7 @@ class Converter:
         self.max_tile_files.append(filename)
 
         del tif
+        check_saved(filename, out_ds)
 
     def process_tile(self, tile):
         """Convert NetCDF tiles into GeoTIFF tile
@@ -160,6 +161,7 @@ class Converter:
         self.tile_files.append(filename)
 
         del tif
+        check_saved(filename, out_ds)
 
     def run(self):
         for tile in self.tiles:
@@ -168,6 +170,23 @@ class Converter:
         return self.tile_files, self.max_tile_files
 
 
+def check_saved(filename, dataset):
+    """
+    Compare a raster file with what should be in it: errors in writing such as
+    a full disk may only show when GDAL closes the file, which hides them.
+
+    :param filename: `string` the saved raster file
+    :param dataset: :class:`gdal.Dataset` the data set that it is a copy of
+    """
+
+    saved = gdal.Open(filename)
+    for index in range(1, dataset.RasterCount + 1):
+        if not np.array_equal(BandReadAsArray(saved.GetRasterBand(index)),
+                              BandReadAsArray(dataset.GetRasterBand(index)),
+                              equal_nan=True):
+            raise IOError(f"Cannot write {filename}")
+
+
 def create_sub_dirs_for_convert(data_path):
     os.makedirs(os.path.join(data_path, 'M3'), exist_ok=True)
     os.makedirs(os.path.join(data_path, 'M3_max'), exist_ok=True)
-- 
2.43.0

