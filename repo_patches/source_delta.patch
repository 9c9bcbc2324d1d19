From 464e131121e174e456eee8f1eaf1b4e68707a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 01/59] fix: replace scipy's removed interp2d for bathymetry
 interpolation

interp2d raises NotImplementedError since SciPy 1.14, so neither
update_salinity_mapping nor calc_piecewisefit could run.
---
 pyowc/calibration.py | 20 ++++----------------
 pyowc/helper.py      | 33 ++++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 25 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9aabe35..79b1374 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -9,7 +9,6 @@ import gsw
 import numpy as np
 
 from scipy.io import loadmat, savemat
-from scipy import interpolate
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
@@ -17,7 +16,7 @@ from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points
+    check_and_make_numpy_arry, selected_historical_points, interp_topo
 
 
 # pylint: disable=too-many-lines
@@ -174,12 +173,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                                                          float_data['float_lat'] + 1,
                                                          config)
 
-            float_interp = interpolate.interp2d(float_x[0, :],
-                                                float_y[:, 0],
-                                                float_elev,
-                                                kind='linear')
-
-            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])[0]
+            float_data['float_z'] = -float(interp_topo(float_x, float_y, float_elev,
+                                                       float_long_tbase, float_data['float_lat']))
 
             # gather data from area surrounding the float location
             wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)
@@ -437,14 +432,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
-        grid_interp = interpolate.interp2d(x_grid[0, :], y_grid[:, 0],
-                                           elev, kind='linear')
-
-        z_grid = []
-        for i in range(long_1[0].__len__()):
-            z_grid.append(grid_interp(long_1[0][i], lat[0][i]))
-
-        z_grid = -np.array(z_grid)
+        z_grid = -interp_topo(x_grid, y_grid, elev, long_1[0], lat[0]).reshape((-1, 1))
         coord_float = np.column_stack((long.T, lat.T, z_grid))
 
     # load the calibration settings
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9672e85..c97e573 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -5,7 +5,7 @@ from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 from scipy.io import loadmat
 
 from .data.fetchers import get_topo_grid
@@ -179,6 +179,27 @@ def process_profiles_la_variables(data, float_level_count, profile_index):
     return data
 
 
+def interp_topo(topo_x, topo_y, topo_elev, long, lat):
+    """ Bilinear interpolation of a topography grid at pairs of positions
+
+    Parameters
+    ----------
+    topo_x : longitudes of the grid, as returned by get_topo_grid
+    topo_y : latitudes of the grid (north to south), as returned by get_topo_grid
+    topo_elev : elevations on the grid, as returned by get_topo_grid
+    long : longitude(s) of the positions
+    lat : latitude(s) of the positions
+
+    Returns
+    -------
+    elevation at each (long, lat) pair
+    """
+    # the spline needs increasing latitudes
+    spline = RectBivariateSpline(topo_y[::-1, 0], topo_x[0, :], topo_elev[::-1, :], kx=1, ky=1)
+
+    return spline.ev(lat, long)
+
+
 def process_profiles_grid_variables(grid_data, config):
     """
 
@@ -205,14 +226,8 @@ def process_profiles_grid_variables(grid_data, config):
                                               np.amax(grid_data['grid_lat']) + 1,
                                               config)
 
-    grid_interp = interp2d(grid_x[0], grid_y[:, 0],
-                           grid_elev, kind='linear')
-
-    # As a note, the reason we vectorise the function here is because we do not
-    # want to compare every longitudinal value to ever latitude. Rather, we simply
-    # want to interpolate each pair of longitudes and latitudes.
-
-    grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])
+    # interpolate at each pair of longitudes and latitudes
+    grid_z = -1 * interp_topo(grid_x, grid_y, grid_elev, grid_long_tbase, grid_data['grid_lat'])
 
     grid_data['grid_z'] = grid_z
     grid_data['grid_x'] = grid_x
-- 
2.43.0


From 24f75bbe3741547399743fefd2f0f6c31af4d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 02/59] fix: find_10thetas and sal_var_plot fail to interpolate
 onto a theta level

The index of the neighbouring level was a (1, 1) array, so that interp1d was
given ragged lists (a ValueError since numpy 1.24).
---
 pyowc/core/finders.py | 4 ++--
 pyowc/plot/plots.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1e67149..dd0e072 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -639,7 +639,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -649,7 +649,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 7f9d62b..648c80c 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -451,7 +451,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -461,7 +461,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From 0a1199325860c74d2173167d55d9b8180ffc1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 03/59] fix: calibration of a series without usable theta
 levels

find_10thetas raised UnboundLocalError for an invalid theta range; its missing
levels were cast to an integer before they were tested for NaN, and fit_cond
returned scalars where its caller takes one value per profile. Such a series
is now left uncalibrated (NaN).
---
 pyowc/calibration.py  |  2 +-
 pyowc/core/finders.py | 23 ++++++++++++-----------
 pyowc/core/stats.py   | 12 ++++++------
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 79b1374..1a34376 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -583,8 +583,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       use_pres_lt, use_pres_gt,
                                                       use_percent_gt)
 
-        index = np.array(index, dtype=int)
         pp = np.argwhere(np.isnan(index) == 0)
+        index = np.where(np.isnan(index), -1, index).astype(int)
         # only proceed if we have valied theta levels
         if pp.__len__() > 0:
             for ipr in range(k):
diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index dd0e072..7dafd38 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -555,19 +555,20 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
     max_theta = np.floor(np.nanmax(ptmp) * 10) / 10
 
     # only find levels if we have a valid theta range
-    if min_theta < max_theta:
-
-        # get pressure levels
-        increment = 50
-        max_pres = np.nanmax(pres)
-        min_pres = np.nanmin(pres)
+    if not min_theta < max_theta:
+        return t_levels, p_levels, index, var_sal_theta, theta_levels
+
+    # get pressure levels
+    increment = 50
+    max_pres = np.nanmax(pres)
+    min_pres = np.nanmin(pres)
+    pres_levels = np.arange(min_pres, max_pres, increment)
+
+    # check we can get 10 theta levels. If not, alter pressure increment
+    if pres_levels.__len__() < no_levels:
+        increment = np.floor((max_pres - min_pres) / no_levels)
         pres_levels = np.arange(min_pres, max_pres, increment)
 
-        # check we can get 10 theta levels. If not, alter pressure increment
-        if pres_levels.__len__() < no_levels:
-            increment = np.floor((max_pres - min_pres) / no_levels)
-            pres_levels = np.arange(min_pres, max_pres, increment)
-
     # interpolate levels onto pressure increments
 
     interp_t = np.empty((pres_levels.__len__(), profile_depth)) * np.nan
diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ac39a12..5959795 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -162,12 +162,12 @@ def fit_cond(x, y, n_err, lvcov, *args):
     if npts == 0:
         print("Failed to find any good data")
 
-        condslope = np.nan
-        condslope_err = np.nan
-        time_deriv = np.nan
-        time_deriv_err = np.nan
-        sta_mean = np.nan
-        sta_rms = np.nan
+        condslope = np.full(nfit, np.nan)
+        condslope_err = np.full(nfit, np.nan)
+        time_deriv = np.full((nfit, 1), np.nan)
+        time_deriv_err = np.full((nfit, 1), np.nan)
+        sta_mean = np.full((1, nfit), np.nan)
+        sta_rms = np.full((1, nfit), np.nan)
         NDF = []
         fit_coef = []
         fit_breaks = []
-- 
2.43.0


From 19e76e6f00922b0cec9863371ddf7e63a3f87080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 04/59] fix: sal_var_plot blanks whole rows when a theta or
 pressure bound is set

np.argwhere's (row, column) pairs were used as a row index, which removed
levels of every profile (or raised IndexError). Use the boolean masks.
---
 pyowc/plot/plots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 648c80c..847f386 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -353,7 +353,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_theta_lt.__len__() == 0 and use_theta_gt.__len__() > 0:
-        good = np.argwhere(ptmp < use_theta_gt)
+        good = ptmp < use_theta_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -368,10 +368,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_theta_lt < use_theta_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(theta_range_lt, theta_range_gt))
+            good = np.logical_and(theta_range_lt, theta_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))
+            good = np.logical_or(theta_range_gt, theta_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
@@ -382,7 +382,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:
-        good = np.argwhere(pres > use_pres_lt)
+        good = pres > use_pres_lt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -392,7 +392,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() == 0 and use_pres_gt.__len__() > 0:
-        good = np.argwhere(pres < use_pres_gt)
+        good = pres < use_pres_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -407,10 +407,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_pres_lt < use_pres_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(pres_range_lt, pres_range_gt))
+            good = np.logical_and(pres_range_lt, pres_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(pres_range_gt, pres_range_lt))
+            good = np.logical_or(pres_range_gt, pres_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
-- 
2.43.0


From 80145b07b0f150ce4d86d7db022150e3bb96c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 05/59] fix: mapped data are sorted twice by profile number

The second (general) sort permuted the already sorted matrices again, so that
their columns no longer belonged to the profile numbers beside them.
---
 pyowc/calibration.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 1a34376..7251281 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -339,9 +339,6 @@ def update_salinity_mapping(float_dir, config, float_name):
     sorted_profile_index = data['la_profile_no'].argsort()
 
     # finalise the data sorted by profile number, make data type numpy arrays
-    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal',
-                                                         'la_map_sal_errors', 'la_noise_sal',
-                                                         'la_signal_sal'])
     # check is numpy array
     data = check_and_make_numpy_arry(data)
 
-- 
2.43.0


From fa115392f4793ea26287fb4d2d4c82e88b91e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 06/59] fix: profiles cannot be added to an existing mapping

The mapping parameters loaded from file were arrays where the mapping appends
to lists; files older than the SAF constraint were read before the missing
use_saf was filled in.
---
 pyowc/helper.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index c97e573..4a306c5 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -34,25 +34,25 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors']
             float_mapped_data.pop('la_mapsalerrors')
 
-        # flatten the data
-        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
-        float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten()
-        float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten()
-        float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten()
-        float_mapped_data["scale_lat_small"] = float_mapped_data['scale_lat_small'].flatten()
-        float_mapped_data["scale_phi_large"] = float_mapped_data['scale_phi_large'].flatten()
-        float_mapped_data["scale_phi_small"] = float_mapped_data['scale_phi_small'].flatten()
-        float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten()
-        float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten()
-        float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten()
-        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten()
-        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
-        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
-
         # Check to see if this is an older version run without the saf constraint
         if not "use_saf" in float_mapped_data:
             float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
 
+        # flatten the data
+        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
+        float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten().tolist()
+        float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten().tolist()
+        float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten().tolist()
+        float_mapped_data["scale_lat_small"] = float_mapped_data['scale_lat_small'].flatten().tolist()
+        float_mapped_data["scale_phi_large"] = float_mapped_data['scale_phi_large'].flatten().tolist()
+        float_mapped_data["scale_phi_small"] = float_mapped_data['scale_phi_small'].flatten().tolist()
+        float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten().tolist()
+        float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten().tolist()
+        float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten().tolist()
+        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten().tolist()
+        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten().tolist()
+        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten().tolist()
+
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
         max_depth = float_mapped_data["la_mapped_sal"].shape[0]
-- 
2.43.0


From 019ec4c2158a05e1eef9e0aa5ac2405c973cd092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 07/59] fix: a float without any mapped level aborts the
 mapping and calibration

selected_hist_1 and coord_float were undefined when no historical point had
been selected. The outputs are now written, with NaN for every level.
---
 pyowc/calibration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 7251281..76e40be 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -345,8 +345,8 @@ def update_salinity_mapping(float_dir, config, float_name):
     # remove problem element from dic before genral sort
     selected_hist = data.pop('selected_hist')
 
-    if len(selected_hist) > 0:
-        selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
+    # nothing is selected if no profile could be mapped
+    selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
 
     # sort value in dic
     data = sort_numpy_array(data, sorted_profile_index)
@@ -432,6 +432,9 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         z_grid = -interp_topo(x_grid, y_grid, elev, long_1[0], lat[0]).reshape((-1, 1))
         coord_float = np.column_stack((long.T, lat.T, z_grid))
 
+    else:
+        coord_float = np.ones((long.size, 3)) * np.nan
+
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
                                              system_config['FLOAT_CALSERIES_PREFIX'] + float_name +
-- 
2.43.0


From 6b4bc63c5811aa4c49271a9cdac85602ad84e136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 08/59] fix: mapped data are saved outside the float's
 directory

update_salinity_mapping looked for earlier mapped data in, and calc_piecewisefit
read them from, FLOAT_MAPPED_DIRECTORY/float_dir, but they were written to (and
plotted from) FLOAT_MAPPED_DIRECTORY.
---
 pyowc/calibration.py    | 6 +-----
 pyowc/plot/dashboard.py | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 76e40be..2ceb34b 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -353,13 +353,9 @@ def update_salinity_mapping(float_dir, config, float_name):
 
     data['selected_hist'] = selected_hist_1
 
-    # define the saving location
-    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
-                                      config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
-
     # save the data
     data['la_mapsalerrors'] = data.pop('la_map_sal_errors')
-    savemat(save_location, data)
+    savemat(mapped_data_path, data)
 
 
 # pylint: disable=invalid-name
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 3dadf17..f0d2143 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -27,7 +27,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
         Nothing, but will save the plots as PDFs
     """
 
-    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
-- 
2.43.0


From 7cabeed6dfe4e1771f135d709cd76a6295d5a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 09/59] fix: ocean depths of the historical casts are assigned
 to the wrong casts

get_region_data returns the selected casts in file order, without those that
have no good data, while the depths followed the order of the indices.
---
 pyowc/calibration.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 2ceb34b..13d22e1 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -208,7 +208,14 @@ def update_salinity_mapping(float_dir, config, float_name):
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
-                best_hist_data['grid_z'] = grid_data['grid_z'][index]
+                # find the depth of the ocean at these casts: they are neither in the order of the
+                # indices nor all there (casts without any good data have been removed)
+                best_long_tbase = np.where(best_hist_data['grid_long'] > 180,
+                                           best_hist_data['grid_long'] - 360,
+                                           best_hist_data['grid_long'])
+                best_hist_data['grid_z'] = -1 * interp_topo(grid_data['grid_x'], grid_data['grid_y'],
+                                                            grid_data['grid_elev'], best_long_tbase,
+                                                            best_hist_data['grid_lat'])
 
                 # If we are near the Subantarctic Front we need to figure out if
                 # the profile is north or south of it. Then we should remove data not on
-- 
2.43.0


From 06d160d1bab7033de861fc00f2008a202cd4e3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 10/59] fix: a profile without historical data around it aborts
 the mapping

get_region_data raised NO DATA FOUND for an empty selection and the profiles
already mapped were lost. Such a profile is left unmapped (NaN).
---
 pyowc/calibration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 13d22e1..be0198b 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -204,6 +204,12 @@ def update_salinity_mapping(float_dir, config, float_name):
                                       phi_large, phi_small, map_age_large, map_age_small,
                                       map_use_pv, max_casts)
 
+                # leave the profile unmapped if there are no historical data near it
+                if index.size == 0:
+                    print("No historical data found around this profile")
+                    profile_index += 1
+                    continue
+
                 # Now that we have the indices of the best spatial and temporal data
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
-- 
2.43.0


From 77236c6c8f930e995dd784abf8c900ad1b54cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 11/59] fix: historical data across the Greenwich meridian are
 taken as 360 degrees away

The float longitude was only moved beyond 360 if casts on both sides of the
meridian were present. Casts that are all on the other side of it than the float
were excluded from the ellipse, or mapped with separations of about 350 degrees.
---
 pyowc/calibration.py | 13 +++++--------
 pyowc/helper.py      | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index be0198b..06f41e0 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -16,7 +16,8 @@ from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points, interp_topo
+    check_and_make_numpy_arry, selected_historical_points, interp_topo, \
+    align_longitude
 
 
 # pylint: disable=too-many-lines
@@ -192,10 +193,7 @@ def update_salinity_mapping(float_dir, config, float_name):
                 grid_data = process_profiles_grid_variables(grid_data, config)
 
                 # make sure that the grid and float longitudes match at the 0-360 mark
-                float_long_0 = float_data['float_long']
-                if np.argwhere(grid_long > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_long_0 += 360
+                float_long_0 = align_longitude(float_data['float_long'], grid_long)
 
                 index = find_besthist(grid_data['grid_lat'], grid_data['grid_long'], grid_data['grid_dates'],
                                       grid_data['grid_z'], float_data['float_lat'], float_long_0,
@@ -234,9 +232,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                         best_hist_data.update(best_hist_data_2)
 
                 # make the float longitude wrap around the 0-360 mark if the historical data has
-                if np.argwhere(best_hist_data['grid_long'] > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_data['float_long'] += 360
+                float_data['float_long'] = align_longitude(float_data['float_long'],
+                                                           best_hist_data['grid_long'])
 
                 # interpolate historical data onto float theta levels
                 hist_interp_sal, hist_interp_pres = interp_climatology(best_hist_data['grid_sal'],
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 4a306c5..c675900 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -200,6 +200,27 @@ def interp_topo(topo_x, topo_y, topo_elev, long, lat):
     return spline.ev(lat, long)
 
 
+def align_longitude(float_long, grid_long):
+    """ Put the float longitude on the same side of the 0-360 mark as the historical data
+
+    Parameters
+    ----------
+    float_long : longitude of the float (0 to 360)
+    grid_long : longitudes of the historical data, as wrapped by wrap_longitude
+
+    Returns
+    -------
+    longitude of the float, beyond 360 (or below 0) if that is where the data around it are
+    """
+    if 0 <= float_long <= 20 and np.any(grid_long >= 320):
+        return float_long + 360
+
+    if float_long >= 320 and not np.any(grid_long > 40):
+        return float_long - 360
+
+    return float_long
+
+
 def process_profiles_grid_variables(grid_data, config):
     """
 
-- 
2.43.0


From 472644c78d049c9ff52b8b9302945402986f2964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 12/59] fix: calibration of a float that crosses the Greenwich
 meridian

All longitudes were shifted by -360 as soon as one was above 180: positions
just east of Greenwich gave a window beyond -360, for which get_topo_grid reads
the wrong row, and the covariance took profiles on either side of the meridian
as 360 degrees apart.
---
 pyowc/calibration.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 06f41e0..42de596 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -14,6 +14,7 @@ from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
 from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
+from .utilities import wrap_longitude
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
     check_and_make_numpy_arry, selected_historical_points, interp_topo, \
@@ -426,17 +427,14 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if lat.shape[0] > 1:
             lat = lat.flatten()
 
-        if np.any(long > 180):
-            long_1 = copy.deepcopy(long) - 360
-
-        else:
-            long_1 = copy.deepcopy(long)
+        # tbase.int file requires longitudes from 0 to +/-180
+        long_1 = np.where(long > 180, long - 360, long)
 
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
         z_grid = -interp_topo(x_grid, y_grid, elev, long_1[0], lat[0]).reshape((-1, 1))
-        coord_float = np.column_stack((long.T, lat.T, z_grid))
+        coord_float = np.column_stack((wrap_longitude(long.flatten()), lat.T, z_grid))
 
     else:
         coord_float = np.ones((long.size, 3)) * np.nan
-- 
2.43.0


From 023f9449f7da1cf51e57d9fe5c4961e51d5701e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 13/59] fix: calibration with prescribed break points

The break points were passed on as a column, and the time derivatives assigned
to the wrong dimension (IndexError).
---
 pyowc/calibration.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 42de596..682cb60 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -647,7 +647,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             else:
                 breaks_in = breaks[i, :]
-                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))]
+                breaks_in = breaks_in[np.isfinite(breaks_in)]
 
                 if max_breaks[i]:
                     (xfit, condslope, condslope_err,
@@ -661,8 +661,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       max_breaks[i][0])
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
+                    time_deriv[0][calindex] = time_deriv_temp.flatten()
+                    time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
                     sta_mean[0][calindex], = sta_mean_temp
                     sta_rms[0][calindex] = sta_rms_temp
 
@@ -676,8 +676,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       breaks_in)
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
+                    time_deriv[0][calindex] = time_deriv_temp.flatten()
+                    time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
                     sta_mean[0][calindex], = sta_mean_temp
                     sta_rms[0][calindex] = sta_rms_temp
 
-- 
2.43.0


From 2911aa0a449ec02ae2a33ea523d8507180178d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 14/59] fix: fit_cond fails as soon as the best model has a
 break point

The Monte Carlo error estimate passed its arrays to np.concatenate one by one,
and let the initial guess of the break points grow in every iteration.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 5959795..931b4ad 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -545,6 +545,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 # give an initial guess as the fitted break points to speed up calculation
                 nbr = real_breaks.__len__()
                 b_g = np.concatenate(([-1], real_breaks))
+                ubrk_g = []
 
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
@@ -555,7 +556,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate([xfit[0]], breaks)
+                btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From 37cfa76e0155f3fc0f8b6eaef61ff2caf619fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 15/59] fix: fit_cond separates observations from their
 profiles if x is not sorted

x was sorted before the sorting index was taken, which left y, the errors and
the covariance in their original order.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 931b4ad..f4419af 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -178,10 +178,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     # condition the series so that the fit is well behaved
     # sort by the independent variable
 
-    x = np.sort(x)
     sorted_index = np.argsort(x, kind='stable')
+    x = x[sorted_index]
     y = y[sorted_index]
     n_err = n_err[sorted_index]
+    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]
 
     # scale x from -1 to 1
 
-- 
2.43.0


From a68f3d06dbfaaf118a102901cc86a1fabf1ee9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 16/59] fix: a cast without usable levels discards all the
 others

If it was the first of the selected casts, all those after it failed to reshape
and were silently dropped.
---
 pyowc/data/fetchers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dc8e8a8..378cd81 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -368,6 +368,11 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
                             sal = np.delete(sal, too_deep[:, 0])
                             ptmp = np.delete(ptmp, too_deep[:, 0])
                             new_depth = pres.__len__()
+
+                            # nothing is left of this cast
+                            if new_depth == 0:
+                                continue
+
                             how_many_rows = np.max([new_depth, max_depth])
 
                             # if the new data we are adding is longer than our columns, we need to
-- 
2.43.0


From 402d83378e6accb0e126da74f100ab75698c5c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 17/59] fix: frontal_constraint_saf raises ValueError for
 repeated pressures

The truth value of an array of indices was tested instead of its size.
---
 pyowc/data/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 378cd81..445b6a8 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -552,7 +552,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
         # Calculations for Argo float
         isok = np.argwhere((~np.isnan(float_pres)) & (~np.isnan(float_tmp)))
 
-        if not np.argwhere(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
+        if np.argwhere(np.diff(float_pres[isok].T) == 0).size == 0 and (isok.__len__() > 2) and (
                 np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):
 
             # SAF:
@@ -634,7 +634,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
                     np.argwhere((np.diff(grid_pres[:, i])) != 0))
 
-                if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
+                if np.argwhere(np.diff(grid_pres[isok, i]) == 0).size == 0 and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
                     t300 = np.interp(300, grid_pres[isok, i], grid_tmp[isok, i], left=np.nan, right=np.nan)
 
-- 
2.43.0


From d29d5ee113c2d5849d77412a0511d7431911f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 18/59] fix: WMO boxes near the poles are used twice

Rows of boxes beyond 90 degrees were replaced by the polar boxes, whose casts
were then counted two or three times for floats poleward of 70 degrees.
---
 pyowc/core/finders.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 7dafd38..f2c0809 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -420,6 +420,11 @@ def find_25boxes(pn_float_long, pn_float_lat, pa_wmo_boxes):
         ln_i = []
         for i in range(0, 5):
             for j in range(0, 5):
+                # there are no boxes beyond the poles
+                if i > 0 and np.abs(ln_y[i]) >= 90:
+                    ln_i.append(np.nan)
+                    continue
+
                 ln_i.append(
                     nearest_neighbour(la_lookup_x, la_lookup_y, la_lookup_no, ln_x[j], ln_y[i])
                 )
-- 
2.43.0


From 875f23f9825c2f01d7c94be42f61b88f197d4743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 19/59] fix: interp_climatology fails for isothermal or
 single-level climatology

np.nanargmin raises ValueError when a station yields no finite value.
---
 pyowc/data/wrangling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index f8daee4..35ce811 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -141,7 +141,14 @@ def interp_climatology(grid_sal, grid_theta, grid_pres, float_sal, float_theta,
         output_placeholder[sign_changes] = interpolate_values(interp_factor, sign_changes, grid_pres, grid_pres_diff)
 
         # no sign changes between consecutive values for a station means there are no values to interpolate
+        # (nor do constant values equal to the float's, which give NaN)
         stations_with_possible_interp = np.unique(sign_changes[1])
+        interpolated = np.any(np.isfinite(output_placeholder[:, stations_with_possible_interp]), axis=0)
+        stations_with_possible_interp = stations_with_possible_interp[interpolated]
+
+        if stations_with_possible_interp.size == 0:
+            output_placeholder[sign_changes] = np.nan
+            continue
 
         # find the interpolated pres value which is closest to the float pres for each station
         min_pres = np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp] - float_pres[index]), axis=0)
-- 
2.43.0


From e31e788ffa6a79981dbfff7ed97458a10afd44a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 20/59] fix: set_calseries fails to add profiles to an existing
 file

The arrays loaded from file were used as a list and as a function; a file
without use_percent_gt raised KeyError rather than the NameError handled.
---
 pyowc/configuration.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 474fc36..88d7f99 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -176,7 +176,7 @@ def set_calseries(float_dir, float_name, system_config):
         try:
             use_percent_gt = calseries_data['use_percent_gt']
 
-        except NameError:
+        except KeyError:
             use_percent_gt = 0.5
 
         print("Using parameters found in ", calseries_filename,
@@ -230,9 +230,10 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
-        calib_profile_no.append(profile_no[missing])
         # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries(max(missing - 1, 1)))
+        previous = np.argwhere(calib_profile_no == profile_no[max(missing - 1, 0)])
+        calseries = np.append(calseries, calseries[previous[0, 0] if previous.size > 0 else 0])
+        calib_profile_no = np.append(calib_profile_no, profile_no[missing])
 
     # sort the calseries file by profile number
 
-- 
2.43.0


From 6618b939cd7cc67ce98b9323490839020c78d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 21/59] fix: set_calseries keeps more than one boundary loaded
 from file

Two boundaries are loaded as a (1, 2) array, whose length is 1; find_10thetas
cannot use them.
---
 pyowc/configuration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 88d7f99..0f7a90d 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -202,19 +202,19 @@ def set_calseries(float_dir, float_name, system_config):
 
     # ensure values are in a realistic range
 
-    if use_theta_lt.__len__() > 1:
+    if np.size(use_theta_lt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_lt = []
 
-    if use_theta_gt.__len__() > 1:
+    if np.size(use_theta_gt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_gt = []
 
-    if use_pres_lt.__len__() > 1:
+    if np.size(use_pres_lt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_lt = []
 
-    if use_pres_gt.__len__() > 1:
+    if np.size(use_pres_gt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_gt = []
 
-- 
2.43.0


From c9213c709692830bb4f6df23187ba52ff766c839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 22/59] fix: historical boxes that hold a single cast are
 ignored

read_mat squeezes their arrays, so that they could neither be concatenated nor
searched for the float's own casts; the exceptions were silently swallowed.
---
 pyowc/data/fetchers.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 445b6a8..d1945a2 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -19,16 +19,28 @@ from ..utilities import wrap_longitude, change_dates
 from ..configuration import print_cfg
 
 
+def _read_casts(filepath):
+    """Read a historical .mat file, with one column per cast (read_mat squeezes that of a single cast)."""
+    data = read_mat(filepath)
+
+    if np.ndim(data['lat']) == 0:
+        data.update({key: np.atleast_1d(data[key]) for key in ('lat', 'long', 'dates')})
+        data.update({key: np.reshape(data[key], (-1, 1)) for key in ('pres', 'ptmp', 'sal', 'temp') if key in data})
+        data.update({key: [data[key]] for key in ('source',) if key in data})
+
+    return data
+
+
 @lru_cache()
 def read_mat_ctd(filepath):
     """Cache the result of reading a ctd .mat file from disk."""
-    return read_mat(filepath)
+    return _read_casts(filepath)
 
 
 @lru_cache()
 def read_mat_bottle(filepath):
     """Load and transform a bottle .mat file."""
-    data = read_mat(filepath)
+    data = _read_casts(filepath)
 
     # if data dimensions don't match, transpose to avoid indexing issues
     if (data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
@@ -43,7 +55,7 @@ def read_mat_bottle(filepath):
 @lru_cache()
 def read_mat_argo(filepath, pa_float_name):
     """Load and transform an Argo .mat file."""
-    data = read_mat(filepath)
+    data = _read_casts(filepath)
     # remove the argo float being analysed from the data
     not_use = []
     for i in range(0, data['lat'].__len__()):
-- 
2.43.0


From dfa01d2af91e50953e095258baf56b121489df16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 23/59] fix: change_dates rejects dates without minutes if they
 are floats

The decimal point of 19740102.0 was read as the hour, and the date became 0.
---
 pyowc/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index cf10c7b..e00bd57 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -187,7 +187,8 @@ def change_dates(cal_dates):
     dec_dates = np.full(cal_dates.__len__(), 0, dtype=float)
 
     # cannot iterate through integers, so convert calendar dates into array of strings
-    cal_dates_string = list(map(str, cal_dates))
+    # (without the decimal point of those that were stored as floats)
+    cal_dates_string = [str(date).split('.', maxsplit=1)[0] for date in cal_dates]
 
     # go through and decimalise dates
     for i in range(0, cal_dates_string.__len__()):
-- 
2.43.0


From fbbd743822b6a9e36b3ed9fcd2569a7394325627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 24/59] fix: break points given per calibration series

One number of breaks per series, saved as a row, was taken as one for all of
them; a wrong number of rows of breaks raised IndexError instead of being
reported.
---
 pyowc/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 682cb60..042e638 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -446,7 +446,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
-    max_breaks = float_calseries['max_breaks']
+    max_breaks = float_calseries['max_breaks'].reshape((-1, 1))
     breaks = float_calseries['breaks']
     use_theta_gt = float_calseries['use_theta_gt']
     use_theta_lt = float_calseries['use_theta_lt']
@@ -510,7 +510,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             sstatus = 0
 
-        for n in range(n_seq):
+        for n in range(n_seq if sstatus else 0):
             nb = np.argwhere(np.isfinite(breaks[n, :])).__len__()
 
             if nb > max_breaks[n]:
-- 
2.43.0


From 82841530be10804b0252166bac2067317de0ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 25/59] fix: calibration files are read with another postfix
 than they are saved with

calseries and cal files are saved with FLOAT_CALIB_POSTFIX, but were looked for
with FLOAT_MAPPED_POSTFIX and FLOAT_SOURCE_POSTFIX.
---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 042e638..5fb15d7 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -442,7 +442,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
                                              system_config['FLOAT_CALSERIES_PREFIX'] + float_name +
-                                             system_config['FLOAT_MAPPED_POSTFIX']])
+                                             system_config['FLOAT_CALIB_POSTFIX']])
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index f0d2143..9d89e9d 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -32,9 +32,9 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
     cal_data_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
     cal_series_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
 
     grid_data = loadmat(grid_data_loc)
     float_data = loadmat(float_data_loc)
-- 
2.43.0


From faba13a1f2b3a1a2c1ea8694269669bab1fff681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 26/59] fix: find_besthist fails for one, two or four casts

With a limit of two or four nothing is left for the small scales, and the
concatenation of no indices fails; with a limit of one, two or more casts were
returned.
---
 pyowc/core/finders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index f2c0809..78ca6b6 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -207,6 +207,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
 
         # work out how many large spatial data points needed
         lsegment2 = math.ceil(max_casts / 3) + math.ceil(max_casts / 3) - index_rand.__len__()
+        lsegment2 = min(lsegment2, max_casts - index_rand.__len__())
 
         index_z = np.arange(lsegment2, int(len(z_remain_long)))
 
@@ -260,7 +261,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i2_ellipse = []
         for i in i2_remain:
             i2_ellipse.append(index_ellipse[int(i)])
-        index_large_spatial = np.concatenate(np.array(i2_ellipse))
+        index_large_spatial = np.array(i2_ellipse, dtype=int).flatten()
 
         # index3_small_spatial
         i3_small = correlation_small_sorted[:leftover]
@@ -280,7 +281,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i3_ellipse = []
         for i in i3_remain:
             i3_ellipse.append(index_ellipse[int(i)])
-        index_small_spatial = np.concatenate(np.array(i3_ellipse))
+        index_small_spatial = np.array(i3_ellipse, dtype=int).flatten()
 
         index = np.concatenate((index_rand_ellipse, index_large_spatial, index_small_spatial))
 
-- 
2.43.0


From 93d9722c92c65567ad424016971635a0ac2a40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 27/59] fix: find_besthist ranks casts with the vorticities and
 phi mixed up

spatial_correlation takes phi before the two vorticities.
---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 78ca6b6..24ea264 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -190,7 +190,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         correlation_large = spatial_correlation_vec(remain_hist_long, long, longitude_large,
                                                     remain_hist_lat, lat, latitude_large,
                                                     remain_hist_dates, date, age_large,
-                                                    pv_hist, pv_float, phi_large)
+                                                    phi_large, pv_hist, pv_float)
 
         correlation_large_sorted = correlation_large.argsort()
 
@@ -236,7 +236,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
                                                     lat, latitude_small,
                                                     s_remain_hist_dates,
                                                     date, age_small,
-                                                    pv_hist, pv_float, phi_small)
+                                                    phi_small, pv_hist, pv_float)
 
         correlation_small_sorted = correlation_small.argsort()
 
-- 
2.43.0


From c2b30c529de38a9dc2b360d87394cdc7631dbeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 28/59] fix: fit is shifted if the first profiles have no good
 data

The fit was evaluated relative to the first profile of the series instead of
the first good point it had been fitted from.
---
 pyowc/core/stats.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index f4419af..ffb04ee 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -493,11 +493,12 @@ def fit_cond(x, y, n_err, lvcov, *args):
                B_i)
     P_2 = np.diag(P)
 
-    # reduce matrix to have only one value per profile
-    btem = np.concatenate(([xfit[0]], breaks))
+    # reduce matrix to have only one value per profile. The fit starts at the first good point,
+    # profiles before it are on the first segment
+    btem = np.concatenate(([xf[0]], breaks))
     E = np.zeros((xfit.__len__(), best))
     E[:, 0] = np.ones((xfit.__len__(), 1)).T
-    ixb = sorter(btem, xfit)
+    ixb = np.maximum(sorter(btem, xfit), 0)
 
     if best >= 2:
         for j in range(best - 1):
@@ -515,7 +516,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     # factor to increase monte carlo error estimate, taking into account
     # that we have correlated noise
-    P_3 = np.dot(E, P_2) / np.dot(E, P_1)
+    P_3 = np.dot(np.abs(E), P_2) / np.dot(np.abs(E), P_1)
 
     real_A = copy.deepcopy(A)
     real_E = copy.deepcopy(E)
@@ -557,10 +558,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate(([xfit[0]], breaks))
+                btem = np.concatenate(([xf[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
-                ixb = sorter(btem, xfit)
+                ixb = np.maximum(sorter(btem, xfit), 0)
 
                 for j in range(best - 1):
                     # pointer to x values greater than break point j
-- 
2.43.0


From 85af2a0801058ac11981722041361bd8dfe7849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 29/59] fix: find_10thetas divides by zero for usable data
 within ten dbar

---
 pyowc/core/finders.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 24ea264..3af7d20 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -573,6 +573,11 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
     # check we can get 10 theta levels. If not, alter pressure increment
     if pres_levels.__len__() < no_levels:
         increment = np.floor((max_pres - min_pres) / no_levels)
+
+        # nor without a valid pressure range
+        if increment == 0:
+            return t_levels, p_levels, index, var_sal_theta, theta_levels
+
         pres_levels = np.arange(min_pres, max_pres, increment)
 
     # interpolate levels onto pressure increments
-- 
2.43.0


From ce69c6c819c0e10aea51f483fe7f09f8676600ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 30/59] fix: lateral covariance of the calibration takes
 longitudes for latitudes

build_cov and covarxy_pv take the latitude first; the float positions were given longitude first, so that the
longitude and latitude scales were swapped and the vorticity was that of the sine of the longitude.
---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 5fb15d7..f4c95a4 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -434,7 +434,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
         z_grid = -interp_topo(x_grid, y_grid, elev, long_1[0], lat[0]).reshape((-1, 1))
-        coord_float = np.column_stack((wrap_longitude(long.flatten()), lat.T, z_grid))
+        # in the order that build_cov expects
+        coord_float = np.column_stack((lat.T, wrap_longitude(long.flatten()), z_grid))
 
     else:
         coord_float = np.ones((long.size, 3)) * np.nan
-- 
2.43.0


From c6ed393d3630feb5af30bfee68d918e9e7fac3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 31/59] fix: error of the time derivative is a variance in
 scaled units

---
 pyowc/core/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ffb04ee..7a8473e 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -639,7 +639,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     elif best == 2:
         time_deriv = A[1] * np.ones((nfit, 1))
-        time_deriv_err = P_2[1] * np.ones((nfit, 1))
+        time_deriv_err = np.sqrt(P_2[1]) * y_scale / x_scale * np.ones((nfit, 1))
 
     else:
         time_deriv = np.ones((nfit, 1)) * np.nan
@@ -647,7 +647,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         for j in range(best - 1):
             ib = np.argwhere(ixb == j)
             time_deriv[ib] = A[j + 1]
-            time_deriv_err[ib] = P_2[j + 1]
+            time_deriv_err[ib] = np.sqrt(P_2[j + 1]) * y_scale / x_scale
 
     condslope = yfit.T
     condslope_err = yerr.T
-- 
2.43.0


From be7fbc54f1b07adbfb244cb6785b1c3229e83d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 32/59] fix: calibration fails for a series without prescribed
 breaks besides one with them

The default number of break points was never used: without max_no_breaks the empty list was converted to an
integer. The operator's maximum is now passed on in every case.
---
 pyowc/calibration.py | 4 +++-
 pyowc/core/stats.py  | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index f4c95a4..3e588ad 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -674,7 +674,9 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                      fit_coef, fit_breaks) = fit_cond(x, y, err,
                                                       covariance,
                                                       'breaks',
-                                                      breaks_in)
+                                                      breaks_in,
+                                                      'max_no_breaks',
+                                                      max_breaks[i][0])
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
                     time_deriv[0][calindex] = time_deriv_temp.flatten()
diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 7a8473e..2c8a0e9 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -282,6 +282,9 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 raise ValueError("Paramater " + param + " not found in parameter list") from None
 
     # intialise variable for search over number of break points
+    if isinstance(max_brk_in, list):
+        max_brk_in = nbr if setbreaks else max_brk_dflt
+
     max_brk_in = int(max_brk_in)
 
     if max_brk_in == -1:
-- 
2.43.0


From 60e074aa498f01df173369045477d398fe7699b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 33/59] fix: fit aborts for a series of few profiles with too
 many break points allowed

---
 pyowc/core/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 2c8a0e9..c9c85ff 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -1037,8 +1037,9 @@ def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):
     else:
         ls_est = np.dot(trends.T, trends)
 
-    if np.linalg.det(ls_est) == 0:
-        fit_param = np.zeros((b_length + 2, 1))
+    # the matrix is singular as well if its rank is lost to rounding only
+    if np.linalg.det(ls_est) == 0 or np.linalg.matrix_rank(ls_est) < b_length + 2:
+        fit_param = np.zeros(b_length + 2)
         residual = y_obvs
         print("ERROR in brk_pt_fit: DET(A) == 0")
         return fit_param, residual
-- 
2.43.0


From 02e39a03a2c7df4bbf9e7205253f4be44038a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 34/59] fix: error of the time derivative is scaled twice

P_2 is a view of the diagonal of P, which was rescaled in place
---
 pyowc/core/stats.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index c9c85ff..1a7bb0a 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -620,11 +620,9 @@ def fit_cond(x, y, n_err, lvcov, *args):
         break_pts = breaks * x_scale + x_0
 
     A[0] = A[0] * y_scale + y_0
-    P[0] = P[0] * y_scale
 
     if A.__len__() > 1:
         A[1:best] = A[1:best] * y_scale / x_scale
-        P[1:best] = P[1:best] * y_scale / x_scale
 
     yfit = yfit * y_scale + y_0
     err = np.sqrt(err) * y_scale
-- 
2.43.0


From f8bdbc2697887a0eb6dc0040139a93b1f9b6a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 35/59] fix: set_calseries keeps profiles that are no longer in
 the source file

Their entries shift the series of the profiles that follow, and the calibration
then picks the wrong profiles
---
 pyowc/configuration.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 0f7a90d..cf175b0 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -218,6 +218,16 @@ def set_calseries(float_dir, float_name, system_config):
         print("More than one pressure boundary used, removing boundary...")
         use_pres_gt = []
 
+    # leave out profiles that are no longer in the source file
+    in_source = np.isin(calib_profile_no, profile_no)
+    if np.any(in_source):
+        calseries = calseries[in_source]
+        calib_profile_no = calib_profile_no[in_source]
+
+    else:
+        calseries = np.ones((1, no_profiles)).flatten()
+        calib_profile_no = profile_no
+
     # Check that there are no missing profiles between source and calseries files
 
     missing_profiles_index = []
-- 
2.43.0


From 7948e0987d1267de3d02a8c3f38b5a726065b93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 36/59] fix: several maximum numbers of breaks for a single
 series are reported but used

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 3e588ad..a1a1224 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -486,6 +486,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         print("Error in specificying number of possible break points")
         print(str(max_breaks), " specified, should be ",
               str([max_breaks.__len__(), n_seq]))
+        sstatus = 0
 
     # we have multiple cal series, make sure that break information is provideed for all segments
     elif n_seq > 1:
-- 
2.43.0


From b94a817e27981ebb034d881b3b6821c8a202adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 37/59] fix: a series limited to an offset counts as having too
 many breaks besides one with breaks

---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index a1a1224..7435975 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -515,7 +515,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         for n in range(n_seq if sstatus else 0):
             nb = np.argwhere(np.isfinite(breaks[n, :])).__len__()
 
-            if nb > max_breaks[n]:
+            # a series without breaks may be limited to an offset (-1)
+            if nb > max(max_breaks[n], 0):
                 print("Error, for cal series ", str(unique_cal[n]), "max number of breaks ",
                       str(max_breaks[n]), " less than ", str(nb), "prescribed breaks")
                 sstatus = 0
-- 
2.43.0


From eba6cb74aba176657919bfbf166f6260a41b7ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:44 +0000
Subject: [PATCH 38/59] fix: diagnostics draw over figures that are still open

---
 pyowc/plot/plots.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 847f386..c2d65a6 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -52,6 +52,7 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
         Nothing
     """
 
+    plt.figure()
     axes = plt.gca()
     axes.set_aspect(1)
 
@@ -224,8 +225,7 @@ def t_s_profile_plot(sal, ptmp, pres, sal_var, theta_levels, tlevels, plevels, f
         Nothing
     """
 
-    #plt.figure(1)
-    plt.figure(1, figsize=(7, 9))
+    plt.figure(figsize=(7, 9))
     # plot t-s profile
     plt.subplot(222)
 
@@ -630,7 +630,6 @@ def cal_sal_curve_plot(sal, cal_sal, cal_sal_err, sta_sal, sta_sal_err, sta_mean
 
         # vertically averaged salinity plot
         plt.subplot(212)
-        plt.figure(1)
 
         plt.plot(profile_no[0], avg_sal_offset, color=(0, 1, 0), linestyle='-', linewidth=2)
         good = np.argwhere(np.isfinite(avg_sta_offset))
-- 
2.43.0


From 1b23abcdb6f8479e6f991752c01fedfefeb359c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:04 +0000
Subject: [PATCH 39/59] fix: diagnostics stop for a float without data on the
 theta levels

---
 pyowc/plot/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index c2d65a6..eae8a0b 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -554,7 +554,9 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         plt.savefig(plot_loc + "_salinity_variance_" + str(i + 1) + "." + save_format,
                     format=save_format, bbox_inches='tight')
 
-        plt.ylim((np.nanmin(s_int) - 0.05, np.nanmax(s_int) + 0.05))
+        if np.any(np.isfinite(s_int)):
+            plt.ylim((np.nanmin(s_int) - 0.05, np.nanmax(s_int) + 0.05))
+
         plt.show()
 
 
-- 
2.43.0


From 2323643294c534878ed5d5202ea5c1f33a43bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 40/59] fix: diagnostics stop for a float with a single profile

---
 pyowc/plot/plots.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index eae8a0b..b83a91f 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -733,13 +733,16 @@ def sal_anom_plot(sal, ptmp, profile_no, config, float_name, title='uncalibrated
 
     for bounds in config['THETA_BOUNDS']:
         plt.figure(figsize=(10, 6))
-        c_bounds = plt.contourf(profile_no[0], theta_base, sal_anom, levels=levels, cmap='seismic')
-        plt.contourf(profile_no[0], theta_base, sal_anom, levels=[0.1, 1000], colors='red')
-        plt.contourf(profile_no[0], theta_base, sal_anom, levels=[-1000, -0.1], colors='blue')
-        plt.contour(profile_no[0], theta_base, sal_anom, levels=[0], colors='black')
-        plt.contour(profile_no[0], theta_base, sal_anom, levels=levels,
-                    colors='black', linestyles='solid', linewidths=0.25)
-        plt.colorbar(c_bounds, label="Difference", ticks=levels)
+        # contours need more than one profile
+        if sal_anom.shape[1] > 1:
+            c_bounds = plt.contourf(profile_no[0], theta_base, sal_anom, levels=levels, cmap='seismic')
+            plt.contourf(profile_no[0], theta_base, sal_anom, levels=[0.1, 1000], colors='red')
+            plt.contourf(profile_no[0], theta_base, sal_anom, levels=[-1000, -0.1], colors='blue')
+            plt.contour(profile_no[0], theta_base, sal_anom, levels=[0], colors='black')
+            plt.contour(profile_no[0], theta_base, sal_anom, levels=levels,
+                        colors='black', linestyles='solid', linewidths=0.25)
+            plt.colorbar(c_bounds, label="Difference", ticks=levels)
+
         plt.xlabel("profile number")
         plt.ylabel("theta")
         plt.ylim((bounds[0], bounds[1]))
-- 
2.43.0


From 625b9bf2af4a06008710b20c9f07124a8195e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:25 +0000
Subject: [PATCH 41/59] fix: climatology files whose casts have a single level,
 or without casts, are misread

---
 pyowc/data/fetchers.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index d1945a2..c087ed6 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -20,14 +20,19 @@ from ..configuration import print_cfg
 
 
 def _read_casts(filepath):
-    """Read a historical .mat file, with one column per cast (read_mat squeezes that of a single cast)."""
+    """Read a historical .mat file, with one column per cast (read_mat squeezes single casts and levels)."""
     data = read_mat(filepath)
 
     if np.ndim(data['lat']) == 0:
-        data.update({key: np.atleast_1d(data[key]) for key in ('lat', 'long', 'dates')})
-        data.update({key: np.reshape(data[key], (-1, 1)) for key in ('pres', 'ptmp', 'sal', 'temp') if key in data})
         data.update({key: [data[key]] for key in ('source',) if key in data})
 
+    data.update({key: np.atleast_1d(data[key]) for key in ('lat', 'long', 'dates')})
+    no_casts = data['lat'].size
+
+    for key in ('pres', 'ptmp', 'sal', 'temp'):
+        if key in data and np.ndim(data[key]) < 2:
+            data[key] = np.reshape(data[key], (np.size(data[key]) // max(no_casts, 1), no_casts))
+
     return data
 
 
@@ -43,7 +48,7 @@ def read_mat_bottle(filepath):
     data = _read_casts(filepath)
 
     # if data dimensions don't match, transpose to avoid indexing issues
-    if (data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
+    if data['lat'].ndim > 1 and data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]:
         data['pres'] = data['pres'].T
         data['ptmp'] = data['ptmp'].T
         data['sal'] = data['sal'].T
@@ -344,7 +349,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                 if data:
                     # Sometimes the data comes in wrapped in as a 3d array, so convert to 2d
-                    if data['pres'].__len__() == 1:
+                    if np.ndim(data['pres']) > 2:
                         data['pres'] = data['pres'][0]
                         data['sal'] = data['sal'][0]
                         data['ptmp'] = data['ptmp'][0]
-- 
2.43.0


From 98c327ae7d3b80ff41b8956c42e4a6af3cf456d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 42/59] fix: unreadable climatology files are left out silently

---
 pyowc/data/fetchers.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index c087ed6..5e0aea0 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -21,6 +21,9 @@ from ..configuration import print_cfg
 
 def _read_casts(filepath):
     """Read a historical .mat file, with one column per cast (read_mat squeezes single casts and levels)."""
+    if not os.path.exists(filepath):
+        raise FileNotFoundError(filepath)
+
     data = read_mat(filepath)
 
     if np.ndim(data['lat']) == 0:
@@ -205,6 +208,10 @@ def get_data(wmo_box, data_type, config, pa_float_name):
     # warnings.warn("pa_float_name: %s (%s)" % (str(pa_float_name), type(pa_float_name)))
 
     data = []
+    # the box does not exist
+    if np.isnan(wmo_box[0]):
+        return data
+
     box_name = str(int(wmo_box[0]))
     # check if we should use this data. If so, get the data
     if wmo_box[data_type] == 1 and data_type == 1:
@@ -225,7 +232,6 @@ def get_data(wmo_box, data_type, config, pa_float_name):
     return data
 
 
-# pylint: disable=bare-except
 def get_region_hist_locations(pa_wmo_numbers, pa_float_name, config):
     """ Uses the WMO boxes and to return all of the historical data in the given area, excluding the float that is currently being analysed.
 
@@ -270,7 +276,8 @@ def get_region_hist_locations(pa_wmo_numbers, pa_float_name, config):
                     grid_dates = np.concatenate([grid_dates, data['dates']])
                     data = []
 
-            except:
+            except FileNotFoundError:
+                # no data of this type in this box
                 pass
 
     if grid_lat.__len__() == 0:
@@ -440,7 +447,8 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
                             max_depth = grid_pres.shape[1]
                             how_many_cols = grid_pres.shape[0]
 
-            except:
+            except FileNotFoundError:
+                # no data of this type in this box
                 pass
 
     # convert longitude to 0 to 360 degrees
-- 
2.43.0


From bba7ef5cf0cd793fdde996a0fbbf38aab5d05951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 43/59] fix: match mapped data to float profiles by profile
 number

The mapped file keeps profiles that are no longer in the float source file.
calc_piecewisefit and plot_diagnostics took the columns of the mapped data by
position, so that every profile after one that had been taken out of the source
file was compared with the mapped salinity of another profile.
---
 pyowc/calibration.py    |  9 +++++----
 pyowc/helper.py         | 26 ++++++++++++++++++++++++++
 pyowc/plot/dashboard.py |  8 +++++---
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 7435975..42432e3 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -18,7 +18,7 @@ from .utilities import wrap_longitude
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
     check_and_make_numpy_arry, selected_historical_points, interp_topo, \
-    align_longitude
+    align_longitude, get_mapped_columns
 
 
 # pylint: disable=too-many-lines
@@ -418,6 +418,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     mapsalerror = float_mapped_data['la_mapsalerrors']
     mapped_ptmp = float_mapped_data['la_ptmp']
     selected_hist = float_mapped_data['selected_hist']
+    mapped_columns = get_mapped_columns(float_mapped_data, profile_no)
 
     # retrieve XYZ of float position used to build covariance
     if selected_hist.__len__() > 0:
@@ -564,9 +565,9 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         unique_sal = sal[:, calindex]
         unique_ptmp = ptmp[:, calindex]
         unique_pres = pres[:, calindex]
-        unique_mapped_ptmp = mapped_ptmp[:, calindex]
-        unique_mapped_sal = mapped_sal[:, calindex]
-        unique_mapsalerrors = mapsalerror[:, calindex]
+        unique_mapped_ptmp = mapped_ptmp[:, mapped_columns[calindex]]
+        unique_mapped_sal = mapped_sal[:, mapped_columns[calindex]]
+        unique_mapsalerrors = mapsalerror[:, mapped_columns[calindex]]
 
         ten_sal = np.ones((10, k)) * np.nan
         ten_ptmp = np.ones((10, k)) * np.nan
diff --git a/pyowc/helper.py b/pyowc/helper.py
index c675900..8bbdf07 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -405,3 +405,29 @@ def selected_historical_points(data, hist_data, profile_index):
                 data['selected_hist'] = np.vstack((data['selected_hist'], add_hist_data))
 
     return data
+
+
+def get_mapped_columns(mapped_data, profile_no):
+    """ Find the columns of the mapped data that belong to the profiles of the float source file
+
+    The mapped data may hold further profiles, which are no longer in the source file
+
+    Parameters
+    ----------
+    mapped_data : mapped data, as loaded from file
+    profile_no : profile numbers in the float source file
+
+    Returns
+    -------
+    column of each profile; beyond the last column for profiles that have not been mapped
+    """
+    mapped_no = mapped_data['la_profile_no'].flatten()
+    columns = np.full(profile_no.size, mapped_no.size)
+
+    for i, number in enumerate(profile_no.flatten()):
+        found = np.argwhere(mapped_no == number)
+
+        if found.size > 0:
+            columns[i] = found[0, 0]
+
+    return columns
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 9d89e9d..fd097be 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -9,6 +9,7 @@ import numpy as np
 from pyowc.plot.plots import theta_sal_plot, cal_sal_curve_plot, sal_var_plot, t_s_profile_plot, trajectory_plot, sal_anom_plot
 from pyowc.plot.utils import create_dataframe
 from pyowc.core.finders import find_10thetas
+from pyowc.helper import get_mapped_columns
 
 
 #pylint: disable=too-many-locals
@@ -58,9 +59,10 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     sal = np.array(float_data['SAL'])
     ptmp = np.array(float_data['PTMP'])
     pres = float_data['PRES']
-    map_sal = grid_data['la_mapped_sal']
-    map_ptmp = grid_data['la_ptmp']
-    map_errors = grid_data['la_mapsalerrors']
+    columns = get_mapped_columns(grid_data, float_data['PROFILE_NO'])
+    map_sal = grid_data['la_mapped_sal'][:, columns]
+    map_ptmp = grid_data['la_ptmp'][:, columns]
+    map_errors = grid_data['la_mapsalerrors'][:, columns]
 
     use_theta_lt = cal_series['use_theta_lt']
     use_theta_gt = cal_series['use_theta_gt']
-- 
2.43.0


From 399718864eab5708c4c0217bebab89c6f9c795ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 44/59] fix: mapping stops at levels whose data all lie at one
 place

The noise variance of such data is zero, so that the data covariance can't be
inverted: either the mapping of the whole float stopped (LinAlgError), or what
numerical noise there was in the inverse got saved as the mapped salinity. Like
levels with too few data, these levels can't be mapped.
---
 pyowc/calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 42432e3..c6b632e 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -280,6 +280,10 @@ def update_salinity_mapping(float_dir, config, float_name):
                                                        hist_data['hist_lat'].flatten(),
                                                        hist_data['hist_long'].flatten())
 
+                            # without unique points there is no noise estimate, and nothing can be mapped
+                            if noise_sal == 0:
+                                continue
+
                             signal_sal = signal_variance(hist_data['hist_sal'])
 
                             # map residuals
-- 
2.43.0


From 1862e6dc1408e5cd313dd2834307f08965daa9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 45/59] fix: climatology files updated during a session are
 ignored

---
 pyowc/data/fetchers.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 5e0aea0..a20cb59 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -7,7 +7,7 @@
         -------
 
 """
-from functools import lru_cache
+from functools import lru_cache, wraps
 import warnings
 import os
 import struct
@@ -39,13 +39,27 @@ def _read_casts(filepath):
     return data
 
 
-@lru_cache()
+def cache_file(reader):
+    """Cache what is read from a file, for as long as the file on disk stays the same."""
+    @lru_cache()
+    def cached_reader(_, filepath, *args):
+        return reader(filepath, *args)
+
+    @wraps(reader)
+    def read(filepath, *args):
+        status = os.stat(filepath)
+        return cached_reader((status.st_mtime_ns, status.st_size, status.st_ino), filepath, *args)
+
+    return read
+
+
+@cache_file
 def read_mat_ctd(filepath):
     """Cache the result of reading a ctd .mat file from disk."""
     return _read_casts(filepath)
 
 
-@lru_cache()
+@cache_file
 def read_mat_bottle(filepath):
     """Load and transform a bottle .mat file."""
     data = _read_casts(filepath)
@@ -60,7 +74,7 @@ def read_mat_bottle(filepath):
     return data
 
 
-@lru_cache()
+@cache_file
 def read_mat_argo(filepath, pa_float_name):
     """Load and transform an Argo .mat file."""
     data = _read_casts(filepath)
-- 
2.43.0


From 3f926eddb327e3b2cff18da9a84a66b77b9d8376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 46/59] fix: a float without any historical data cannot be
 plotted

---
 pyowc/plot/dashboard.py | 4 +++-
 pyowc/plot/plots.py     | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index fd097be..569f5b7 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -45,7 +45,9 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     float_long = float_data['LONG']
     float_long[float_long > 180] -= 360
 
-    long_i = grid_data['selected_hist']
+    # (no rows at all when no historical point was selected for this float)
+    long_i = grid_data['selected_hist'].reshape(-1, 3)
+    grid_data['selected_hist'] = long_i
     grid_long = long_i[:, 0]
     grid_long[grid_long > 180] -= 360
 
diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index b83a91f..283c3b9 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -117,8 +117,11 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
     plt.xlabel("Longitude")
     plt.ylabel("Latitude")
     plt.axis([-180, 180, -90, 90])
-    plt.xlim(np.min(climatology['Longitude']) - 20, np.max(climatology['Longitude']) + 20)
-    plt.ylim(np.min(climatology['Latitude']) - 15, np.max(climatology['Latitude']) + 15)
+    # show the region of the historical data, or the one of the float if there are none
+    region = climatology if len(climatology.index) > 0 else floats.dropna()
+    if len(region.index) > 0:
+        plt.xlim(np.min(region['Longitude']) - 20, np.max(region['Longitude']) + 20)
+        plt.ylim(np.min(region['Latitude']) - 15, np.max(region['Latitude']) + 15)
 
     color = plt.get_cmap('jet')
 
-- 
2.43.0


From f67db47cb455cea25cc4555d6d3bd2c47d4d5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:33 +0000
Subject: [PATCH 47/59] fix: the fit fails when no profile left in the source
 has a position

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index c6b632e..a057516 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -425,7 +425,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     mapped_columns = get_mapped_columns(float_mapped_data, profile_no)
 
     # retrieve XYZ of float position used to build covariance
-    if selected_hist.__len__() > 0:
+    if selected_hist.__len__() > 0 and not (np.all(np.isnan(lat)) or np.all(np.isnan(long))):
         if long.shape[0] > 1:
             long = long.flatten()
 
-- 
2.43.0


From 38d22103825ebcc7b7f219ee3c246da1910611df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:47 +0000
Subject: [PATCH 48/59] fix: a profile whose only level is the first one of its
 column is not mapped

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index a057516..daafb49 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -160,7 +160,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
         # if we have any good location data and pressure data from the float
         if not np.isnan(float_data['float_long']) and not np.isnan(float_data['float_lat']) \
-                and np.argwhere(np.isnan(float_data['float_pres']) == 0).any():
+                and not np.all(np.isnan(float_data['float_pres'])):
 
             # tbase.int file requires longitudes from 0 to +/-180
             float_long_tbase = copy.deepcopy(float_data['float_long'])
-- 
2.43.0


From 6ce2938e04b3ee3b8eb8c40e66a2f6aefa0a362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:04 +0000
Subject: [PATCH 49/59] fix: new profiles cannot be mapped when the source has
 fewer levels than before

---
 pyowc/helper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 8bbdf07..eeb3631 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -156,6 +156,9 @@ def process_profiles_la_variables(data, float_level_count, profile_index):
     -------
 
     """
+    # the mapped data may have more levels than there are in the float source file
+    float_level_count = max(float_level_count, data['la_ptmp'].shape[0])
+
     # if we are inserting changing a column in existing data
     if profile_index < data['la_ptmp'].shape[1]:
         data['la_ptmp'][:, profile_index] = np.nan * np.ones(float_level_count)
-- 
2.43.0


From f131c6e88178ef1d248289961c3230a648e04502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 50/59] fix: the fit and the figures fail when the source has
 fewer levels than the mapped data

---
 pyowc/calibration.py    | 7 ++++---
 pyowc/plot/dashboard.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index daafb49..1c0134a 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -565,13 +565,14 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         k = calindex.__len__()
 
         # chose 10 float theta levels to use for the piecewise linear fit
+        # (the mapped data may have more levels than there are in the source file)
         unique_coord_float = coord_float[calindex, :]
         unique_sal = sal[:, calindex]
         unique_ptmp = ptmp[:, calindex]
         unique_pres = pres[:, calindex]
-        unique_mapped_ptmp = mapped_ptmp[:, mapped_columns[calindex]]
-        unique_mapped_sal = mapped_sal[:, mapped_columns[calindex]]
-        unique_mapsalerrors = mapsalerror[:, mapped_columns[calindex]]
+        unique_mapped_ptmp = mapped_ptmp[:m, mapped_columns[calindex]]
+        unique_mapped_sal = mapped_sal[:m, mapped_columns[calindex]]
+        unique_mapsalerrors = mapsalerror[:m, mapped_columns[calindex]]
 
         ten_sal = np.ones((10, k)) * np.nan
         ten_ptmp = np.ones((10, k)) * np.nan
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 569f5b7..1d56665 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -61,10 +61,11 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     sal = np.array(float_data['SAL'])
     ptmp = np.array(float_data['PTMP'])
     pres = float_data['PRES']
+    # the mapped data may have further profiles, and more levels, than the source file
     columns = get_mapped_columns(grid_data, float_data['PROFILE_NO'])
-    map_sal = grid_data['la_mapped_sal'][:, columns]
-    map_ptmp = grid_data['la_ptmp'][:, columns]
-    map_errors = grid_data['la_mapsalerrors'][:, columns]
+    map_sal = grid_data['la_mapped_sal'][:pres.shape[0], columns]
+    map_ptmp = grid_data['la_ptmp'][:pres.shape[0], columns]
+    map_errors = grid_data['la_mapsalerrors'][:pres.shape[0], columns]
 
     use_theta_lt = cal_series['use_theta_lt']
     use_theta_gt = cal_series['use_theta_gt']
-- 
2.43.0


From 0cf7ac5324984e1841f61c5b2853a172085a875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 51/59] fix: build_cov failed for potential temperatures above
 30 or below -2 degrees

---
 pyowc/core/stats.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 1a7bb0a..4d71ece 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -844,9 +844,11 @@ def build_cov(ptmp, coord_float, config):
     # set up the covariance matrix
     cov = np.zeros((ptmp_rows * ptmp_columns, ptmp_rows))
 
-    # set up interpolation grids
-    upper_interp = interpolate.interp1d(ptboundaries, ptscale_down)
-    lower_interp = interpolate.interp1d(ptboundaries, ptscale_up)
+    # set up interpolation grids (water beyond the boundaries has the scale of the outermost water mass)
+    upper_interp = interpolate.interp1d(ptboundaries, ptscale_down, bounds_error=False,
+                                        fill_value=(ptscale_down[-1], ptscale_down[0]))
+    lower_interp = interpolate.interp1d(ptboundaries, ptscale_up, bounds_error=False,
+                                        fill_value=(ptscale_up[-1], ptscale_up[0]))
 
     # go through each profile
     for profile in range(0, ptmp_columns):
-- 
2.43.0


From 971b050ed548055518911465bf2d61ea1899ccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:04 +0000
Subject: [PATCH 52/59] fix: with MAP_USE_PV one cast or profile over zero
 depth stopped the mapping

---
 pyowc/utilities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index e00bd57..a5fe9b4 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -128,6 +128,10 @@ def potential_vorticity(lat, z_value):
     earth_angular_velocity = 2 * 7.292 * 10 ** -5
     lat_radians = lat * math.pi / 180
 
+    # no water column: the vorticity has no bound (and is comparable with none)
+    if z_value == 0:
+        return math.inf
+
     p_v = (earth_angular_velocity * math.sin(lat_radians)) / z_value
 
     if p_v == 0:
-- 
2.43.0


From 052dc265180bf280eaa545bc3dc40c73e5d931a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:47 +0000
Subject: [PATCH 53/59] fix: climatology whose pressures are stored as integers
 cannot be used

---
 pyowc/data/fetchers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index a20cb59..13dd715 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -36,6 +36,10 @@ def _read_casts(filepath):
         if key in data and np.ndim(data[key]) < 2:
             data[key] = np.reshape(data[key], (np.size(data[key]) // max(no_casts, 1), no_casts))
 
+        # whole numbers may be stored as integers, which cannot be NaN
+        if key in data:
+            data[key] = np.asarray(data[key], dtype=float)
+
     return data
 
 
-- 
2.43.0


From 559f49f62037953e7e6c02b6b6ad31dd60503db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:54 +0000
Subject: [PATCH 54/59] fix: whole numbers stored as integers in the source
 file stop the calibration and figures

---
 pyowc/calibration.py    | 11 ++++++-----
 pyowc/plot/dashboard.py |  4 ++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 1c0134a..ec94d90 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -404,11 +404,12 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                float_name + system_config['FLOAT_SOURCE_POSTFIX']])
     float_source_data = loadmat(float_source_data_path)
 
-    lat = float_source_data['LAT']
-    long = float_source_data['LONG']
-    sal = float_source_data['SAL']
-    ptmp = float_source_data['PTMP']
-    pres = float_source_data['PRES']
+    # (whole numbers may be stored as integers, which can neither be NaN nor, some, negative)
+    lat = float_source_data['LAT'].astype(float)
+    long = float_source_data['LONG'].astype(float)
+    sal = float_source_data['SAL'].astype(float)
+    ptmp = float_source_data['PTMP'].astype(float)
+    pres = float_source_data['PRES'].astype(float)
     profile_no = float_source_data['PROFILE_NO']
     x_in = np.tile(profile_no, (10, 1))
 
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 1d56665..9078d45 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -42,6 +42,10 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     cal_data = loadmat(cal_data_loc)
     cal_series = loadmat(cal_series_loc)
 
+    # whole numbers may be stored as integers, which can neither be NaN nor, some, negative
+    for key in ('LAT', 'LONG', 'SAL', 'PTMP', 'PRES'):
+        float_data[key] = float_data[key].astype(float)
+
     float_long = float_data['LONG']
     float_long[float_long > 180] -= 360
 
-- 
2.43.0


From 7dc74592c68932bbf90452fc58bfe4c4f9d2f171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:17 +0000
Subject: [PATCH 55/59] fix: profiles numbered above 255 are renamed in a
 mapped file of small numbers

---
 pyowc/helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index eeb3631..b01d549 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -39,7 +39,8 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
 
         # flatten the data
-        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
+        # (small integers could not hold the numbers of later profiles)
+        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten().astype(float)
         float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten().tolist()
         float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten().tolist()
         float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten().tolist()
-- 
2.43.0


From efaad3e8fb148fb63b943b587da873183e0529bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:24 +0000
Subject: [PATCH 56/59] fix: a float without any potential temperature cannot
 be plotted

---
 pyowc/plot/plots.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 283c3b9..70990e8 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -688,13 +688,12 @@ def sal_anom_plot(sal, ptmp, profile_no, config, float_name, title='uncalibrated
     #ptmp_0 = gsw.conversions.pt0_from_t(sal, ptmp, pres)
     sal_int = np.nan * np.ones((len(theta_base), sal.shape[1]))
     sal_anom = np.nan * np.ones((len(theta_base), sal.shape[1]))
-    prof_range = np.nan*np.ones((2, 1), dtype=int).flatten()
 
     # find anomaly
 
-    good_ptmp = np.where(~np.isnan(ptmp.T[:, :]))
-    prof_range[0] = int(np.nanmin(good_ptmp[0]))
-    prof_range[1] = int(np.nanmax(good_ptmp[0]))
+    # (no profile at all may have temperatures)
+    good_ptmp = np.flatnonzero(np.any(~np.isnan(ptmp), axis=0))
+    prof_range = [good_ptmp[0], good_ptmp[-1]] if good_ptmp.size > 0 else [0, -1]
 
     for k in range(int(prof_range[0]), int(prof_range[1] + 1)):
         temp = ptmp[:, k]
-- 
2.43.0


From 3fb9f41aacf744b88321bae6628c56c71990000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:56 +0000
Subject: [PATCH 57/59] fix: a float that has lost its pressures since it was
 mapped cannot be calibrated or plotted

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 3af7d20..0eca6e1 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -560,8 +560,8 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
     min_theta = np.ceil(np.nanmin(ptmp) * 10) / 10
     max_theta = np.floor(np.nanmax(ptmp) * 10) / 10
 
-    # only find levels if we have a valid theta range
-    if not min_theta < max_theta:
+    # only find levels if we have a valid theta range, and pressures
+    if not min_theta < max_theta or np.all(np.isnan(pres)):
         return t_levels, p_levels, index, var_sal_theta, theta_levels
 
     # get pressure levels
-- 
2.43.0


From abb3950c09a022a12a9c15737e643a9a4d100496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 58/59] fix: list a reference position once when one profile
 has its longitude past 360 and another from 0

---
 pyowc/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index b01d549..5a0fb3f 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -398,6 +398,8 @@ def selected_historical_points(data, hist_data, profile_index):
         length = data['selected_hist'].shape[0]
         lon_lat = np.array([hist_data['hist_long'][j][0], hist_data['hist_lat'][j][0]])
         new_object = data['selected_hist'][:, 0:2] - np.ones((length, 1)) * lon_lat
+        # (longitudes may go on past 360 for one profile and start again at 0 for another)
+        new_object[:, 0] = (new_object[:, 0] + 180) % 360 - 180
         d_0 = np.argwhere(np.abs(new_object[:, 0]) < 1 / 60)
         d_1 = np.argwhere(np.abs(new_object[d_0, 1]) < 1 / 60)
         if len(d_1) == 0:
-- 
2.43.0


From 56b2e5d8299a60a2182e5ae2831b90e6eeef92d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:17 +0000
Subject: [PATCH 59/59] fix: start script fails on a computer with one
 processor

---
 start_with_pycharm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/start_with_pycharm.py b/start_with_pycharm.py
index 38a33a7..3cd8c11 100644
--- a/start_with_pycharm.py
+++ b/start_with_pycharm.py
@@ -16,7 +16,8 @@ if __name__ == '__main__':
 
     start = time.time()
 
-    pool = multiprocessing.Pool(multiprocessing.cpu_count() - 1)
+    # (all processors but one, if there is more than one)
+    pool = multiprocessing.Pool(max(multiprocessing.cpu_count() - 1, 1))
     func = partial(owc.calibration.update_salinity_mapping, "/", USER_CONFIG)
     pool.map(func, FLOAT_NAMES)
     pool.close()
-- 
2.43.0

