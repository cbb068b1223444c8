From 653fadc297072039450b872bf354731da0dc71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 01/43] fix: replace scipy.interpolate.interp2d, which SciPy
 1.14 removed, in the topography lookups

---
 pyowc/calibration.py | 19 +++++--------------
 pyowc/helper.py      | 32 +++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9aabe35..305a59b 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -9,7 +9,6 @@ import gsw
 import numpy as np
 
 from scipy.io import loadmat, savemat
-from scipy import interpolate
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
@@ -17,7 +16,7 @@ from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points
+    check_and_make_numpy_arry, selected_historical_points, topo_interpolator
 
 
 # pylint: disable=too-many-lines
@@ -174,12 +173,9 @@ def update_salinity_mapping(float_dir, config, float_name):
                                                          float_data['float_lat'] + 1,
                                                          config)
 
-            float_interp = interpolate.interp2d(float_x[0, :],
-                                                float_y[:, 0],
-                                                float_elev,
-                                                kind='linear')
+            float_interp = topo_interpolator(float_x[0, :], float_y[:, 0], float_elev)
 
-            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])[0]
+            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])
 
             # gather data from area surrounding the float location
             wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)
@@ -437,14 +433,9 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
-        grid_interp = interpolate.interp2d(x_grid[0, :], y_grid[:, 0],
-                                           elev, kind='linear')
+        grid_interp = topo_interpolator(x_grid[0, :], y_grid[:, 0], elev)
 
-        z_grid = []
-        for i in range(long_1[0].__len__()):
-            z_grid.append(grid_interp(long_1[0][i], lat[0][i]))
-
-        z_grid = -np.array(z_grid)
+        z_grid = -grid_interp(long_1[0], lat[0])
         coord_float = np.column_stack((long.T, lat.T, z_grid))
 
     # load the calibration settings
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9672e85..c29f25f 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -5,12 +5,31 @@ from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 from scipy.io import loadmat
 
 from .data.fetchers import get_topo_grid
 
 
+def topo_interpolator(grid_x, grid_y, grid_elev):
+    """ Bilinear interpolation of a topography grid (stands in for interp2d, which SciPy removed)
+
+    Parameters
+    ----------
+    grid_x : longitudes of the columns of grid_elev, ascending
+    grid_y : latitudes of the rows of grid_elev
+    grid_elev : elevation matrix
+
+    Returns
+    -------
+    a function that gives the elevation at each (longitude, latitude) pair
+
+    """
+    order = np.argsort(grid_y)
+
+    return RectBivariateSpline(grid_x, grid_y[order], grid_elev[order, :].T, kx=1, ky=1).ev
+
+
 # pylint: disable=too-many-statements
 def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
     """
@@ -205,14 +224,13 @@ def process_profiles_grid_variables(grid_data, config):
                                               np.amax(grid_data['grid_lat']) + 1,
                                               config)
 
-    grid_interp = interp2d(grid_x[0], grid_y[:, 0],
-                           grid_elev, kind='linear')
+    grid_interp = topo_interpolator(grid_x[0], grid_y[:, 0], grid_elev)
 
-    # As a note, the reason we vectorise the function here is because we do not
-    # want to compare every longitudinal value to ever latitude. Rather, we simply
-    # want to interpolate each pair of longitudes and latitudes.
+    # As a note, we do not want to compare every longitudinal value to ever
+    # latitude. Rather, we simply want to interpolate each pair of longitudes
+    # and latitudes.
 
-    grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])
+    grid_z = -1 * grid_interp(grid_long_tbase, grid_data['grid_lat'])
 
     grid_data['grid_z'] = grid_z
     grid_data['grid_x'] = grid_x
-- 
2.43.0


From 2ccb6287367525a1eae13d4fbcc8a05602d0f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:13 +0000
Subject: [PATCH 02/43] fix: find_10thetas and sal_var_plot need a scalar
 neighbour index (NumPy >= 1.24 rejects the ragged interp1d input)

---
 pyowc/core/finders.py | 4 ++--
 pyowc/plot/plots.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1e67149..dd0e072 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -639,7 +639,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -649,7 +649,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 7f9d62b..648c80c 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -451,7 +451,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -461,7 +461,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From 54ca0b017cff867a1768110c86a14c5a0e628cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 03/43] fix: fit_cond error estimate when break points are
 selected (concatenate call, stale first guess)

---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ac39a12..9fcb848 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -545,6 +545,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 # give an initial guess as the fitted break points to speed up calculation
                 nbr = real_breaks.__len__()
                 b_g = np.concatenate(([-1], real_breaks))
+                ubrk_g = []
 
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
@@ -555,7 +556,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate([xfit[0]], breaks)
+                btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From 80603b455668e3b0178fa8b03958fd8a21050e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 04/43] fix: fit_cond accepts prescribed break points or no
 limit without max_no_breaks

---
 pyowc/core/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 9fcb848..1d67bb6 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -281,6 +281,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 raise ValueError("Paramater " + param + " not found in parameter list") from None
 
     # intialise variable for search over number of break points
+    if isinstance(max_brk_in, list) or (setbreaks and max_brk_in == 0):
+        # not given: only the prescribed break points, if any, else the default
+        max_brk_in = nbr if setbreaks else max_brk_dflt
+
     max_brk_in = int(max_brk_in)
 
     if max_brk_in == -1:
-- 
2.43.0


From acf2dfc7c0b260dd5b1ba6d308eb717e7775c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 05/43] fix: fit_cond evaluates its fit from the first fitted
 profile, so an unmapped first profile no longer shifts it

---
 pyowc/core/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 1d67bb6..8f82eb1 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -497,7 +497,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
     P_2 = np.diag(P)
 
     # reduce matrix to have only one value per profile
-    btem = np.concatenate(([xfit[0]], breaks))
+    btem = np.concatenate(([xf[0]], breaks))
     E = np.zeros((xfit.__len__(), best))
     E[:, 0] = np.ones((xfit.__len__(), 1)).T
     ixb = sorter(btem, xfit)
@@ -560,7 +560,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate(([xfit[0]], breaks))
+                btem = np.concatenate(([xf[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From fccbc07201b56b733c20e58b92653c392f02967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 06/43] fix: fit_cond reports time_deriv_err as an rms error in
 the units of time_deriv

---
 pyowc/core/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 8f82eb1..0023d7d 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -624,6 +624,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
     if A.__len__() > 1:
         A[1:best] = A[1:best] * y_scale / x_scale
         P[1:best] = P[1:best] * y_scale / x_scale
+        P_2 = np.sqrt(P_2) * y_scale / x_scale
 
     yfit = yfit * y_scale + y_0
     err = np.sqrt(err) * y_scale
-- 
2.43.0


From d79350f82e8c861ab5deb66610dfe019155f1d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 07/43] fix: find_10thetas and fit_cond return NaN for a series
 with nothing mapped, instead of crashing

---
 pyowc/core/finders.py |  3 +++
 pyowc/core/stats.py   | 12 ++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index dd0e072..e0fb62c 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -568,6 +568,9 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
             increment = np.floor((max_pres - min_pres) / no_levels)
             pres_levels = np.arange(min_pres, max_pres, increment)
 
+    else:
+        return t_levels, p_levels, index, np.empty((0, 1)), np.empty((0, 1))
+
     # interpolate levels onto pressure increments
 
     interp_t = np.empty((pres_levels.__len__(), profile_depth)) * np.nan
diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 0023d7d..cd33a40 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -162,12 +162,12 @@ def fit_cond(x, y, n_err, lvcov, *args):
     if npts == 0:
         print("Failed to find any good data")
 
-        condslope = np.nan
-        condslope_err = np.nan
-        time_deriv = np.nan
-        time_deriv_err = np.nan
-        sta_mean = np.nan
-        sta_rms = np.nan
+        condslope = np.full(nfit, np.nan)
+        condslope_err = np.full(nfit, np.nan)
+        time_deriv = np.full((nfit, 1), np.nan)
+        time_deriv_err = np.full((nfit, 1), np.nan)
+        sta_mean = np.full((1, nfit), np.nan)
+        sta_rms = np.full((1, nfit), np.nan)
         NDF = []
         fit_coef = []
         fit_breaks = []
-- 
2.43.0


From 17fc8f32d239ba742a18fdbf7ad9f6b288f5afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 08/43] fix: calc_piecewisefit with break points prescribed in
 the calseries file

---
 pyowc/calibration.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 305a59b..dc3e86d 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -646,7 +646,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             else:
                 breaks_in = breaks[i, :]
-                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))]
+                breaks_in = breaks_in[np.isfinite(breaks_in)]
 
                 if max_breaks[i]:
                     (xfit, condslope, condslope_err,
@@ -660,8 +660,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       max_breaks[i][0])
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
+                    time_deriv[0][calindex] = time_deriv_temp.flatten()
+                    time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
                     sta_mean[0][calindex], = sta_mean_temp
                     sta_rms[0][calindex] = sta_rms_temp
 
@@ -675,8 +675,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       breaks_in)
                     pcond_factor[0][calindex] = condslope
                     pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
+                    time_deriv[0][calindex] = time_deriv_temp.flatten()
+                    time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
                     sta_mean[0][calindex], = sta_mean_temp
                     sta_rms[0][calindex] = sta_rms_temp
 
-- 
2.43.0


From 6e21c82dcd72e5dc74c2275d7c43711f244f6483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:27 +0000
Subject: [PATCH 09/43] fix: add new profiles to an existing mapped file (scale
 lists, files older than use_saf)

---
 pyowc/helper.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index c29f25f..6516b36 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -53,25 +53,25 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors']
             float_mapped_data.pop('la_mapsalerrors')
 
-        # flatten the data
-        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
-        float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten()
-        float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten()
-        float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten()
-        float_mapped_data["scale_lat_small"] = float_mapped_data['scale_lat_small'].flatten()
-        float_mapped_data["scale_phi_large"] = float_mapped_data['scale_phi_large'].flatten()
-        float_mapped_data["scale_phi_small"] = float_mapped_data['scale_phi_small'].flatten()
-        float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten()
-        float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten()
-        float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten()
-        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten()
-        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
-        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
-
         # Check to see if this is an older version run without the saf constraint
         if not "use_saf" in float_mapped_data:
             float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
 
+        # flatten the data
+        float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
+        float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten().tolist()
+        float_mapped_data["scale_lat_large"] = float_mapped_data['scale_lat_large'].flatten().tolist()
+        float_mapped_data["scale_long_small"] = float_mapped_data['scale_long_small'].flatten().tolist()
+        float_mapped_data["scale_lat_small"] = float_mapped_data['scale_lat_small'].flatten().tolist()
+        float_mapped_data["scale_phi_large"] = float_mapped_data['scale_phi_large'].flatten().tolist()
+        float_mapped_data["scale_phi_small"] = float_mapped_data['scale_phi_small'].flatten().tolist()
+        float_mapped_data["scale_age_large"] = float_mapped_data['scale_age_large'].flatten().tolist()
+        float_mapped_data["scale_age_small"] = float_mapped_data['scale_age_small'].flatten().tolist()
+        float_mapped_data["use_pv"] = float_mapped_data['use_pv'].flatten().tolist()
+        float_mapped_data["use_saf"] = float_mapped_data['use_saf'].flatten().tolist()
+        float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten().tolist()
+        float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten().tolist()
+
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
         max_depth = float_mapped_data["la_mapped_sal"].shape[0]
-- 
2.43.0


From 1192fecfdeef35dc25a0a2701bc2170c7874305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 10/43] fix: sort the mapped fields by profile number once
 (they were permuted twice, scrambling profiles when out of order)

---
 pyowc/calibration.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index dc3e86d..69209ec 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -339,10 +339,6 @@ def update_salinity_mapping(float_dir, config, float_name):
     # sort the data by profile number
     sorted_profile_index = data['la_profile_no'].argsort()
 
-    # finalise the data sorted by profile number, make data type numpy arrays
-    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal',
-                                                         'la_map_sal_errors', 'la_noise_sal',
-                                                         'la_signal_sal'])
     # check is numpy array
     data = check_and_make_numpy_arry(data)
 
-- 
2.43.0


From 5f642118e7c837aecd1128432490b522cd8ea14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 11/43] fix: save the mapped data under float_dir, where the
 next mapping run and calc_piecewisefit look for it

---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 69209ec..5ef8173 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -354,7 +354,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     data['selected_hist'] = selected_hist_1
 
     # define the saving location
-    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
 
     # save the data
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 3dadf17..f0d2143 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -27,7 +27,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
         Nothing, but will save the plots as PDFs
     """
 
-    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
-- 
2.43.0


From e8a4f41df4eb4d3b3096e361575551ddbb0cf506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 12/43] fix: map and calibrate a float for which no level could
 be mapped

---
 pyowc/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 5ef8173..0ba5c11 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -345,6 +345,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     # remove problem element from dic before genral sort
     selected_hist = data.pop('selected_hist')
 
+    selected_hist_1 = selected_hist
     if len(selected_hist) > 0:
         selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
 
@@ -413,6 +414,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     selected_hist = float_mapped_data['selected_hist']
 
     # retrieve XYZ of float position used to build covariance
+    coord_float = np.full((long.size, 3), np.nan)
     if selected_hist.__len__() > 0:
         if long.shape[0] > 1:
             long = long.flatten()
-- 
2.43.0


From 8976a249f667baec2eac73b460caabf9ca473e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 13/43] fix: depths of the selected historical casts follow the
 casts that get_region_data returned

---
 pyowc/calibration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 0ba5c11..a050b02 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -209,7 +209,12 @@ def update_salinity_mapping(float_dir, config, float_name):
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
-                best_hist_data['grid_z'] = grid_data['grid_z'][index]
+                # depth at the casts that were returned (not in the order of index, and casts without data are left out)
+                best_long_tbase = np.where(best_hist_data['grid_long'] > 180,
+                                           best_hist_data['grid_long'] - 360, best_hist_data['grid_long'])
+                grid_interp = topo_interpolator(grid_data['grid_x'][0], grid_data['grid_y'][:, 0],
+                                                grid_data['grid_elev'])
+                best_hist_data['grid_z'] = -grid_interp(best_long_tbase, best_hist_data['grid_lat'])
 
                 # If we are near the Subantarctic Front we need to figure out if
                 # the profile is north or south of it. Then we should remove data not on
-- 
2.43.0


From 3b06d51419632a0d4e40a9e727f2d661f7aa796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 14/43] fix: float longitude follows the 360-degree branch of
 the historical data on both sides of Greenwich

---
 pyowc/calibration.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index a050b02..db197d0 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -194,9 +194,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
                 # make sure that the grid and float longitudes match at the 0-360 mark
                 float_long_0 = float_data['float_long']
-                if np.argwhere(grid_long > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_long_0 += 360
+                float_long_0 += 360 * np.round((np.mean(grid_long) - float_long_0) / 360)
 
                 index = find_besthist(grid_data['grid_lat'], grid_data['grid_long'], grid_data['grid_dates'],
                                       grid_data['grid_z'], float_data['float_lat'], float_long_0,
@@ -227,9 +225,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                         best_hist_data.update(best_hist_data_2)
 
                 # make the float longitude wrap around the 0-360 mark if the historical data has
-                if np.argwhere(best_hist_data['grid_long'] > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_data['float_long'] += 360
+                float_data['float_long'] += 360 * np.round((np.mean(best_hist_data['grid_long']) -
+                                                            float_data['float_long']) / 360)
 
                 # interpolate historical data onto float theta levels
                 hist_interp_sal, hist_interp_pres = interp_climatology(best_hist_data['grid_sal'],
-- 
2.43.0


From 8f91e8b8a88619c501d908d3210a90baa8c606cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 15/43] fix: set_calseries adds profiles missing from an
 existing calseries file, accepts files older than use_percent_gt

---
 pyowc/configuration.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 474fc36..11e7dc0 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -176,7 +176,7 @@ def set_calseries(float_dir, float_name, system_config):
         try:
             use_percent_gt = calseries_data['use_percent_gt']
 
-        except NameError:
+        except KeyError:
             use_percent_gt = 0.5
 
         print("Using parameters found in ", calseries_filename,
@@ -202,19 +202,19 @@ def set_calseries(float_dir, float_name, system_config):
 
     # ensure values are in a realistic range
 
-    if use_theta_lt.__len__() > 1:
+    if np.size(use_theta_lt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_lt = []
 
-    if use_theta_gt.__len__() > 1:
+    if np.size(use_theta_gt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_gt = []
 
-    if use_pres_lt.__len__() > 1:
+    if np.size(use_pres_lt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_lt = []
 
-    if use_pres_gt.__len__() > 1:
+    if np.size(use_pres_gt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_gt = []
 
@@ -230,9 +230,9 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
-        calib_profile_no.append(profile_no[missing])
+        calib_profile_no = np.insert(calib_profile_no, missing, profile_no[missing])
         # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries(max(missing - 1, 1)))
+        calseries = np.insert(calseries, missing, calseries[max(missing - 1, 0)])
 
     # sort the calseries file by profile number
 
-- 
2.43.0


From 2c30991e4b8b329e6dd34438f7305ae12364cf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 16/43] fix: frontal_constraint_saf with repeated pressures
 (truth value of an array)

---
 pyowc/data/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dc8e8a8..44a405c 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -547,7 +547,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
         # Calculations for Argo float
         isok = np.argwhere((~np.isnan(float_pres)) & (~np.isnan(float_tmp)))
 
-        if not np.argwhere(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
+        if np.argwhere(np.diff(float_pres[isok].T) == 0).size == 0 and (isok.__len__() > 2) and (
                 np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):
 
             # SAF:
@@ -629,7 +629,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
                     np.argwhere((np.diff(grid_pres[:, i])) != 0))
 
-                if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
+                if np.argwhere(np.diff(grid_pres[isok, i]) == 0).size == 0 and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
                     t300 = np.interp(300, grid_pres[isok, i], grid_tmp[isok, i], left=np.nan, right=np.nan)
 
-- 
2.43.0


From 7284b8ebd1855971e1023d88ed151d55dbe8838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 17/43] fix: interp_climatology with repeated potential
 temperatures, or with single-level casts only

---
 pyowc/data/wrangling.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index f8daee4..a61dbd1 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -178,7 +178,10 @@ def calculate_interpolation_weights(value, reference_values, reference_values_di
     value_before = reference_values[:-1][sign_changes]
 
     # calculate the interpolation weights
-    interpolation_factors = (value - value_before) / reference_values_diff[sign_changes]
+    # (a weight of 0 where both bracketing values are equal to the value)
+    difference = reference_values_diff[sign_changes]
+    interpolation_factors = np.divide(value - value_before, difference,
+                                      out=np.zeros_like(difference), where=difference != 0)
 
     return interpolation_factors, sign_changes
 
@@ -217,7 +220,8 @@ def _get_cleaned_grid_data(grid_stations, grid_sal_in, grid_theta_in, grid_pres_
         grid_pres[:good_values, station_id] = grid_pres_in[:, station_id][grid_good_data[:, station_id]]
 
     # Truncate the number of levels to the maximum level that has available data
-    if max_level > 0:
+    # (a station with a single level has nothing to interpolate between)
+    if max_level > 1:
         grid_sal = grid_sal[:max_level, :]
         grid_theta = grid_theta[:max_level, :]
         grid_pres = grid_pres[:max_level, :]
-- 
2.43.0


From ad3692c4f39f15176917eda91c1fc44f4750a9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 18/43] fix: find_25boxes no longer repeats the polar boxes for
 boxes beyond the poles

---
 pyowc/core/finders.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index e0fb62c..adf2885 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -420,9 +420,13 @@ def find_25boxes(pn_float_long, pn_float_lat, pa_wmo_boxes):
         ln_i = []
         for i in range(0, 5):
             for j in range(0, 5):
-                ln_i.append(
-                    nearest_neighbour(la_lookup_x, la_lookup_y, la_lookup_no, ln_x[j], ln_y[i])
-                )
+                # there are no boxes beyond the poles
+                if i > 0 and abs(ln_y[i]) > 90:
+                    ln_i.append(np.nan)
+                else:
+                    ln_i.append(
+                        nearest_neighbour(la_lookup_x, la_lookup_y, la_lookup_no, ln_x[j], ln_y[i])
+                    )
 
     else:
         ln_i = np.full(25, np.nan)
-- 
2.43.0


From 722b22151394f5f0675ad015b4d78e3dc26fec3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 19/43] fix: keep historical boxes that hold a single cast

---
 pyowc/data/fetchers.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 44a405c..7926480 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -19,16 +19,34 @@ from ..utilities import wrap_longitude, change_dates
 from ..configuration import print_cfg
 
 
+def _read_historical_mat(filepath):
+    """Read a historical .mat file, and keep the cast dimension that read_mat squeezes out if there is a single cast."""
+    data = read_mat(filepath)
+
+    if np.ndim(data['lat']) == 0:
+        for key in ('lat', 'long', 'dates'):
+            data[key] = np.reshape(data[key], 1)
+
+        for key in ('sal', 'ptmp', 'pres', 'temp'):
+            if key in data:
+                data[key] = np.reshape(data[key], (-1, 1))
+
+        if 'source' in data:
+            data['source'] = np.atleast_1d(data['source'])
+
+    return data
+
+
 @lru_cache()
 def read_mat_ctd(filepath):
     """Cache the result of reading a ctd .mat file from disk."""
-    return read_mat(filepath)
+    return _read_historical_mat(filepath)
 
 
 @lru_cache()
 def read_mat_bottle(filepath):
     """Load and transform a bottle .mat file."""
-    data = read_mat(filepath)
+    data = _read_historical_mat(filepath)
 
     # if data dimensions don't match, transpose to avoid indexing issues
     if (data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
@@ -43,7 +61,7 @@ def read_mat_bottle(filepath):
 @lru_cache()
 def read_mat_argo(filepath, pa_float_name):
     """Load and transform an Argo .mat file."""
-    data = read_mat(filepath)
+    data = _read_historical_mat(filepath)
     # remove the argo float being analysed from the data
     not_use = []
     for i in range(0, data['lat'].__len__()):
-- 
2.43.0


From 235ad8ca669bea3ee222a49cd07fb0d139ed0dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 20/43] fix: sal_var_plot applies the theta and pressure bounds
 to the levels out of range, not to whole rows

---
 pyowc/plot/plots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 648c80c..847f386 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -353,7 +353,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_theta_lt.__len__() == 0 and use_theta_gt.__len__() > 0:
-        good = np.argwhere(ptmp < use_theta_gt)
+        good = ptmp < use_theta_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -368,10 +368,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_theta_lt < use_theta_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(theta_range_lt, theta_range_gt))
+            good = np.logical_and(theta_range_lt, theta_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))
+            good = np.logical_or(theta_range_gt, theta_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
@@ -382,7 +382,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:
-        good = np.argwhere(pres > use_pres_lt)
+        good = pres > use_pres_lt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -392,7 +392,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() == 0 and use_pres_gt.__len__() > 0:
-        good = np.argwhere(pres < use_pres_gt)
+        good = pres < use_pres_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -407,10 +407,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_pres_lt < use_pres_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(pres_range_lt, pres_range_gt))
+            good = np.logical_and(pres_range_lt, pres_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(pres_range_gt, pres_range_lt))
+            good = np.logical_or(pres_range_gt, pres_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
-- 
2.43.0


From f1e5b3c19407422d3ac989c2e2ede7a4ec3e0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 21/43] fix: change_dates accepts dates without hours or
 minutes given as floats

---
 pyowc/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index cf10c7b..47cc9ae 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -187,7 +187,8 @@ def change_dates(cal_dates):
     dec_dates = np.full(cal_dates.__len__(), 0, dtype=float)
 
     # cannot iterate through integers, so convert calendar dates into array of strings
-    cal_dates_string = list(map(str, cal_dates))
+    # (numbers read from .mat files may be floats: drop the decimal point, which is not part of the date)
+    cal_dates_string = [str(date).split('.', maxsplit=1)[0] for date in cal_dates]
 
     # go through and decimalise dates
     for i in range(0, cal_dates_string.__len__()):
-- 
2.43.0


From 9bebc4fa28c1feea022f61d025ca4cce8785a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 22/43] fix: find_besthist passed vorticity and cross-isobath
 scale to spatial_correlation in the wrong order

---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index adf2885..1b53421 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -190,7 +190,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         correlation_large = spatial_correlation_vec(remain_hist_long, long, longitude_large,
                                                     remain_hist_lat, lat, latitude_large,
                                                     remain_hist_dates, date, age_large,
-                                                    pv_hist, pv_float, phi_large)
+                                                    phi_large, pv_hist, pv_float)
 
         correlation_large_sorted = correlation_large.argsort()
 
@@ -235,7 +235,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
                                                     lat, latitude_small,
                                                     s_remain_hist_dates,
                                                     date, age_small,
-                                                    pv_hist, pv_float, phi_small)
+                                                    phi_small, pv_hist, pv_float)
 
         correlation_small_sorted = correlation_small.argsort()
 
-- 
2.43.0


From 6434d6177fe59ed3de2fb91eb62748be6072c062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 23/43] fix: get_region_data lost the casts that follow a first
 cast without any level in range

---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 7926480..919c516 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -390,7 +390,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                             # if the new data we are adding is longer than our columns, we need to
                             # fill in NaNs in the other columns
-                            if new_depth > max_depth != 0:
+                            if new_depth > max_depth and how_many_cols != 0:
                                 grid_pres = np.append(grid_pres, np.ones(
                                     (how_many_cols, new_depth - max_depth)) * np.nan, axis=1
                                                       ).reshape((how_many_cols, how_many_rows))
-- 
2.43.0


From 3e985d05961120536609c267636348103f212f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 24/43] fix: fit_cond sorted the profile numbers without their
 observations and covariance

---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index cd33a40..5e50e02 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -178,10 +178,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     # condition the series so that the fit is well behaved
     # sort by the independent variable
 
-    x = np.sort(x)
     sorted_index = np.argsort(x, kind='stable')
+    x = x[sorted_index]
     y = y[sorted_index]
     n_err = n_err[sorted_index]
+    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]
 
     # scale x from -1 to 1
 
-- 
2.43.0


From bc8a4953c9b3948ccdf7d28624a77850d17eb07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 25/43] fix: fit_cond rescaled the error of the time derivative
 twice

---
 pyowc/core/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 5e50e02..54368fc 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -495,7 +495,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                              w_i),
                       E),
                B_i)
-    P_2 = np.diag(P)
+    P_2 = np.diag(P).copy()  # P is rescaled below
 
     # reduce matrix to have only one value per profile
     btem = np.concatenate(([xf[0]], breaks))
-- 
2.43.0


From cae15f5faec5630b217b40575fc774bb0b18a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 26/43] fix: fit_cond searches over break points with singular
 designs raised

---
 pyowc/core/stats.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 54368fc..fe5ac78 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -106,6 +106,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
             breaks[difference + 1] = breaks[difference + 1] + 0.00001
 
         A, residual = brk_pt_fit(xf, yf, w_i, breaks)
+        A = np.ravel(A)
 
         return residual
 
@@ -368,6 +369,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         elif nbr == 0:
             # linear fit, no break points
             A, residual = brk_pt_fit(xf, yf, w_i)
+            A = np.ravel(A)
             b_A[0:2, 1] = A[0:2]
             rss[0, 1] = np.sum(residual ** 2 / err_var)
             aic[0, 1] = ndf * np.log(rss[0, 1] / npts) + ndf * (ndf + 2) / (ndf - 4)
@@ -1045,11 +1047,16 @@ def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):
         return fit_param, residual
 
     # calculate fit parameters
-    if w_i.__len__() > 0:
-        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
+    try:
+        if w_i.__len__() > 0:
+            fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
 
-    else:
-        fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
+        else:
+            fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
+
+    except linalg.LinAlgError:
+        # singular to rounding, even if the determinant is not exactly zero
+        return np.zeros((b_length + 2, 1)), y_obvs
 
 
     # calculate fit estimate
-- 
2.43.0


From d17ba4b0a0aa5a331704ed7d591e4ec9cf08af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 27/43] fix: a profile with its only pressure on the first
 level was not mapped

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index db197d0..938925e 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -158,7 +158,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
         # if we have any good location data and pressure data from the float
         if not np.isnan(float_data['float_long']) and not np.isnan(float_data['float_lat']) \
-                and np.argwhere(np.isnan(float_data['float_pres']) == 0).any():
+                and np.argwhere(np.isnan(float_data['float_pres']) == 0).size > 0:
 
             # tbase.int file requires longitudes from 0 to +/-180
             float_long_tbase = copy.deepcopy(float_data['float_long'])
-- 
2.43.0


From 797e9e2eb91864f1e9a052082b3ee52fb56535be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 28/43] fix: a profile without reference data around it stopped
 the mapping of the whole float

---
 pyowc/calibration.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 938925e..a3727bb 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -181,7 +181,13 @@ def update_salinity_mapping(float_dir, config, float_name):
             wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)
 
             grid_data = {}
-            grid_lat, grid_long, grid_dates = get_region_hist_locations(wmo_numbers, float_name, config)
+            try:
+                grid_lat, grid_long, grid_dates = get_region_hist_locations(wmo_numbers, float_name, config)
+
+            except ValueError as no_data:
+                # this profile cannot be mapped, the others may be
+                print(no_data)
+                grid_lat, grid_long, grid_dates = [], [], []
 
             grid_data['grid_lat'] = grid_lat
             grid_data['grid_long'] = grid_long
@@ -203,10 +209,20 @@ def update_salinity_mapping(float_dir, config, float_name):
                                       phi_large, phi_small, map_age_large, map_age_small,
                                       map_use_pv, max_casts)
 
+                if len(index) == 0:
+                    print("No historical casts near this profile")
+                    profile_index += 1
+                    continue
+
                 # Now that we have the indices of the best spatial and temporal data
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
+                if len(best_hist_data['grid_lat']) == 0:
+                    print("No historical data near this profile")
+                    profile_index += 1
+                    continue
+
                 # depth at the casts that were returned (not in the order of index, and casts without data are left out)
                 best_long_tbase = np.where(best_hist_data['grid_long'] > 180,
                                            best_hist_data['grid_long'] - 360, best_hist_data['grid_long'])
-- 
2.43.0


From 23721765d4092ffb6f17efdfa4cf12262143edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 29/43] fix: a historical cast selected on both longitude
 branches was listed twice

---
 pyowc/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 6516b36..7cf61ed 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -376,6 +376,8 @@ def selected_historical_points(data, hist_data, profile_index):
         length = data['selected_hist'].shape[0]
         lon_lat = np.array([hist_data['hist_long'][j][0], hist_data['hist_lat'][j][0]])
         new_object = data['selected_hist'][:, 0:2] - np.ones((length, 1)) * lon_lat
+        # the same position may have been selected on the other longitude branch (e.g. 5 and 365)
+        new_object[:, 0] -= 360 * np.round(new_object[:, 0] / 360)
         d_0 = np.argwhere(np.abs(new_object[:, 0]) < 1 / 60)
         d_1 = np.argwhere(np.abs(new_object[d_0, 1]) < 1 / 60)
         if len(d_1) == 0:
-- 
2.43.0


From 6e5bdba13c6bea03a8c6a0c43bcc12b58590b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 30/43] fix: the calibration files were read under the postfix
 of other files

---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index a3727bb..70a89f7 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -457,7 +457,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
                                              system_config['FLOAT_CALSERIES_PREFIX'] + float_name +
-                                             system_config['FLOAT_MAPPED_POSTFIX']])
+                                             system_config['FLOAT_CALIB_POSTFIX']])
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index f0d2143..9d89e9d 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -32,9 +32,9 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
     cal_data_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
     cal_series_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
 
     grid_data = loadmat(grid_data_loc)
     float_data = loadmat(float_data_loc)
-- 
2.43.0


From 928dcd686656037d30e3d17df68f223755224d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 31/43] fix: columns of an unordered float file were paired
 with mapped data and flags in order of profile number

---
 pyowc/calibration.py    |  3 ++-
 pyowc/configuration.py  |  3 +++
 pyowc/plot/dashboard.py |  3 ++-
 pyowc/utilities.py      | 26 ++++++++++++++++++++++++++
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 70a89f7..c851dfb 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -17,6 +17,7 @@ from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locat
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
     check_and_make_numpy_arry, selected_historical_points, topo_interpolator
+from .utilities import order_profiles
 
 
 # pylint: disable=too-many-lines
@@ -410,7 +411,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # load in the source data
     float_source_data_path = os.path.sep.join([system_config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                                float_name + system_config['FLOAT_SOURCE_POSTFIX']])
-    float_source_data = loadmat(float_source_data_path)
+    float_source_data = order_profiles(loadmat(float_source_data_path))
 
     lat = float_source_data['LAT']
     long = float_source_data['LONG']
diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 11e7dc0..2ea307e 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -6,6 +6,8 @@ import os
 import numpy as np
 from scipy.io import loadmat, savemat
 
+from .utilities import order_profiles
+
 
 def print_cfg(config):
     """ Return a string of the configuration dictionnary """
@@ -149,6 +151,7 @@ def set_calseries(float_dir, float_name, system_config):
     # load float source data
     float_source = loadmat(os.path.sep.join([system_config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                              float_name + system_config['FLOAT_SOURCE_POSTFIX']]))
+    float_source = order_profiles(float_source)
 
     profile_no = float_source['PROFILE_NO'].flatten()
     no_profiles = profile_no.__len__()
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 9d89e9d..e59e09e 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -9,6 +9,7 @@ import numpy as np
 from pyowc.plot.plots import theta_sal_plot, cal_sal_curve_plot, sal_var_plot, t_s_profile_plot, trajectory_plot, sal_anom_plot
 from pyowc.plot.utils import create_dataframe
 from pyowc.core.finders import find_10thetas
+from pyowc.utilities import order_profiles
 
 
 #pylint: disable=too-many-locals
@@ -37,7 +38,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
                                        config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
 
     grid_data = loadmat(grid_data_loc)
-    float_data = loadmat(float_data_loc)
+    float_data = order_profiles(loadmat(float_data_loc))
     cal_data = loadmat(cal_data_loc)
     cal_series = loadmat(cal_series_loc)
 
diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index 47cc9ae..8a24f73 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -4,6 +4,32 @@
 import math
 import numpy as np
 
+
+def order_profiles(float_source):
+    """ Puts the profiles of a float source file in order of profile number, the order of the mapped data
+
+        Parameters
+        ----------
+        float_source: dictionary of the variables of the file, profiles in columns
+
+        Returns
+        -------
+        Dictionary with the same variables, the columns in order of profile number
+    """
+
+    order = np.argsort(float_source['PROFILE_NO'].flatten(), kind='stable')
+    ordered = dict(float_source)
+
+    for key, value in float_source.items():
+        if isinstance(value, np.ndarray) and value.ndim == 2:
+            if value.shape[1] == order.size:
+                ordered[key] = value[:, order]
+            elif value.shape == (order.size, 1):
+                ordered[key] = value[order, :]
+
+    return ordered
+
+
 #pylint: disable=too-many-arguments
 def spatial_correlation(
         longitude_1, longitude_2, ellipse_longitude, latitude_1, latitude_2,
-- 
2.43.0


From 22776f723c0d9fb8b1882a9a52781dc110362674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 32/43] fix: profiles on both sides of Greenwich were taken to
 be 360 degrees apart in the covariance of the fit

---
 pyowc/calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index c851dfb..4d59e90 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -441,6 +441,9 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if lat.shape[0] > 1:
             lat = lat.flatten()
 
+        # one continuous branch of longitudes: profiles at 359 and 1 are two degrees apart
+        long = long - 360 * np.round((long - np.nanmedian(long)) / 360)
+
         if np.any(long > 180):
             long_1 = copy.deepcopy(long) - 360
 
-- 
2.43.0


From 82ba87c3a81577f3ee869300e18270a2e6e26cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:31 +0000
Subject: [PATCH 33/43] fix: calc_piecewisefit raised, instead of writing
 missing values, on break points that do not match the series

---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 4d59e90..06afb92 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -529,7 +529,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             sstatus = 0
 
-        for n in range(n_seq):
+        # (there is a row of breaks and a maximum for each series only if nothing was wrong so far)
+        for n in range(n_seq if sstatus else 0):
             nb = np.argwhere(np.isfinite(breaks[n, :])).__len__()
 
             if nb > max_breaks[n]:
-- 
2.43.0


From 65ce1e158a90aeea7477df3b63020cbeac94c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:00 +0000
Subject: [PATCH 34/43] fix: plots were drawn over, and saved in place of, the
 figures of earlier plots

---
 pyowc/plot/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 847f386..b612041 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -52,6 +52,8 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
         Nothing
     """
 
+    # (a figure of its own: those of earlier plots stay open when there is no window to close)
+    plt.figure()
     axes = plt.gca()
     axes.set_aspect(1)
 
@@ -224,8 +226,7 @@ def t_s_profile_plot(sal, ptmp, pres, sal_var, theta_levels, tlevels, plevels, f
         Nothing
     """
 
-    #plt.figure(1)
-    plt.figure(1, figsize=(7, 9))
+    plt.figure(figsize=(7, 9))
     # plot t-s profile
     plt.subplot(222)
 
@@ -630,7 +631,6 @@ def cal_sal_curve_plot(sal, cal_sal, cal_sal_err, sta_sal, sta_sal_err, sta_mean
 
         # vertically averaged salinity plot
         plt.subplot(212)
-        plt.figure(1)
 
         plt.plot(profile_no[0], avg_sal_offset, color=(0, 1, 0), linestyle='-', linewidth=2)
         good = np.argwhere(np.isfinite(avg_sta_offset))
-- 
2.43.0


From 801daaebe4598df8044996a7dfa31c634126552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 35/43] fix: sal_var_plot raised, and no further plot was made,
 when no profile reaches the levels

---
 pyowc/plot/plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index b612041..08b37e7 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -555,7 +555,9 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         plt.savefig(plot_loc + "_salinity_variance_" + str(i + 1) + "." + save_format,
                     format=save_format, bbox_inches='tight')
 
-        plt.ylim((np.nanmin(s_int) - 0.05, np.nanmax(s_int) + 0.05))
+        # (no limits to set when no profile reaches any of the levels)
+        if np.isfinite(s_int).any():
+            plt.ylim((np.nanmin(s_int) - 0.05, np.nanmax(s_int) + 0.05))
         plt.show()
 
 
-- 
2.43.0


From 9613d211685df61ce95d1ff79d2ba570a02492a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 36/43] fix: trajectory_plot left profiles away from the
 historical data outside the map

---
 pyowc/plot/plots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 08b37e7..491583e 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -118,8 +118,11 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
     plt.xlabel("Longitude")
     plt.ylabel("Latitude")
     plt.axis([-180, 180, -90, 90])
-    plt.xlim(np.min(climatology['Longitude']) - 20, np.max(climatology['Longitude']) + 20)
-    plt.ylim(np.min(climatology['Latitude']) - 15, np.max(climatology['Latitude']) + 15)
+    # (the float may be away from the historical data, or on the other side of the date line)
+    longitudes = np.concatenate((climatology['Longitude'], floats['Longitude']))
+    latitudes = np.concatenate((climatology['Latitude'], floats['Latitude']))
+    plt.xlim(np.nanmin(longitudes) - 20, np.nanmax(longitudes) + 20)
+    plt.ylim(np.nanmin(latitudes) - 15, np.nanmax(latitudes) + 15)
 
     color = plt.get_cmap('jet')
 
-- 
2.43.0


From 8a5f9e1f3204e140f9b3809d25af5d498ba705ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 37/43] fix: covariance of profiles on the equator was not
 symmetric (vorticity of zero)

---
 pyowc/core/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index fe5ac78..50dd5f0 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -950,6 +950,10 @@ def covarxy_pv(input_coords, coords, long, lat, phi, use_pv):
     pv_input_coords = potential_vorticity(input_coords[0], z_input_coords)
     pv_coords = potential_vorticity(coords[:, 0], z_coords)
 
+    # a vorticity of exactly zero (on the equator) is replaced, as in utilities.potential_vorticity
+    pv_input_coords = np.where(pv_input_coords == 0, 1 * 10 ** -5, pv_input_coords)
+    pv_coords = np.where(pv_coords == 0, 1 * 10 ** -5, pv_coords)
+
     # calculate correlation
     cor_term = ((input_coords[0] - coords[:, 0]) / lat) ** 2 + \
                ((input_coords[1] - coords[:, 1]) / long) ** 2
-- 
2.43.0


From 82e8fb03f5c801d35ffd34552bdfbec8a30cb0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 38/43] fix: an interrupt while reference data were read was
 taken for a missing file

---
 pyowc/data/fetchers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 919c516..b96d2bb 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -271,7 +271,7 @@ def get_region_hist_locations(pa_wmo_numbers, pa_float_name, config):
                     grid_dates = np.concatenate([grid_dates, data['dates']])
                     data = []
 
-            except:
+            except Exception:
                 pass
 
     if grid_lat.__len__() == 0:
@@ -436,7 +436,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
                             max_depth = grid_pres.shape[1]
                             how_many_cols = grid_pres.shape[0]
 
-            except:
+            except Exception:
                 pass
 
     # convert longitude to 0 to 360 degrees
@@ -451,7 +451,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
         grid_pres = grid_pres.T
         grid_ptmp = grid_ptmp.T
 
-    except:
+    except Exception:
         raise RuntimeError("NO DATA FOUND") from None
     # we have encountered a problem where some data coming in is all NaN
     # these columns need to be removed from the data set
-- 
2.43.0


From 312e318f77dd4def7dcafd42350f2e5a58ad2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 39/43] fix: a run interrupted while it wrote left a truncated
 file in place of the earlier results

---
 pyowc/calibration.py   |  4 ++--
 pyowc/configuration.py |  4 ++--
 pyowc/utilities.py     | 17 +++++++++++++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 06afb92..84b376a 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -8,7 +8,7 @@ import copy
 import gsw
 import numpy as np
 
-from scipy.io import loadmat, savemat
+from scipy.io import loadmat
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
@@ -17,7 +17,7 @@ from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locat
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
     check_and_make_numpy_arry, selected_historical_points, topo_interpolator
-from .utilities import order_profiles
+from .utilities import order_profiles, save_mat as savemat
 
 
 # pylint: disable=too-many-lines
diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 2ea307e..178a403 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -4,9 +4,9 @@ import collections
 import os
 
 import numpy as np
-from scipy.io import loadmat, savemat
+from scipy.io import loadmat
 
-from .utilities import order_profiles
+from .utilities import order_profiles, save_mat as savemat
 
 
 def print_cfg(config):
diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index 8a24f73..0f90b05 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -2,7 +2,10 @@
 """
 
 import math
+import os
+
 import numpy as np
+from scipy.io import savemat
 
 
 def order_profiles(float_source):
@@ -30,6 +33,20 @@ def order_profiles(float_source):
     return ordered
 
 
+def save_mat(file_name, data):
+    """ Saves a .mat file as a whole: when it is interrupted, a file already there stays as it was
+
+        Parameters
+        ----------
+        file_name: path of the file
+        data: dictionary of the variables to save
+    """
+    with open(file_name + ".part", "wb") as part:
+        savemat(part, data)
+
+    os.replace(file_name + ".part", file_name)
+
+
 #pylint: disable=too-many-arguments
 def spatial_correlation(
         longitude_1, longitude_2, ellipse_longitude, latitude_1, latitude_2,
-- 
2.43.0


From eae815e4997cf9a6b3e9926f04476a073c3f00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 40/43] fix: a calibration series limited to no break points
 was fitted with up to four when another series has prescribed ones

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 84b376a..74372c3 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -669,7 +669,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                 breaks_in = breaks[i, :]
                 breaks_in = breaks_in[np.isfinite(breaks_in)]
 
-                if max_breaks[i]:
+                if max_breaks[i].size > 0:
                     (xfit, condslope, condslope_err,
                      time_deriv_temp, time_deriv_err_temp,
                      sta_mean_temp, sta_rms_temp, ndf,
-- 
2.43.0


From 8585af5b8eb4b8169ed4f069f30658a41ef2c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:33 +0000
Subject: [PATCH 41/43] fix: limits on the number of breaks given as a row were
 taken from the first one for every series

---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 74372c3..fcd0c69 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -465,7 +465,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
-    max_breaks = float_calseries['max_breaks']
+    # one row per series, also if they are given as a row
+    max_breaks = float_calseries['max_breaks'].reshape(-1, 1)
     breaks = float_calseries['breaks']
     use_theta_gt = float_calseries['use_theta_gt']
     use_theta_lt = float_calseries['use_theta_lt']
-- 
2.43.0


From f7350a6b9c17a5d1458947fd31e013bbb6c6f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:33 +0000
Subject: [PATCH 42/43] fix: one series with several limits on the number of
 breaks was reported as an error and then calibrated with the first

---
 pyowc/calibration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index fcd0c69..daaa7da 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -505,6 +505,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         print("Error in specificying number of possible break points")
         print(str(max_breaks), " specified, should be ",
               str([max_breaks.__len__(), n_seq]))
+        sstatus = 0
 
     # we have multiple cal series, make sure that break information is provideed for all segments
     elif n_seq > 1:
-- 
2.43.0


From bd7f93a76caba0d32d8328fbb61fa9672a174d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:50 +0000
Subject: [PATCH 43/43] fix: reference files of one level lost their casts

A box file whose casts have a single level was read as one cast, and a
bottle file of one level was not read at all: the level dimension is now
restored for all variables.
---
 pyowc/data/fetchers.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index b96d2bb..e9115c4 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -20,17 +20,18 @@ from ..configuration import print_cfg
 
 
 def _read_historical_mat(filepath):
-    """Read a historical .mat file, and keep the cast dimension that read_mat squeezes out if there is a single cast."""
+    """Read a historical .mat file, and keep the dimensions that read_mat squeezes out if there is a single cast or level."""
     data = read_mat(filepath)
 
+    if np.ndim(data['pres']) < 2:
+        for key in ('sal', 'ptmp', 'pres', 'temp'):
+            if key in data:
+                data[key] = np.reshape(data[key], (-1, np.size(data['lat'])))
+
     if np.ndim(data['lat']) == 0:
         for key in ('lat', 'long', 'dates'):
             data[key] = np.reshape(data[key], 1)
 
-        for key in ('sal', 'ptmp', 'pres', 'temp'):
-            if key in data:
-                data[key] = np.reshape(data[key], (-1, 1))
-
         if 'source' in data:
             data['source'] = np.atleast_1d(data['source'])
 
@@ -45,17 +46,8 @@ def read_mat_ctd(filepath):
 
 @lru_cache()
 def read_mat_bottle(filepath):
-    """Load and transform a bottle .mat file."""
-    data = _read_historical_mat(filepath)
-
-    # if data dimensions don't match, transpose to avoid indexing issues
-    if (data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
-        data['pres'] = data['pres'].T
-        data['ptmp'] = data['ptmp'].T
-        data['sal'] = data['sal'].T
-        data['temp'] = data['temp'].T
-
-    return data
+    """Cache the result of reading a bottle .mat file from disk."""
+    return _read_historical_mat(filepath)
 
 
 @lru_cache()
@@ -350,7 +342,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                 if data:
                     # Sometimes the data comes in wrapped in as a 3d array, so convert to 2d
-                    if data['pres'].__len__() == 1:
+                    if data['pres'].ndim > 2:
                         data['pres'] = data['pres'][0]
                         data['sal'] = data['sal'][0]
                         data['ptmp'] = data['ptmp'][0]
-- 
2.43.0

