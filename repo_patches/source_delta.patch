From 37b58a823d4db477a3d22fd1635d2e79b24da06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:12 +0000
Subject: [PATCH 01/13] fix: evaluate line-of-sight attenuation at every
 distance of an area sweep

The line-of-sight curve was only evaluated when its coefficients were
computed, so the second and later line-of-sight distances returned the
attenuation of an earlier distance.
---
 src/itmlogic/lrprop.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 531cff9..24fea2c 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -157,11 +157,11 @@ def lrprop(d, prop):
             prop['ael'] = a2 - prop['ak1'] * d2 - prop['ak2'] * np.log(d2)
             prop['wlos'] = 1
 
-            if prop['dist'] > 0:
-                prop['aref'] = (
-                    prop['ael'] + prop['ak1'] *
-                    prop['dist'] + prop['ak2'] * np.log(prop['dist'])
-                    )
+        if prop['dist'] > 0:
+            prop['aref'] = (
+                prop['ael'] + prop['ak1'] *
+                prop['dist'] + prop['ak2'] * np.log(prop['dist'])
+                )
 
     if prop['dist'] <= 0 or prop['dist'] >= prop['dlsa']:
 
-- 
2.43.0


From de67a3ef683af1d8be32a927623b7779597eeaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:13 +0000
Subject: [PATCH 02/13] fix: judge terminal 1 on its own horizon distance in
 the range check

---
 src/itmlogic/lrprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/lrprop.py b/src/itmlogic/lrprop.py
index 24fea2c..916e1a6 100644
--- a/src/itmlogic/lrprop.py
+++ b/src/itmlogic/lrprop.py
@@ -62,7 +62,7 @@ def lrprop(d, prop):
 
         if (abs(prop['the'][0]) > 0.2 or
             prop['dl'][0] < 0.1 * prop['dls'][0] or
-            prop['dl'][1] > 3 * prop['dls'][0]):
+            prop['dl'][0] > 3 * prop['dls'][0]):
             prop['kwx'] = max(prop['kwx'], 3)
 
         if (abs(prop['the'][1]) > 0.2 or
-- 
2.43.0


From b9f9ce4e8a18b2506b6b308e2348d2f9615fd7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:13 +0000
Subject: [PATCH 03/13] fix: return the undefined marker from the scatter
 attenuation

The 1001 marker for inadmissible paths was overwritten before returning,
so the propagation routine could never see it.
---
 src/itmlogic/scatter_attenuation/ascat.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/itmlogic/scatter_attenuation/ascat.py b/src/itmlogic/scatter_attenuation/ascat.py
index ebe6fbf..e319623 100644
--- a/src/itmlogic/scatter_attenuation/ascat.py
+++ b/src/itmlogic/scatter_attenuation/ascat.py
@@ -34,6 +34,7 @@ def ascat(d, prop):
 
         if r1 < 0.2 and r2 < 0.2:
             prop['ascat1'] = 1001
+            return prop
 
         ss = (d - prop['ad']) / (d + prop['ad'])
 
@@ -61,9 +62,7 @@ def ascat(d, prop):
         if h0 > 15 and prop['h0s'] >= 0:
             h0 = prop['h0s']
 
-        if prop['ascat1'] != 1001:
-
-            prop['h0s'] = h0
+        prop['h0s'] = h0
 
     th = prop['tha'] + d * prop['gme']
 
-- 
2.43.0


From 64e17b06b391e5dfb6846677d179e92fc27a8d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:14 +0000
Subject: [PATCH 04/13] fix: use the receiver's ground elevation for its
 effective height

On line-of-sight profiles the elevation of the last but one profile point
was used instead of the one under the receiver.
---
 src/itmlogic/preparatory_subroutines/qlrpfl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/qlrpfl.py b/src/itmlogic/preparatory_subroutines/qlrpfl.py
index 7ffe6dd..a24287c 100644
--- a/src/itmlogic/preparatory_subroutines/qlrpfl.py
+++ b/src/itmlogic/preparatory_subroutines/qlrpfl.py
@@ -40,7 +40,7 @@ def qlrpfl(prop):
         prop['he'] = []
         za, zb = zlsq1(prop['pfl'], xl[0], xl[1])
         prop['he'].append(prop['hg'][0] + max(prop['pfl'][2] - za, 0))
-        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+1] - zb, 0))
+        prop['he'].append(prop['hg'][1] + max(prop['pfl'][np+2] - zb, 0))
 
         for j in range(0, 2):
             prop['dl'][j] = (
-- 
2.43.0


From e9323d5d81207cbe2cf2c4df4fa2af78c8890459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:15 +0000
Subject: [PATCH 05/13] fix: widen a short window outwards in the least squares
 fit

The upper end of a window shorter than one interval was moved down
instead of up, giving an empty window and a division by zero.
---
 src/itmlogic/preparatory_subroutines/zlsq1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/itmlogic/preparatory_subroutines/zlsq1.py b/src/itmlogic/preparatory_subroutines/zlsq1.py
index 5321c07..c9c146a 100644
--- a/src/itmlogic/preparatory_subroutines/zlsq1.py
+++ b/src/itmlogic/preparatory_subroutines/zlsq1.py
@@ -35,7 +35,7 @@ def zlsq1(z, x1, x2):
 
     if xb <= xa:
         xa = max(xa - 1, 0)
-        xb = xn - max(xn - xb + 1, 0)
+        xb = xn - max(xn - (xb + 1), 0)
 
     ja = xa
     jb = xb
-- 
2.43.0


From c0be9c9ed778d5d7508c2405b82418584f95288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:46 +0000
Subject: [PATCH 06/13] fix: keep the imaginary part of the ground impedance in
 the area runners

The real part alone drops the ground conductivity; the point-to-point
runner and qlrps take the complex square root.
---
 scripts/area.py        | 2 +-
 scripts/area_2tiles.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/area.py b/scripts/area.py
index 6dd5b03..7d5b399 100644
--- a/scripts/area.py
+++ b/scripts/area.py
@@ -161,7 +161,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
diff --git a/scripts/area_2tiles.py b/scripts/area_2tiles.py
index b9fee7d..d22d8a7 100644
--- a/scripts/area_2tiles.py
+++ b/scripts/area_2tiles.py
@@ -162,7 +162,7 @@ def itmlogic_area(main_user_defined_parameters):
     zq = complex(prop['eps'], 376.62 * prop['sgm'] / prop['wn'])
 
     #Compute ground effective impedance z parameter (horizontal pol)
-    prop['zgnd'] = math.sqrt(zq.real - 1)
+    prop['zgnd'] = np.sqrt(zq - 1)
 
     #Compute ground effective impedance z parameter (vertical pol)
     if (prop['ipol'] != 0):
-- 
2.43.0


From cd631b748627dd34d89c0ca7c5dba9bfb79a75bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:47 +0000
Subject: [PATCH 07/13] fix: convert percentages to fractions in the campaign
 runner

A level of 50 was passed as the probability 50 and clamped to the
extreme quantile instead of the median.
---
 scripts/pimter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index 6bd4d0d..b252821 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -86,8 +86,8 @@ def run_itmlogic(surface_profile_m, distance_km):
     DB = 8.685890
     NC = len(qc)
     NR = len(qr)
-    ZR = qerfi(qr) #ZR = qerfi(qr / 100)
-    ZC = qerfi(qc) #ZC = qerfi(qc / 100)
+    ZR = qerfi([x / 100 for x in qr])
+    ZC = qerfi([x / 100 for x in qc])
 
     # Inverse Earth radius
     prop['gma']  = 157E-9
-- 
2.43.0


From 85708499f1a0fa933ee3c111c2573457279ebcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:48 +0000
Subject: [PATCH 08/13] fix: use the profile passed to the campaign runner

The function ignored its argument and read a module global that exists
only when the file is run as a script.
---
 scripts/pimter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pimter.py b/scripts/pimter.py
index b252821..87dd126 100644
--- a/scripts/pimter.py
+++ b/scripts/pimter.py
@@ -103,7 +103,7 @@ def run_itmlogic(surface_profile_m, distance_km):
 
     PFL.append(len(distance_km)-1)
     PFL.append(distance_km[1] - distance_km[0])
-    PFL = PFL + terrain_height_no_tree
+    PFL = PFL + list(surface_profile_m)
 
     #Length of profile (km)
     prop['d'] = distance_km[-1]/1000
-- 
2.43.0


From 15f311d817041423a7f263c445030c98c9aea4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:49 +0000
Subject: [PATCH 09/13] fix: sample the terrain profile up to the receiver

The last sample stopped one step short of the end of the line.
---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index fa6efe2..542ed69 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -161,7 +161,7 @@ def terrain_p2p(dem, line):
 
     # Interpolate along line to get sampling points
     num_samples = determine_num_samples(distance_m)
-    steps = np.interp(range(num_samples), [0,num_samples], [0, line_geom.length])
+    steps = np.interp(range(num_samples), [0, num_samples - 1], [0, line_geom.length])
     point_geoms = [line_geom.interpolate(currentdistance) for currentdistance in steps]
 
     # Sample elevation profile
-- 
2.43.0


From 3d7efd1d7a7263abb495c04e29f70c8dadb4a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:50 +0000
Subject: [PATCH 10/13] fix: ignore masked cells in the interdecile range

np.percentile disregards the mask, so nodata cells and cells outside the
circle were counted.
---
 scripts/terrain_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/terrain_module.py b/scripts/terrain_module.py
index 542ed69..579d06e 100644
--- a/scripts/terrain_module.py
+++ b/scripts/terrain_module.py
@@ -112,7 +112,7 @@ def interdecile_range(x):
         The terrain irregularity parameter.
 
     """
-    q90, q10 = np.percentile(x, [90, 10])
+    q90, q10 = np.percentile(np.ma.compressed(x), [90, 10])
 
     interdecile_range = int(round(q90 - q10, 0))
 
-- 
2.43.0


From b78052a3b7f92782ee6db41cfd68875c2089ff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:02 +0000
Subject: [PATCH 11/13] fix: pass the axis of sort_index by keyword

Current pandas takes the arguments of sort_index by keyword only, so both plots raised TypeError.
---
 vis/vis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vis/vis.py b/vis/vis.py
index 1e79341..1a32f27 100644
--- a/vis/vis.py
+++ b/vis/vis.py
@@ -30,7 +30,7 @@ def plot_area_results(path):
     """
     data = pd.read_csv(path)
 
-    data = data.set_index(['distance_km','confidence_level_%']).unstack().swaplevel(0,1,1).sort_index(1)
+    data = data.set_index(['distance_km','confidence_level_%']).unstack().swaplevel(0,1,1).sort_index(axis=1)
     ax =  data.plot.line()
     ax.set_xlabel("Distance (km)")
     ax.set_ylabel("Propagation Loss (dB)")
@@ -58,7 +58,7 @@ def plot_p2p_results(path):
 
     data = data.set_index(
         ['reliability_level_%', 'confidence_level_%']
-        ).unstack().swaplevel(0,1,1).sort_index(1)
+        ).unstack().swaplevel(0,1,1).sort_index(axis=1)
 
     ax =  data.plot.bar(rot=0)
     ax.set_xlabel("Reliability (%)")
-- 
2.43.0


From 9461a0aafb7e66f33000911d5193496da40b222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:15 +0000
Subject: [PATCH 12/13] fix: create the shapes folder of the two-tile script

The sample points were written to a folder relative to the working directory, which is not in the repository and was never created, so the script failed on a fresh checkout.
---
 scripts/p2p_2tiles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 90d4e9b..9d1cb5e 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -424,15 +424,19 @@ if __name__ == '__main__':
         'properties': {'elevation': 'float'}
     }
 
+    if not os.path.exists(directory_shapes):
+        os.makedirs(directory_shapes)
+
     crs = from_epsg(4326)
-    with fiona.open('data/processed/shapes/p2p_2tiles.shp',
+    path_shapes = os.path.join(directory_shapes, 'p2p_2tiles.shp')
+    with fiona.open(path_shapes,
                     'w',
                     driver='ESRI Shapefile',
                     crs=crs,
                     schema=schema) as fh:
         for point in points:
             fh.write(point)
-    print("Wrote two-tile profile to data/processed/shapes/p2p_2tiles.shp")
+    print("Wrote two-tile profile to {}".format(path_shapes))
 
     #Run model and get output
     output = itmlogic_p2p(main_user_defined_parameters, original_surface_profile_m)
-- 
2.43.0


From 7aeef3bba99dc1003d6536e084226234da7849b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:36 +0000
Subject: [PATCH 13/13] fix: report diffraction as dominant between the horizon
 and crossover distances

The point-to-point runners printed 'Diffraction is the dominant mode' for
line-of-sight paths (inside the smooth-earth horizon distance) and nothing
for diffraction paths.
---
 scripts/p2p.py        | 9 +++++----
 scripts/p2p_2tiles.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/scripts/p2p.py b/scripts/p2p.py
index 6752366..c51d31a 100644
--- a/scripts/p2p.py
+++ b/scripts/p2p.py
@@ -197,10 +197,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if prop['dist'] > prop['dlsa']:
+        if prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
diff --git a/scripts/p2p_2tiles.py b/scripts/p2p_2tiles.py
index 9d1cb5e..6026a64 100644
--- a/scripts/p2p_2tiles.py
+++ b/scripts/p2p_2tiles.py
@@ -195,10 +195,11 @@ def itmlogic_p2p(main_user_defined_parameters, surface_profile_m):
         print('Single horizon path')
     else:
         print('Double-horizon path')
-    if prop['dist'] <= prop['dlsa']:
-        print('Diffraction is the dominant mode')
-    elif prop['dist'] > prop['dx']:
-        print('Tropospheric scatter is the dominant mode')
+    if prop['dist'] > prop['dlsa']:
+        if prop['dist'] <= prop['dx']:
+            print('Diffraction is the dominant mode')
+        else:
+            print('Tropospheric scatter is the dominant mode')
 
     print('Estimated quantiles of basic transmission loss (db)')
     print('Free space value {} db'.format(str(fs)))
-- 
2.43.0

