From b84b73ed706e3ca0109ca69f9b5ad0d5cfce7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 01/39] fix: U_shape places the right-hand column of the U

---
 ghedt/coordinates.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ghedt/coordinates.py b/ghedt/coordinates.py
index 7f0b7a2..64d91f5 100644
--- a/ghedt/coordinates.py
+++ b/ghedt/coordinates.py
@@ -67,6 +67,7 @@ def U_shape(Nx, Ny, Bx, By):
             U.append((i * Bx, 0.))
         for j in range(1, Ny):
             U.append((0., j * By))
+            U.append(((Nx - 1) * Bx, j * By))
     else:
         nbh = Nx * Ny
         U = rectangle(Nx, Ny, Bx, By)
-- 
2.43.0


From d9d548fc2c644ddd673c67b2daa6276327dcea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 02/39] fix: near-square domain ends at upper x upper, not one
 row beyond the land

---
 ghedt/domains.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index f9018f6..2a826d4 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -20,6 +20,9 @@ def square_and_near_square(lower: int,
 
     for i in range(lower, upper+1):
         for j in range(2):
+            if i + j > upper:
+                # The largest field in the domain is upper x upper
+                continue
             coordinates = \
                 dt.coordinates.rectangle(i, i+j, B, B)
 
-- 
2.43.0


From b91b6e6749475f016807666ba748793e46411ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 03/39] fix: rectangular domain keeps the full line when the
 land fits a single row

---
 ghedt/domains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 2a826d4..cef90f4 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -50,7 +50,8 @@ def rectangular(length_x, length_y, B_min, B_max, disp=False):
     N_min = int(np.ceil(n_1_min).tolist())
     N_max = int(np.floor(n_1_max).tolist())
 
-    n_2_old = 1
+    # no complete rectangle has been added to the domain yet
+    n_2_old = 0
 
     if disp:
         print(50 * '-')
-- 
2.43.0


From 36a929d1a5a4ce8105fac8bb4b641cfdedbfcf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:53 +0000
Subject: [PATCH 04/39] fix: bi-zoned domain stays on the land when the width
 exceeds the length

---
 ghedt/domains.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index cef90f4..3254df5 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -216,6 +216,8 @@ def zoned_rectangle_domain(length_x, length_y, n_x, n_y, transpose=False):
     n_i2 = 1
 
     z = dt.coordinates.zoned_rectangle(n_1, n_2, b_1, b_2, n_i1, n_i2)
+    if transpose:
+        z = dt.coordinates.transpose_coordinates(z)
     zoned_rectangle_domain.append(z)
 
     while n_i1 < (n_1 - 2) or n_i2 < (n_2 - 2):
@@ -292,8 +294,8 @@ def bi_rectangle_zoned_nested(length_x, length_y, B_min, B_max_x, B_max_y):
     for i in range(len(n_1_values) + len(n_2_values)-1):
         domain = []
         if l == 0:
-            b_x = length_x / (N_min_1 - 1)
-            b_y = length_y / (N_min_2 - 1)
+            b_x = length_1 / (N_min_1 - 1)
+            b_y = length_2 / (N_min_2 - 1)
 
             # go from one borehole to a line
             for l in range(1, N_min_1 + 1):
-- 
2.43.0


From 9d0f05c56b30efcc3b5c57472ff7c0a0b3c77fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 05/39] fix: number_of_boreholes counts a length that is a
 whole number of spacings exactly

---
 ghedt/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 8433034..951a326 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -77,7 +77,9 @@ def make_rectangle_perimeter(length_x, length_y, origin=(0, 0)):
 
 
 def number_of_boreholes(length, B, func=np.ceil):
-    N = func(length / B) + 1
+    # Floating point rounding in the division must not add or drop a borehole
+    # when the length is a whole number of spacings
+    N = func(round(length / B, 9)) + 1
     return int(N)
 
 
-- 
2.43.0


From 8cf1149c9bacf61ab852586e1d92a2256268c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:21 +0000
Subject: [PATCH 06/39] fix: bi-rectangular domain does not add a row because
 of rounding

---
 ghedt/domains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 3254df5..948c31e 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -124,7 +124,9 @@ def bi_rectangular(
     N_max = int(np.floor(n_1_max).tolist())
     for n_1 in range(N_min, N_max + 1):
 
-        n_2 = int(np.ceil((length_2 / B_max_2) + 1))
+        # B_max_2 may be length_2 divided by a whole number, floating point
+        # rounding must not add a row in that case
+        n_2 = int(np.ceil(round((length_2 / B_max_2) + 1, 9)))
         b_2 = length_2 / (n_2 - 1)
 
         b_1 = length_1 / (n_1 - 1)
-- 
2.43.0


From 54557cc3f427515a000aadf6b53c6aac74e07d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 07/39] fix: reorder_domain keeps every field when two have the
 same number of boreholes

---
 ghedt/domains.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 948c31e..11abb07 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -413,19 +413,8 @@ def verify_excess(domain):
 
 def reorder_domain(domain):
     # Reorder the domain so that the number of boreholes successively grow
-    numbers = {}
-    for i in range(len(domain)):
-        numbers[i] = len(domain[i])
-
-    sorted_values = sorted(numbers.values())
-
-    reordered_domain = []
-
-    for i in sorted_values:
-        for j in numbers.keys():
-            if numbers[j] == i:
-                reordered_domain.append(domain[j])
-                break
+    # (fields with the same number of boreholes keep their order)
+    reordered_domain = sorted(domain, key=len)
 
     return reordered_domain
 
-- 
2.43.0


From 9350f7710780a9d43338d702fe2619e6eb32d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 08/39] fix: a land constraint without a building (no cut-out
 polygon) does not crash

---
 ghedt/feature_recognition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index 14a41c3..d12ebb0 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -18,6 +18,9 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
                   keep_contour=True):
     if boundary is None:
         boundary = []
+    if len(boundary) == 0:
+        # There is no polygon to test the coordinates against
+        return list(coordinates)
 
     # cv2.pointPolygonTest only takes integers, so we scale by 10000 and then
     # scale back to keep precision
-- 
2.43.0


From 1a90e709eba2fc84d1ea2cbc1325eb466020da6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 09/39] fix: boreholes on the property line are not dropped by
 truncating the polygon to 0.1 mm

---
 ghedt/feature_recognition.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ghedt/feature_recognition.py b/ghedt/feature_recognition.py
index d12ebb0..0c9590f 100644
--- a/ghedt/feature_recognition.py
+++ b/ghedt/feature_recognition.py
@@ -22,13 +22,14 @@ def remove_cutout(coordinates, boundary=None, remove_inside=True,
         # There is no polygon to test the coordinates against
         return list(coordinates)
 
-    # cv2.pointPolygonTest only takes integers, so we scale by 10000 and then
-    # scale back to keep precision
+    # cv2.pointPolygonTest only takes 32 bit numbers. The point is converted to
+    # a 32 bit float, the boundary needs the same conversion so that a point on
+    # the contour is found to be on the contour.
     scale = 10000.
     coordinates = scale_coordinates(coordinates, scale)
     boundary = scale_coordinates(boundary, scale)
 
-    _boundary = np.array(boundary, dtype=np.uint64)
+    _boundary = np.array(boundary, dtype=np.float32)
 
     # https://stackoverflow.com/a/50670359/11637415
     # Positive - point is inside the contour
-- 
2.43.0


From e4cd4cd688511661ec4c52a63dc8514c9a05111f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 10/39] fix: a field left without boreholes by the building is
 not put in the domain

---
 ghedt/domains.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ghedt/domains.py b/ghedt/domains.py
index 11abb07..44135d3 100644
--- a/ghedt/domains.py
+++ b/ghedt/domains.py
@@ -384,6 +384,8 @@ def polygonal_land_constraint(property_boundary, B_min, B_max_x, B_max_y,
             new_coordinates = dt.feature_recognition.remove_cutout(
                 new_coordinates, boundary=building_description,
                 remove_inside=True, keep_contour=False)
+            if len(new_coordinates) == 0:
+                continue
             new_coordinates_domain.append(new_coordinates)
         coordinates_domain_nested_cutout.append(new_coordinates_domain)
 
-- 
2.43.0


From e1412df4a80c5c520785d857d7729466943aeaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 11/39] fix: a peak in the first hour of a day is attributed to
 that day

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b66ba95..2fef9f8 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -188,9 +188,13 @@ class Loads:
             # Average monthly load in kW
             self.monthly_average[i] = self.monthly_total[i] / len(month_loads)
 
-            # Day of month the peak load occurs (e.g. 1-31)
-            self.monthly_peak_day[i] = math.ceil(month_loads.index(
-                self.monthly_peak[i]) / hours_in_day)
+            # Day of month the peak load occurs (e.g. 1-31), a month without
+            # load has no peak day (0)
+            if self.monthly_peak[i] > 0.0:
+                self.monthly_peak_day[i] = month_loads.index(
+                    self.monthly_peak[i]) // hours_in_day + 1
+            else:
+                self.monthly_peak_day[i] = 0
 
             hours_in_previous_months += hours_in_month
 
-- 
2.43.0


From 0a1768c7c25ca38a8e6138fbfd8151e4a0a12450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 12/39] fix: peak duration search does not fail when the two
 days slightly exceed the monthly peak

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 26 +++++--------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 2fef9f8..b1848ec 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -260,27 +260,13 @@ class Loads:
             # two day cooling loads (or heat rejection) in kWh
             current_two_day_load = [0.] + self.monthly_two_day_hourly_peak[i]
 
-            # This tolerance applies to the difference between the current
-            # months peak load and the maximum of the two-day load. If the
-            # absolute value of the difference between the current months
-            # peak load and the current two-day peak load is within this
-            # tolerance, then the maximum of the two-day load is equal to the
-            # maximum of the current month. If the absolute difference is
-            # greater than the tolerance, then the two-day peak load contains
-            # a load greater than the current months peak load. The tolerance
-            # could ONLY be exceeded when the first 24 hours is located in the
-            # previous month.
-            tol = 0.1
-
             # Ensure the peak load for the two-day load profile is the same or
             # greater than the monthly peak load. This check is done in case
-            # the previous month contains a higher load than the current month.
-            load_diff = self.monthly_peak[i] - max(current_two_day_load)
+            # the two days reach into a month that contains a higher load (by
+            # any amount) than the current month.
             # monthly peak cooling load (or heat rejection) in kW
-            if abs(load_diff) < tol:
-                current_month_peak_cl = self.monthly_peak[i]
-            else:
-                current_month_peak_cl = max(current_two_day_load)
+            current_month_peak_cl = max(self.monthly_peak[i],
+                                        max(current_two_day_load))
 
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
@@ -349,7 +335,9 @@ class Loads:
 
         if dT_fluid_nm_max > 0.0:
             f = scipy.interpolate.interp1d(dT_fluid_pk, hour_time)
-            peak_duration = f(dT_fluid_nm_max).tolist()
+            # The nominal never exceeds the peak temperature change, except
+            # due to rounding
+            peak_duration = f(min(dT_fluid_nm_max, max(dT_fluid_pk))).tolist()
         else:
             peak_duration = 1.0e-6
 
-- 
2.43.0


From 4fc66fdcaa98c50c3213bbea13aa78eab744c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 13/39] fix: a month without load gets no peak duration from
 the day before it

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index b1848ec..ed09962 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -271,7 +271,8 @@ class Loads:
             # monthly average cooling load (or heat rejection) in kW
             current_month_avg_cl = self.monthly_average[i]
 
-            if current_month_peak_cl != 0.0:
+            # A month without load has no peak, even if the day before does
+            if self.monthly_peak[i] != 0.0:
                 peak_duration, q_peak, q_nominal = \
                     self.perform_current_month_simulation(
                         current_two_day_load, current_month_peak_cl,
-- 
2.43.0


From e4758ddb4135b14909caad28a5c146b4b87afdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 14/39] fix: monthly energy is conserved when both peaks fall
 on the same day and are ignored

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index ed09962..a9c5260 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -560,7 +560,8 @@ class HybridLoad:
             # There may be a more sophisticated way to do this, but I will loop
             # through the lists mduration is the number of hours over which to
             # calculate the average value for the month (edited)
-            if include_peak:
+            peak_day_diff = cl.monthly_peak_day[mi] - hl.monthly_peak_day[mi]
+            if include_peak and peak_day_diff != 0:
                 mduration = \
                     monthdays(mi) * 24 - cl.monthly_peak_duration[mi] - \
                     hl.monthly_peak_duration[mi]
@@ -568,7 +569,6 @@ class HybridLoad:
                 mpeak_hl = hl.peak_energy(mi)  # peak htg energy
                 mload = cl.monthly_total[mi] - hl.monthly_total[mi] - mpeak_cl + mpeak_hl
                 mrate = mload / mduration
-                peak_day_diff = cl.monthly_peak_day[mi] - hl.monthly_peak_day[mi]
             else:
                 # peak load not used this month
                 mduration = monthdays(mi) * 24
-- 
2.43.0


From 0c826c9088acd06c653bedd84abdf9d292961b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 15/39] fix: hybrid load periods stay strictly ordered when
 long peaks overlap or reach out of the month

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index a9c5260..caeafef 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -542,20 +542,31 @@ class HybridLoad:
                 include_peak = False
 
             def _place_loads(order: List[Loads], sign: List[float], rate):
+                lastavghour = lastmonthhour(i)
                 for k, _ in enumerate(order):
                     if (order[k].monthly_peak[mi] > 0 and include_peak):
                         _first_hour_peak, _last_hour_peak = \
                             order[k].peak_hour_range(mi, i)
-                        self.load = np.append(self.load, rate)
-                        self.hour = np.append(self.hour, _first_hour_peak)
+                        # A long peak is shifted when centering it on its day
+                        # makes it overlap with the other peak or reach out of
+                        # the month
+                        _duration = _last_hour_peak - _first_hour_peak
+                        _latest_start = lastavghour - sum(
+                            _l.monthly_peak_duration[mi] for _l in order[k:])
+                        _first_hour_peak = max(
+                            min(_first_hour_peak, _latest_start), self.hour[-1])
+                        _last_hour_peak = _first_hour_peak + _duration
+                        if _first_hour_peak > self.hour[-1]:
+                            self.load = np.append(self.load, rate)
+                            self.hour = np.append(self.hour, _first_hour_peak)
                         # peak
                         self.load = np.append(
                             self.load, sign[k] * order[k].monthly_peak[mi])
                         self.hour = np.append(self.hour, _last_hour_peak)
                 # rest of month
-                lastavghour = lastmonthhour(i)
-                self.load = np.append(self.load, rate)
-                self.hour = np.append(self.hour, lastavghour)
+                if lastavghour > self.hour[-1]:
+                    self.load = np.append(self.load, rate)
+                    self.hour = np.append(self.hour, lastavghour)
 
             # There may be a more sophisticated way to do this, but I will loop
             # through the lists mduration is the number of hours over which to
-- 
2.43.0


From be4b5e01e6bd1bd1a6922a172a17345c9c4cd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 16/39] fix: simulate from the start month through the end
 month, for any number of months

---
 ghedt/ground_heat_exchangers.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index d0dc134..e044c10 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -296,17 +296,21 @@ class GHE(BaseGHE):
 
         if method == 'hybrid':
             Q_dot = self.hybrid_load.load[2:] * 1000.  # convert to Watts
-            time_values = self.hybrid_load.hour[2:]  # convert to seconds
+            # The simulation begins in the first hour of the start month
+            time_values = self.hybrid_load.hour[2:] - self.hybrid_load.hour[1]
 
             HPEFT, dTb = self._simulate_detailed(Q_dot, time_values, g)
         elif method == 'hourly':
-            n_months = \
-                self.sim_params.end_month - self.sim_params.start_month + 1
-            n_hours = int(n_months / 12. * 8760.)
+            # The hours of the start month through the end month
+            first_hour = plat.ground_loads.firstmonthhour(
+                self.sim_params.start_month) - 1
+            last_hour = plat.ground_loads.lastmonthhour(
+                self.sim_params.end_month)
+            n_hours = last_hour - first_hour
             Q_dot = copy.deepcopy(self.hourly_extraction_ground_loads)
             # How many times does q need to be repeated?
-            n_years = int(np.ceil(n_hours / 8760))
-            Q_dot = Q_dot * n_years
+            n_years = int(np.ceil(last_hour / 8760))
+            Q_dot = (Q_dot * n_years)[first_hour:last_hour]
             Q_dot = -1. * np.array(Q_dot)  # Convert loads to rejection
             t = np.arange(1, n_hours + 1, 1)
 
-- 
2.43.0


From 023a3dfe8d66c43047818038e621a9528aaf6246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:54 +0000
Subject: [PATCH 17/39] fix: hourly load representation keeps 8760 hours with
 each peak on its day

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index caeafef..5043298 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -38,6 +38,11 @@ def synthetic_load_function(
     # set the peak_load for a duration of peak_load_duration
     peak_load_start_hour = \
         math.floor(peak_day_noon - (float(peak_load_duration) / 2.))
+    # A long peak is shifted to stay inside of the month
+    peak_load_start_hour = max(
+        min(peak_load_start_hour,
+            hours_in_previous_months + hours_in_month - peak_load_duration),
+        hours_in_previous_months)
     hourly_loads[peak_load_start_hour:
                  peak_load_start_hour + peak_load_duration] = \
         [peak_load] * peak_load_duration
@@ -651,13 +656,14 @@ class HybridLoad:
             # duration of monthly peak htg load in hours
             peak_load_duration_ext: int \
                 = int(round(hl.monthly_peak_duration[i]))
-            # day of the month on which peak htg load occurs (e.g. 1-31)
-            peak_day_ext: int = hl.monthly_peak_day[i]
+            # day of the month on which peak htg load occurs (e.g. 1-31), the
+            # synthetic load function counts the days from 0
+            peak_day_ext: int = hl.monthly_peak_day[i] - 1
 
             peak_load_rej: float = cl.monthly_peak[i]
             peak_load_duration_rej: int \
                 = int(round(cl.monthly_peak_duration[i]))
-            peak_day_rej: int = cl.monthly_peak_day[i]
+            peak_day_rej: int = cl.monthly_peak_day[i] - 1
 
             synthetic_load_function(
                 hourly_extraction_loads, avg_hourly_load_ext, peak_load_ext,
-- 
2.43.0


From 73a159c9b07d1d016b1f34ca6e8a0f7f12761742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 18/39] fix: synthetic rejection averages are in the requested
 unit

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 5043298..1198f39 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -94,7 +94,7 @@ def create_synthetic_doubling_load_profile(units='W', year=2019) -> tuple:
         # The extraction monthly average load
         avg_hourly_load_ext: float = float(i) * scale
         # The rejection monthly average load
-        avg_hourly_load_rej: float = float(len(days_in_month) - i)
+        avg_hourly_load_rej: float = float(len(days_in_month) - i) * scale
 
         # The peak load occurs in day peak_day and for time peak_load_duration
         peak_load_ext: float = 2. * float(i) * scale  # The monthly peak load
-- 
2.43.0


From ef92942c703bf26f54fd690c1d6080bfd53af657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 19/39] fix: sizing an oversized field returns the minimum
 height with the matching warning

---
 ghedt/ground_heat_exchangers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index e044c10..c962c59 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -332,16 +332,21 @@ class GHE(BaseGHE):
             self.bhe.b.H = H
             max_HP_EFT, min_HP_EFT = self.simulate(method=method)
             T_excess = self.cost(max_HP_EFT, min_HP_EFT)
-            return T_excess
+            # The excess temperature decreases with depth, solve_root expects
+            # an increasing function to choose a bound if there is no root
+            return -T_excess
 
         # Make the initial guess variable the average of the heights given
         self.bhe.b.H = \
             (self.sim_params.max_Height + self.sim_params.min_Height) / 2.
         # bhe.b.H is updated during sizing
-        plat.equivalance.solve_root(
+        H = plat.equivalance.solve_root(
             self.bhe.b.H, local_objective, lower=self.sim_params.min_Height,
             upper=self.sim_params.max_Height, xtol=1.0e-6, rtol=1.0e-6,
             maxiter=50)
+        if self.bhe.b.H != H:
+            # Simulate at the height that is the result
+            local_objective(H)
         if self.bhe.b.H == self.sim_params.min_Height:
             warnings.warn('The minimum height provided to size this ground heat'
                           ' exchanger is not shallow enough. Provide a '
-- 
2.43.0


From 329a42ab8c0a04b26fac97529efdcfd4c516d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:34 +0000
Subject: [PATCH 20/39] fix: parallel flow divides between all of the U-tubes,
 not always two

---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 1a90f24..73fd782 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -10,8 +10,8 @@ class BasePipe(object):
         # borehole mass flow rate
         self.m_flow_borehole = m_flow_borehole
         # mass flow rate to each pipe
-        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(m_flow_borehole,
-                                                            config)
+        self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+            m_flow_borehole, config, n_pipes=pipe.n_pipes)
         # Store Thermal properties
         self.soil = soil
         self.grout = grout
@@ -78,11 +78,11 @@ class BasePipe(object):
         return
 
     @staticmethod
-    def compute_mass_flow_rate_pipe(m_flow_borehole, config):
+    def compute_mass_flow_rate_pipe(m_flow_borehole, config, n_pipes=2):
         if config == 'series' or config is None:
             m_flow_pipe = m_flow_borehole
         elif config == 'parallel':
-            m_flow_pipe = m_flow_borehole / 2.
+            m_flow_pipe = m_flow_borehole / float(n_pipes)
         else:
             raise ValueError('No such configuration exists.')
         return m_flow_pipe
-- 
2.43.0


From d0c792317e8184b6632b1284fc34b9a84a614b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:00 +0000
Subject: [PATCH 21/39] fix: a changed mass flow rate reaches the convection
 coefficient of the pipes

---
 .../borehole_heat_exchangers.py               | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index 73fd782..e92d2a4 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -91,20 +91,14 @@ class BasePipe(object):
             self, m_flow_borehole=None, fluid=None):
         # Compute the effective borehole thermal resistance
 
-        # if the mass flow rate has changed, then update it and use new value
-        if m_flow_borehole is None:
-            m_flow_borehole = self.m_flow_borehole
-        else:
-            self.m_flow_borehole = m_flow_borehole
-
-        # if the mass flow rate has changed, then update it and use new value
-        if fluid is None:
-            fluid = self.fluid
-        else:
-            self.fluid = fluid
+        # if the mass flow rate or the fluid has changed, then the pipe
+        # resistances need to be updated to use the new value
+        if m_flow_borehole is not None or fluid is not None:
+            return self.update_thermal_resistance(
+                m_flow_borehole=m_flow_borehole, fluid=fluid)
 
         R_b_star = self.effective_borehole_thermal_resistance(
-            m_flow_borehole, fluid.cp)
+            self.m_flow_borehole, self.fluid.cp)
 
         return R_b_star
 
@@ -144,6 +138,8 @@ class SingleUTube(BasePipe, gt.pipes.SingleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+                m_flow_borehole, None, n_pipes=self.pipe.n_pipes)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -197,6 +193,8 @@ class MultipleUTube(BasePipe, gt.pipes.MultipleUTube):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = self.compute_mass_flow_rate_pipe(
+                m_flow_borehole, self.config, n_pipes=self.pipe.n_pipes)
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
@@ -401,6 +399,7 @@ class CoaxialPipe(CoaxialBase, gt.pipes.Coaxial, BasePipe):
             m_flow_borehole = self.m_flow_borehole
         else:
             self.m_flow_borehole = m_flow_borehole
+            self.m_flow_pipe = m_flow_borehole
 
         # if the mass flow rate has changed, then update it and use new value
         if fluid is None:
-- 
2.43.0


From 7ac381bbe0bbd8ea23ef3659111f1400c15a9c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 22/39] fix: a single g-function is not used for a different
 B/H than it was computed for

---
 ghedt/gfunction.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 99f1e5b..87b4b08 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -176,12 +176,7 @@ class GFunction:
             elif num_curves == 2:
                 kind = 'linear'
             else:
-                if (H_eq-height_values[0]) / height_values[0] < 0.001:
-                    g_function = self.g_lts[height_values[0]]
-                    rb = self.r_b_values[height_values[0]]
-                    D = self.D_values[height_values[0]]
-                    return g_function, rb, D, H_eq
-                elif min(height_values) - H_eq < 0.001:
+                if abs(H_eq-height_values[0]) / height_values[0] < 0.001:
                     g_function = self.g_lts[height_values[0]]
                     rb = self.r_b_values[height_values[0]]
                     D = self.D_values[height_values[0]]
-- 
2.43.0


From 33cbfb17aff56b6c0ab339d406e762c1901ac83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:07 +0000
Subject: [PATCH 23/39] fix: g-function interpolation does not depend on the
 kind or range of an earlier call

---
 ghedt/gfunction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 87b4b08..065eb50 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -200,8 +200,10 @@ class GFunction:
             if required_curves > len(height_values):
                 kind = curves_by_kind[len(height_values)]
 
-        # if the interpolation table is not yet know, build it
-        if len(self.interpolation_table) == 0:
+        # if the interpolation table is not yet know, build it (a table depends
+        # on the kind of interpolation and on whether it extrapolates)
+        if self.interpolation_table.get('options') != (kind, fill_value):
+            self.interpolation_table = {'options': (kind, fill_value)}
             # create an interpolation for the g-function which takes the height
             # (or equivilant height) as an input the g-function needs to be
             # interpolated at each point in dimensionless time
-- 
2.43.0


From cdc837514499e4666c425860fcbb8389c10ff54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 24/39] fix: a height slightly below the computed g-functions
 extrapolates instead of failing

---
 ghedt/gfunction.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 065eb50..10ea383 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -159,8 +159,6 @@ class GFunction:
 
         if min(height_values) <= H_eq <= max(height_values):
             fill_value = ''
-        elif abs(min(height_values) - H_eq) < 0.001:
-            fill_value = ''
         else:
             fill_value = 'extrapolate'
             warnings.warn('Extrapolation is being used.')
-- 
2.43.0


From 3eb541ce2a295199fe523152ffa8abfb5f8486c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 25/39] fix: sizing one ground heat exchanger does not change
 another that was given the same borehole

---
 ghedt/ground_heat_exchangers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index c962c59..7e2832d 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -25,6 +25,9 @@ class BaseGHE:
         self.nbh = float(len(GFunction.bore_locations))
         self.V_flow_borehole = self.V_flow_system / self.nbh
         m_flow_borehole = self.V_flow_borehole / 1000. * fluid.rho
+        # The height of the borehole is changed by sizing, don't tie together
+        # the ground heat exchangers that are given the same borehole
+        borehole = copy.deepcopy(borehole)
 
         # Borehole Heat Exchanger
         self.bhe_object = bhe_function
-- 
2.43.0


From ec4eed669134d3cab30d7b54bd0c18fa745aabb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:13 +0000
Subject: [PATCH 26/39] fix: nested bisection searches the first domain when
 its one borehole is selected

---
 ghedt/search_routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index f6d259a..d11de1f 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -251,8 +251,8 @@ class Bisection2D(Bisection1D):
             copy.deepcopy(self.calculated_temperatures))
 
         # We tacked on one borehole to the beginning, so we need to subtract 1
-        # on the index
-        inner_domain = coordinates_domain_nested[selection_key-1]
+        # on the index (unless that one borehole is what has been selected)
+        inner_domain = coordinates_domain_nested[max(selection_key - 1, 0)]
         self.coordinates_domain = inner_domain
 
         # Reset calculated temperatures
-- 
2.43.0


From 797eee87f046fa572540037eb4c300726e4d694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 27/39] fix: the equivalent single U-tube takes the closest
 limit of the pipe conductivity

---
 ghedt/peak_load_analysis_tool/equivalance.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index 8aab8ce..ec82e9b 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -99,7 +99,8 @@ def equivalent_single_u_tube(bhe, V_fluid, V_pipe, R_conv, R_pipe):
     def objective_pipe_conductivity(pipe_k):
         eq_single_u_tube.pipe.k = pipe_k
         eq_single_u_tube.update_thermal_resistance()
-        return eq_single_u_tube.R_fp - (R_conv + R_pipe)
+        # Increases with the conductivity, as solve_root expects it to
+        return (R_conv + R_pipe) - eq_single_u_tube.R_fp
 
     # Use Brent Quadratic to find the root
     # Define a lower and upper for pipe thermal conductivities
@@ -107,8 +108,11 @@ def equivalent_single_u_tube(bhe, V_fluid, V_pipe, R_conv, R_pipe):
     k_p_upper = eq_single_u_tube.pipe.k * 10.
 
     # Solve for the mass flow rate to make the convection values equal
-    solve_root(eq_single_u_tube.pipe.k, objective_pipe_conductivity,
-               lower=k_p_lower, upper=k_p_upper)
+    k_p = solve_root(eq_single_u_tube.pipe.k, objective_pipe_conductivity,
+                     lower=k_p_lower, upper=k_p_upper)
+    # If the root is not bracketed, the closest limit is used
+    if k_p in (k_p_lower, k_p_upper):
+        eq_single_u_tube.pipe.k = k_p
 
     eq_single_u_tube.update_thermal_resistance()
 
-- 
2.43.0


From 8d201151d6333471df203bd8a8cee9ea984a460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:56 +0000
Subject: [PATCH 28/39] fix: a short-time-step point at the first
 long-time-step time is not kept or searched past

---
 ghedt/ground_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 7e2832d..6e009cb 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -98,7 +98,7 @@ class BaseGHE:
             # find where to stop in sts
             i = 0
             value = log_time_sts[i]
-            while value <= min_log_time_lts:
+            while value < min_log_time_lts:
                 i += 1
                 value = log_time_sts[i]
             log_time = log_time_sts[0:i] + log_time_lts
-- 
2.43.0


From 278484834c51a23a94900cb00e61dfbe11b37d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:58 +0000
Subject: [PATCH 29/39] fix: a g-function database keeps the burial depths it
 states when others are missing

---
 ghedt/gfunction.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 10ea383..29eb61c 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -471,12 +471,9 @@ class GFunction:
         keys = sorted(list(g_tmp.keys()), key=int)  # sort the heights in order
         # fill the g-function dictionary with sorted heights
         g = {key: g_tmp[key] for key in keys}
-        # fill the burial depth dictionary with sorted heights
-        try:
-            Ds = {key: Ds_tmp[key] for key in keys}
-        except:
-            # if there's no D provided, make it 2
-            Ds = {key: 2. for key in keys}
+        # fill the burial depth dictionary with sorted heights, if there's no D
+        # provided, make it 2
+        Ds = {key: Ds_tmp.get(key, 2.) for key in keys}
         r_bs = {key: r_bs_tmp[key] for key in keys}
         time = {key: t_tmp[key] for key in
                      keys}  # fill the time array for yearly points
-- 
2.43.0


From 315c505741836800360bcf1674f42a3d09aaf67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:11 +0000
Subject: [PATCH 30/39] fix: equal segments are requested from pygfunction,
 whose default is unequal segments

---
 ghedt/gfunction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ghedt/gfunction.py b/ghedt/gfunction.py
index 29eb61c..6f7a650 100644
--- a/ghedt/gfunction.py
+++ b/ghedt/gfunction.py
@@ -36,7 +36,9 @@ def calculate_g_function(
     # setup options
     segments = segments.lower()
     if segments == 'equal':
-        options = {'nSegments': nSegments, 'disp': disp}
+        # pygfunction's default segments are unequal
+        options = {'nSegments': nSegments, 'segment_ratios': None,
+                   'disp': disp}
     elif segments == 'unequal':
         if segment_ratios is None:
             segment_ratios = gt.utilities.segment_ratios(
-- 
2.43.0


From 7ad495fb5770f0162c881c9264256e8f28bc0d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 31/39] fix: shallow boreholes can be printed and exported,
 with every long-time-step value

---
 ghedt/ground_heat_exchangers.py | 8 +++++---
 ghedt/search_routines.py        | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ghedt/ground_heat_exchangers.py b/ghedt/ground_heat_exchangers.py
index 6e009cb..b3a1a8e 100644
--- a/ghedt/ground_heat_exchangers.py
+++ b/ghedt/ground_heat_exchangers.py
@@ -264,10 +264,12 @@ class GHE(BaseGHE):
         B_over_H = self.B_spacing / self.bhe.b.H
         g = self.grab_g_function(B_over_H)
         total_g_values = g.x.size
-        number_lts_g_values = 27
+        number_lts_g_values = len(self.GFunction.log_time)
         number_sts_g_values = 50
-        sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
-                                     number_sts_g_values).tolist())
+        # A shallow borehole may have fewer short time step values
+        sts_step_size = max(1, int(np.floor(
+            (total_g_values - number_lts_g_values) /
+            number_sts_g_values).tolist()))
         lntts = []
         g_values = []
         for i in range(0, (total_g_values - number_lts_g_values),
diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index d11de1f..0cc6039 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -394,10 +394,12 @@ def oak_ridge_export(bisection_search, file_name='ghedt_output'):
     g = ghe.grab_g_function(B_over_H)
 
     total_g_values = g.x.size
-    number_lts_g_values = 27
+    number_lts_g_values = len(ghe.GFunction.log_time)
     number_sts_g_values = 30
-    sts_step_size = int(np.floor((total_g_values - number_lts_g_values) /
-                                 number_sts_g_values).tolist())
+    # A shallow borehole may have fewer short time step values
+    sts_step_size = max(1, int(np.floor(
+        (total_g_values - number_lts_g_values) /
+        number_sts_g_values).tolist()))
     lntts = []
     g_values = []
     for i in range(1, (total_g_values - number_lts_g_values),
-- 
2.43.0


From 9d23c7f4c72e2deaa0834ec215e8197bb765be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 32/39] fix: the report of a U-tube states the Reynolds number
 of its pipes

---
 ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
index e92d2a4..cefbadf 100644
--- a/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
+++ b/ghedt/peak_load_analysis_tool/borehole_heat_exchangers.py
@@ -49,7 +49,7 @@ class BasePipe(object):
         output += self.fluid.__repr__()
         output += '\n'
 
-        Re = compute_Reynolds_concentric(
+        Re = compute_Reynolds(
             self.m_flow_pipe, self.pipe.r_in, self.pipe.eps, self.fluid)
 
         output += justify('Reynolds number', str(round(Re, 4)))
-- 
2.43.0


From e251165c896d69229f293f2cf7d9930e61a7ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 33/39] fix: the spacing of a field without boreholes is
 rejected with its ValueError

---
 ghedt/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 951a326..0912f5a 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -28,11 +28,11 @@ def Eskilson_log_times():
 # -----------------
 def borehole_spacing(borehole, coordinates):
     # Use the distance between the first pair of coordinates as the B-spacing
-    x_0, y_0 = coordinates[0]
     if len(coordinates) == 1:
         # Set the spacing to be the borehole radius if there's just one borehole
         B = copy.deepcopy(borehole.r_b)
     elif len(coordinates) > 1:
+        x_0, y_0 = coordinates[0]
         x_1, y_1 = coordinates[1]
         B = max(borehole.r_b,
                 np.sqrt((x_1 - x_0) ** 2 + (y_1 - y_0) ** 2))
-- 
2.43.0


From 893fb643e8e7948ebfc554496a0089f5cc27fed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 34/39] fix: the plot of the hourly heat extraction shows the
 extraction and rejection loads

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index 1198f39..f38e6e9 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -692,12 +692,12 @@ class HybridLoad:
         hl = self.extraction
 
         for i in range(len(hl.hourly)):
-            if self.hourly_rejection_loads[i] != 0.0:
-                rejection.append((i, -hl.hourly[i]))
             if cl.hourly[i] != 0.0:
                 # Flip the sign back negative because split_heat_and_cool made
                 # all loads positive
-                extraction.append((i, cl.hourly[i]))
+                rejection.append((i, -cl.hourly[i]))
+            if hl.hourly[i] != 0.0:
+                extraction.append((i, hl.hourly[i]))
 
         fig = gt.gfunction._initialize_figure()
         ax = fig.add_subplot(111)
-- 
2.43.0


From d701014a440356f5be40152521ca4d25b0a91b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 35/39] fix: the plotted fluid simulation labels extraction as
 extraction and rejection as rejection

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index f38e6e9..f825f9d 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -759,17 +759,17 @@ class HybridLoad:
         # heating loads (or heat extraction)
         hl = self.extraction
 
-        if extraction:
+        if rejection:
             # plot two day (48 hour) fluid temperatures for cooling with peak
             # load
             ax.plot(two_day_hour_time,
                     cl.monthly_two_day_fluid_temps_pk[month_num],
-                    'k--', label='Peak Extraction', zorder=0)
+                    'k--', label='Peak Rejection', zorder=0)
             # plot two day (48 hour) fluid temperatures for cooling with nominal
             # load
             ax.plot(two_day_hour_time,
                     cl.monthly_two_day_fluid_temps_nm[month_num],
-                    'b-', label='Extraction', zorder=1)
+                    'b-', label='Rejection', zorder=1)
             # Draw horizontal line from max time to fluid sim
             draw_horizontal(cl.monthly_two_day_fluid_temps_nm[month_num],
                             cl.monthly_peak_duration[month_num])
@@ -777,17 +777,17 @@ class HybridLoad:
             pk_cl_duration_rounded = round(pk_cl_duration, 1)
             new_ticks.append(pk_cl_duration_rounded)
 
-        if rejection:
+        if extraction:
             # plot two day (48 hour) fluid temperatures for heating with peak
             # load
             ax.plot(two_day_hour_time,
                     hl.monthly_two_day_fluid_temps_pk[month_num],
-                    'k.', label='Peak Rejection', zorder=0)
+                    'k.', label='Peak Extraction', zorder=0)
             # plot two day (48 hour) fluid temperatures for heating with nominal
             # load
             ax.plot(two_day_hour_time,
                     hl.monthly_two_day_fluid_temps_nm[month_num],
-                    'r-.', label='Rejection', zorder=1)
+                    'r-.', label='Extraction', zorder=1)
             draw_horizontal(hl.monthly_two_day_fluid_temps_nm[month_num],
                             hl.monthly_peak_duration[month_num])
             # duration of monthly peak htg load in hours
-- 
2.43.0


From b652e4c6f690c3e5a21ca5d502b1d409dd783880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 36/39] fix: the two-day fluid temperatures of a month are
 those of that month

---
 ghedt/peak_load_analysis_tool/ground_loads.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/ground_loads.py b/ghedt/peak_load_analysis_tool/ground_loads.py
index f825f9d..1cc84dc 100644
--- a/ghedt/peak_load_analysis_tool/ground_loads.py
+++ b/ghedt/peak_load_analysis_tool/ground_loads.py
@@ -285,6 +285,10 @@ class Loads:
                         self.monthly_two_day_fluid_temps_nm)
             else:
                 peak_duration = 1.0e-6
+                # No load, no temperature change (one profile for each month)
+                no_change = [0.] * len(current_two_day_load)
+                self.monthly_two_day_fluid_temps_pk.append(no_change)
+                self.monthly_two_day_fluid_temps_nm.append(no_change)
 
             # Set the monthly cooling load duration
             self.monthly_peak_duration[i] = peak_duration
-- 
2.43.0


From 70ca36c53871aca6c108aa357ec94e838ee9376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:24 +0000
Subject: [PATCH 37/39] fix: a root that lies exactly on a bound is found

---
 ghedt/peak_load_analysis_tool/equivalance.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ghedt/peak_load_analysis_tool/equivalance.py b/ghedt/peak_load_analysis_tool/equivalance.py
index ec82e9b..177fad4 100644
--- a/ghedt/peak_load_analysis_tool/equivalance.py
+++ b/ghedt/peak_load_analysis_tool/equivalance.py
@@ -38,6 +38,11 @@ def solve_root(x, objective_function, lower=None, upper=None,
     # bracketed
     minus = objective_function(lower)
     plus = objective_function(upper)
+    # a bound may be the root
+    if minus == 0.:
+        return lower
+    if plus == 0.:
+        return upper
     # get signs of upper and lower thermal conductivity bounds
     kg_minus_sign = int(minus / abs(minus))
     kg_plus_sign = int(plus / abs(plus))
-- 
2.43.0


From 56f872844d9f92dcedf1f58756d92afd98d9830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:59 +0000
Subject: [PATCH 38/39] fix: an excess temperature of exactly zero meets the
 limits instead of failing the search

---
 ghedt/search_routines.py | 2 +-
 ghedt/utilities.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 0cc6039..1d8ed54 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -147,7 +147,7 @@ class Bisection1D:
             pass
         else:
             # This domain does not bracked the solution
-            if T_0_upper < 0.0 and T_m1 < 0.0:
+            if T_0_upper <= 0.0 and T_m1 <= 0.0:
                 msg = 'Based on the loads provided, the excess temperatures ' \
                       'for the minimum and maximum number of boreholes falls ' \
                       'below 0. This means that the loads are "miniscule" or ' \
diff --git a/ghedt/utilities.py b/ghedt/utilities.py
index 0912f5a..640d2d8 100644
--- a/ghedt/utilities.py
+++ b/ghedt/utilities.py
@@ -100,9 +100,9 @@ def sign(x: float) -> int:
     Determine the sign of a value, pronounced "sig-na"
     :param x: the input value
     :type x: float
-    :return: a 1 or a -1
+    :return: a 1 or a -1 (an excess of exactly zero meets the limits: -1)
     """
-    return int(abs(x) / x)
+    return 1 if x > 0 else -1
 
 
 def check_bracket(sign_xL, sign_xR, disp=None) -> bool:
-- 
2.43.0


From 23eded7b33fc936291785d8f8f20c3ac8b73d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 39/39] fix: compare all inner domains of a bi-zoned search
 when more than 99,999 m are drilled

search_successive started with an old drilling of 99999 m, so that with more
total drilling in the first inner domain the search stopped there, although
the drilling of the following ones may be less.
---
 ghedt/search_routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ghedt/search_routines.py b/ghedt/search_routines.py
index 1d8ed54..7897b44 100644
--- a/ghedt/search_routines.py
+++ b/ghedt/search_routines.py
@@ -307,7 +307,7 @@ class BisectionZD(Bisection1D):
 
         i = self.selection_key_outer
 
-        old_height = 99999
+        old_height = float('inf')
 
         while i < len(self.coordinates_domain_nested) and i < max_iter:
 
-- 
2.43.0

