From d552a04a5a23a684a732655747d95c407a5dbb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 01/25] fix: integer express multipliers for charge injection
 need math and util imported

---
 arcticpy/roe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index f73794a..e99a83e 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -48,9 +48,12 @@ phase 2 is closer than phase 1:
 | Readout   
 +----------- 
 """
+import math
 import numpy as np
 from copy import deepcopy
 
+from arcticpy import util
+
 
 class ROEPhase(object):
     def __init__(
-- 
2.43.0


From ae7486f234f9b9afa06711fab0b213ad78525b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 02/25] fix: charge injection must not remember the default
 number of transfers between images

---
 arcticpy/roe.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index e99a83e..a3e1471 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -691,25 +691,25 @@ class ROEChargeInjection(ROE):
 
         window_range = range(pixels) if isinstance(pixels, int) else pixels
         n_pixels = max(window_range) + 1
-        if self.n_pixel_transfers is None:
-            self.n_pixel_transfers = n_pixels + offset
+        # Don't store the default value, since it depends on this image
+        n_pixel_transfers = self.n_pixel_transfers
+        if n_pixel_transfers is None:
+            n_pixel_transfers = n_pixels + offset
 
         # Set default express to all transfers and check no larger
         if express == 0:
-            express = self.n_pixel_transfers
+            express = n_pixel_transfers
         else:
-            express = min(express, self.n_pixel_transfers)
+            express = min(express, n_pixel_transfers)
 
         # Compute the multiplier factors
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
-        max_multiplier = self.n_pixel_transfers / express
+        max_multiplier = n_pixel_transfers / express
         if self.express_matrix_dtype == int:
             max_multiplier = math.ceil(max_multiplier)
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
-                    max_multiplier,
-                    0,
-                    self.n_pixel_transfers - sum(express_matrix[:, 0]),
+                    max_multiplier, 0, n_pixel_transfers - sum(express_matrix[:, 0]),
                 )
         else:
             express_matrix[:] = max_multiplier
-- 
2.43.0


From 21248a81fd15f543d239faed98fd89827edbd22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:26 +0000
Subject: [PATCH 03/25] fix: charge injection must process only the rows of the
 requested window

---
 arcticpy/roe.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index a3e1471..b0f0760 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -716,13 +716,19 @@ class ROEChargeInjection(ROE):
 
         # When to monitor traps
         monitor_traps_matrix = express_matrix > 0
+        monitor_traps_matrix = monitor_traps_matrix[:, window_range]
 
         # Keep only the temporal region of interest
         express_matrix = self.restrict_time_span_of_express_matrix(
             express_matrix, time_window_range
         )
+        # Keep only the spatial region of interest
+        express_matrix = express_matrix[:, window_range]
 
-        return express_matrix.astype(float), monitor_traps_matrix
+        return (
+            np.ascontiguousarray(express_matrix.astype(float)),
+            np.ascontiguousarray(monitor_traps_matrix),
+        )
 
     def save_trap_states_matrix_from_express_matrix(self, express_matrix):
         """
-- 
2.43.0


From 0de634d94264d7161f3db4eaf4eeb577135a3f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 04/25] fix: express one less than the number of pixels must
 not fail with separate first transfers

---
 arcticpy/roe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index b0f0760..017b58d 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -525,7 +525,10 @@ class ROE(ROEAbstract):
 
         # Temporarily ignore the first pixel-to-pixel transfer, if it is to be
         # handled differently than the rest
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        separate_first_transfer = (
+            self.empty_traps_for_first_transfers and express < n_pixels
+        )
+        if separate_first_transfer:
             n_pixels -= 1
 
         # Initialise an array with enough pixels to contain the supposed image,
@@ -551,7 +554,7 @@ class ROE(ROEAbstract):
         # Add an extra (first) transfer for every pixel, the effect of which
         # will only ever be counted once, because it is physically different
         # from the other transfers (it sees only empty traps)
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        if separate_first_transfer:
             # Store current matrix, which is correct for one-too-few pixel-to-pixel transfers
             express_matrix_small = express_matrix
             # Create a new matrix for the full number of transfers
-- 
2.43.0


From e43e46c878e71b79a81fa325f918a4964bd1fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 05/25] fix: trap states must be saved between express passes
 over a single row

---
 arcticpy/roe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 017b58d..0465dc6 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -621,6 +621,7 @@ class ROE(ROEAbstract):
 
         if not self.empty_traps_for_first_transfers:
             for express_index in range(n_express - 1):
+                row_index = 0
                 for row_index in range(n_pixels - 1):
                     if express_matrix[express_index + 1, row_index + 1] > 0:
                         break
-- 
2.43.0


From 2fb87a5034ba9d8109e92bfda85be3e6570e71bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 06/25] fix: watermark array must grow when trap states are
 kept between passes or columns

---
 arcticpy/trap_managers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 295e298..3cad025 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -365,6 +365,18 @@ class TrapManager(object):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
 
+    def extend_watermarks_if_nearly_full(self):
+        """ Make sure there is space for the new watermarks of one more transfer.
+
+        Trap states that are kept between express passes or between columns can 
+        need more watermark levels than the transfers in a single pass could 
+        create. There must also always remain at least one zero. 
+        """
+        if self.watermarks[-1 - self.n_watermarks_per_transfer, 0] != 0:
+            self.watermarks = np.concatenate(
+                (self.watermarks, np.zeros_like(self.watermarks))
+            )
+
     def watermark_index_above_cloud_from_cloud_fractional_volume(
         self, cloud_fractional_volume, watermarks, max_watermark_index
     ):
@@ -718,6 +730,7 @@ class TrapManager(object):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         # Initial watermarks and number of electrons in traps
+        self.extend_watermarks_if_nearly_full()
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
@@ -1043,6 +1056,7 @@ class TrapManagerInstantCapture(TrapManager):
         """
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
+        self.extend_watermarks_if_nearly_full()
         watermarks_initial = deepcopy(self.watermarks)
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
-- 
2.43.0


From f7b19da20ab87df0528ce82c20934b52a6c59b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:43 +0000
Subject: [PATCH 07/25] fix: a cloud inside the notch must not leave behind a
 full watermark of no volume

---
 arcticpy/trap_managers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 3cad025..d391353 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -569,6 +569,10 @@ class TrapManager(object):
         Make the new watermark then can return immediately.
         """
 
+        # No traps are reached, e.g. if all the electrons fit inside the notch
+        if cloud_fractional_volume == 0:
+            return 0
+
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
@@ -946,6 +950,10 @@ class TrapManagerInstantCapture(TrapManager):
         
         Make the new watermark then can return immediately.
         """
+        # No traps are reached, e.g. if all the electrons fit inside the notch
+        if cloud_fractional_volume == 0:
+            return 0.0
+
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
-- 
2.43.0


From 8b5c28cdce2b5de1524d2de5bbc0e322411e8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 08/25] fix: released electrons can lift the cloud above the
 highest watermark

---
 arcticpy/trap_managers.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index d391353..4cb2cf9 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -663,8 +663,21 @@ class TrapManager(object):
             max_watermark_index=max_watermark_index,
         )
 
+        # The released electrons might lift the cloud above all watermarks, so
+        # initialise a new one, duplicated for the initial watermarks
+        if watermark_index_above_cloud > max_watermark_index:
+            self.watermarks[
+                watermark_index_above_cloud, 0
+            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
+                watermark_index_above_cloud, 0
+            ]
+
+            # Increment the index now that an extra watermark has been set
+            max_watermark_index += 1
+
         # Update the watermark volumes, duplicated for the initial watermarks
-        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+        elif cloud_fractional_volume > 0 and not cy_value_in_cumsum(
             cloud_fractional_volume, self.watermarks[:, 0]
         ):
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
-- 
2.43.0


From ad8531951646690c558ee6f1622159cdc1b88d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:26 +0000
Subject: [PATCH 09/25] fix: slow capture must not take more electrons than
 were free in the cloud

---
 arcticpy/trap_managers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 4cb2cf9..00ff6aa 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -749,6 +749,7 @@ class TrapManager(object):
         # Initial watermarks and number of electrons in traps
         self.extend_watermarks_if_nearly_full()
         # watermarks_initial = deepcopy(self.watermarks)
+        n_free_electrons_initial = n_free_electrons
         watermarks_initial = np.array(self.watermarks)
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
@@ -850,11 +851,12 @@ class TrapManager(object):
         if n_trapped_electrons_final == n_trapped_electrons_initial:
             return 0
 
-        # Not enough available electrons to capture
-        enough = n_free_electrons / (
-            n_trapped_electrons_final - n_trapped_electrons_initial
-        )
-        if 0 < enough < 1:
+        # Not enough available electrons to capture. The net capture already
+        # includes any released electrons, so is limited by those that were free
+        n_electrons_captured = n_trapped_electrons_final - n_trapped_electrons_initial
+        if n_free_electrons_initial < n_electrons_captured:
+            enough = n_free_electrons_initial / n_electrons_captured
+
             # For watermark fill fractions that increased, tweak them such that
             # the resulting increase instead matches the available electrons
             self.watermarks = self.updated_watermarks_from_capture_not_enough(
-- 
2.43.0


From c134fe7676b1186777cecffa1beec6fc31d3ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 10/25] fix: rounding must not create watermarks of zero or
 negative volume

---
 arcticpy/trap_managers.py        |  4 ++--
 arcticpy/trap_managers_utils.pyx | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 00ff6aa..9fe0b0d 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -1014,8 +1014,8 @@ class TrapManagerInstantCapture(TrapManager):
         Create a new watermark at the cloud fractional volume.
         """
         # Create the new watermark at the cloud fractional volume
-        if cloud_fractional_volume > 0 and cloud_fractional_volume not in np.cumsum(
-            self.watermarks[:, 0]
+        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+            cloud_fractional_volume, self.watermarks[:, 0]
         ):
             # Update the watermark volumes, duplicated for the initial watermarks
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
diff --git a/arcticpy/trap_managers_utils.pyx b/arcticpy/trap_managers_utils.pyx
index 1d09cba..e93f077 100644
--- a/arcticpy/trap_managers_utils.pyx
+++ b/arcticpy/trap_managers_utils.pyx
@@ -5,7 +5,11 @@ import numpy as np
 cimport numpy as np
 
 from libc.stdlib cimport malloc, free
-from libc.math cimport exp
+from libc.math cimport exp, fabs
+
+# Cumulative watermark volumes within this relative tolerance are the same level,
+# since rounding could otherwise create watermarks of zero or negative volume
+cdef np.float64_t level_tolerance = 1e-12
 
 
 @cython.boundscheck(False)
@@ -40,17 +44,19 @@ cdef void roll_2d_vertical_1(np.float64_t[:, :] arr) nogil:
 @cython.nonecheck(False)
 @cython.wraparound(False)
 cpdef np.int64_t cy_value_in_cumsum(np.float64_t value, np.float64_t[:] arr):
-    """ Return whether or not a value is in the cumulative sum of an array. """
+    """ Return whether or not a value is in the cumulative sum of an array, to 
+        within rounding errors. 
+    """
     cdef np.float64_t total = arr[0]
     cdef np.int64_t i
     
     with nogil:
         for i in range(1, arr.shape[0], 1):
-            if value == total:
+            if fabs(value - total) <= level_tolerance * total:
                 return 1
             total += arr[i]
 
-        if value == total:
+        if fabs(value - total) <= level_tolerance * total:
             return 1
         else:
             return 0
@@ -90,10 +96,10 @@ cpdef np.int64_t cy_watermark_index_above_cloud_from_cloud_fractional_volume(
     with nogil:
         for i in range(watermarks.shape[0]):
             total += watermarks[i, 0]
-            if cloud_fractional_volume <= total:
+            if cloud_fractional_volume <= total * (1 + level_tolerance):
                 index = min(index, i)
 
-        if total < cloud_fractional_volume:
+        if total * (1 + level_tolerance) < cloud_fractional_volume:
             return max_watermark_index + 1
         else:
             return index
-- 
2.43.0


From 68ce6c5f84355256430c0693f9d3ff77a803bd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:37 +0000
Subject: [PATCH 11/25] fix: find the time elapsed for nearly full continuum
 traps too

---
 arcticpy/traps.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 582a1ec..55dd721 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -315,11 +315,26 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         time_elapsed : float
             The time elapsed, in the same units as the trap timescales.
         """
-        # Crudely iterate to find the time that gives the required fill fraction
+        # Completely full or empty
+        if fill_fraction >= 1:
+            return 0.0
+        if fill_fraction <= 0:
+            return np.inf
+
+        # Find the time that gives the required fill fraction
         def find_time(time_elapsed):
             return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
 
-        time_elapsed = optimize.fsolve(find_time, 0.1 * self.release_timescale_mu)[0]
+        # The fill fraction falls steadily with time, so bracket the solution
+        time_max = self.release_timescale_mu
+        while find_time(time_max) > 0:
+            time_max *= 2
+        if find_time(0) <= 0:
+            return 0.0
+
+        time_elapsed = optimize.brentq(
+            find_time, 0, time_max, xtol=1e-14 * self.release_timescale_mu
+        )
 
         # Check solution (seems to be slightly unreliable for very small sigmas)
         assert abs(find_time(time_elapsed)) < 1e-7
-- 
2.43.0


From 9a8e30e6bc2e8241bd7d7b127be04397eca45c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:33 +0000
Subject: [PATCH 12/25] fix: continuum traps with not enough electrons must be
 part-filled, not fail

---
 arcticpy/trap_managers.py | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 9fe0b0d..b5b3b29 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -954,6 +954,10 @@ class TrapManagerInstantCapture(TrapManager):
 
         return n_trapped_electrons_initial - n_trapped_electrons_final
 
+    def watermarks_converted_to_fill_fractions(self, watermarks):
+        """ Return a copy of the watermarks, here already as fill fractions. """
+        return deepcopy(watermarks)
+
     def _n_electrons_captured__first_capture(
         self,
         n_free_electrons,
@@ -1080,7 +1084,9 @@ class TrapManagerInstantCapture(TrapManager):
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
         self.extend_watermarks_if_nearly_full()
-        watermarks_initial = deepcopy(self.watermarks)
+        watermarks_initial = self.watermarks_converted_to_fill_fractions(
+            watermarks=self.watermarks
+        )
         n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
             watermarks=self.watermarks
         )
@@ -1265,6 +1271,12 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
         """ The value for a filled watermark level, here 0 is an elapsed time """
         return 0
 
+    def watermarks_converted_to_fill_fractions(self, watermarks):
+        """ Return a copy of the watermarks with their values as fill fractions. """
+        return self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+            watermarks=watermarks
+        )
+
     def watermarks_converted_to_fill_fractions_from_elapsed_times(self, watermarks):
         """ Convert the watermark values to fill fractions.
 
@@ -1337,7 +1349,7 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             
         watermarks_initial : np.ndarray
             The initial watermarks before capture, but with updated fractional 
-            volumes to match the current watermarks.
+            volumes to match the current watermarks, and as fill fractions.
             
         enough : float
             The ratio of available electrons to traps up to this fractional 
@@ -1350,35 +1362,23 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             initial_watermarks_from_n_pixels_and_total_traps().
         """
         # Convert to fill fractions
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks[level, i_trap]
-                )
-                watermarks_initial[
-                    level, i_trap
-                ] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks_initial[level, i_trap]
-                )
+        watermarks = self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+            watermarks=watermarks
+        )
 
         # Update the fill fractions in the standard way
         watermarks = super(
             TrapManagerTrackTime, self
         ).updated_watermarks_from_capture_not_enough(
-            self,
             watermarks=watermarks,
             watermarks_initial=watermarks_initial,
             enough=enough,
         )
 
         # Convert back to elapsed times
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
-                    fill_fraction=watermarks[level, i_trap]
-                )
-
-        return watermarks
+        return self.watermarks_converted_to_elapsed_times_from_fill_fractions(
+            watermarks=watermarks
+        )
 
     def update_watermark_values_for_release(self, watermark_values, dwell_time):
         """ 
-- 
2.43.0


From 69113cb6c0858db0f1f24c222abd384e75eb642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:20 +0000
Subject: [PATCH 13/25] fix: charge released towards readout from the first row
 must not be written outside the image

---
 arcticpy/main_utils.pyx | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 7914981..ea191ef 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -162,13 +162,19 @@ def cy_clock_charge_in_one_direction(
     )
 
     # Temporarily expand image, if charge released from traps ever migrates to
-    # a different charge packet, at any time during the clocking sequence
-    n_rows_zero_padding = max(roe.pixels_accessed_during_clocking) - min(
-        roe.pixels_accessed_during_clocking
-    )
-    zero_padding = np.zeros((n_rows_zero_padding, image_in.shape[1]), dtype=np.float64)
+    # a different charge packet, at any time during the clocking sequence. Those
+    # could be in front of the first pixel as well as behind the last one
+    cdef np.int64_t n_rows_padding_front = -min(roe.pixels_accessed_during_clocking)
+    n_rows_padding_back = max(roe.pixels_accessed_during_clocking)
 
-    cdef np.float64_t[:, :] image = np.concatenate((image_in, zero_padding), axis=0)
+    cdef np.float64_t[:, :] image = np.concatenate(
+        (
+            np.zeros((n_rows_padding_front, image_in.shape[1]), dtype=np.float64),
+            image_in,
+            np.zeros((n_rows_padding_back, image_in.shape[1]), dtype=np.float64),
+        ),
+        axis=0,
+    )
     
     # Read out one column of pixels through the (column of) traps
     for column_index in window_column_range:
@@ -200,7 +206,9 @@ def cy_clock_charge_in_one_direction(
 
                         # Select the relevant pixel (and phase) for the initial charge
                         row_index_read = (
-                            window_row_range[row_index] + roe_phase.capture_from_which_pixel
+                            n_rows_padding_front
+                            + window_row_range[row_index]
+                            + roe_phase.capture_from_which_pixel
                         )
 
                         # Initial charge (0 if this phase's potential is not high)
@@ -226,7 +234,8 @@ def cy_clock_charge_in_one_direction(
 
                         # Select the relevant pixel (and phase(s)) for the returned charge
                         row_indices_write = (
-                            window_row_range[row_index]
+                            n_rows_padding_front
+                            + window_row_range[row_index]
                             + roe_phase.release_to_which_pixels
                         )
 
@@ -258,8 +267,8 @@ def cy_clock_charge_in_one_direction(
 
     # Unexpand the image to its original dimensions
     image_out = np.asarray(image)
-    if n_rows_zero_padding > 0:
-        image_out = image_out[0:-n_rows_zero_padding, :]
+    image_out = image_out[
+        n_rows_padding_front : n_rows_padding_front + image_in.shape[0], :
+    ]
 
     return image_out
-
-- 
2.43.0


From b89440b27c5f01c8c978c36d8406678fbb2cbe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 14/25] fix: poisson traps must keep the type and capture
 timescale of their species

---
 arcticpy/traps.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 55dd721..2c68de1 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -189,11 +189,10 @@ class Trap(object):
         poisson_trap = []
         for densities in poisson_densities:
             for i, trap_i in enumerate(trap):
-                poisson_trap.append(
-                    Trap(
-                        density=densities[i], release_timescale=trap_i.release_timescale
-                    )
-                )
+                # Keep all the other parameters of the trap species
+                poisson_trap_i = deepcopy(trap_i)
+                poisson_trap_i.density = float(densities[i])
+                poisson_trap.append(poisson_trap_i)
 
         return poisson_trap
 
-- 
2.43.0


From 105252a796d909072d3760ad4bcfb3411419f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 15/25] fix: wrong number of trap densities must raise the
 intended ValueError

---
 arcticpy/trap_managers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index b5b3b29..002b5da 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -290,7 +290,7 @@ class TrapManager(object):
     def n_traps_per_pixel(self, values):
         if len(values) != len(self.traps):
             raise ValueError(
-                f"{len(value)} trap densities supplied, for {len(self.traps)} species of traps"
+                f"{len(values)} trap densities supplied, for {len(self.traps)} species of traps"
             )
         for i, value in enumerate(values):
             self.traps[i].density = float(value)
-- 
2.43.0


From d49398a270abb900bc9bf051eb48a15e810bd6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 16/25] fix: continuum integrals must not miss narrow
 distributions or long times

---
 arcticpy/traps.py | 52 ++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 2c68de1..318cc9b 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -268,6 +268,23 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         self.release_timescale_mu = release_timescale_mu
         self.release_timescale_sigma = release_timescale_sigma
 
+    def _integral_over_release_timescales(self, integrand):
+        """ Integrate a function of release_timescale from 0 to infinity.
+
+        As a function of the logarithm of the timescale relative to mu, because
+        a narrow distribution, or one with a mu that is far from 1, could
+        otherwise be missed by the numerical integration.
+        """
+
+        def integrand_log(log_timescale):
+            # Outside the range of a float, so contributes nothing
+            if abs(log_timescale) > 500:
+                return 0.0
+            release_timescale = self.release_timescale_mu * np.exp(log_timescale)
+            return integrand(release_timescale) * release_timescale
+
+        return integrate.quad(integrand_log, -np.inf, np.inf)[0]
+
     def fill_fraction_from_time_elapsed(self, time_elapsed):
         """ Calculate the fraction of filled traps after a certain time_elapsed.
     
@@ -283,21 +300,12 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
             The fraction of filled traps.
         """
 
-        def integrand(release_timescale, time_elapsed, mu, sigma):
+        def integrand(release_timescale):
             return self.distribution_of_traps_with_lifetime(
-                release_timescale, mu, sigma
+                release_timescale, self.release_timescale_mu, self.release_timescale_sigma
             ) * np.exp(-time_elapsed / release_timescale)
 
-        fill_fraction = integrate.quad(
-            integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
+        fill_fraction = self._integral_over_release_timescales(integrand)
 
         return fill_fraction
 
@@ -359,24 +367,18 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
             The number of released electrons.
         """
 
-        def integrand(release_timescale, time_elapsed, dwell_time, mu, sigma):
+        def integrand(release_timescale):
             return (
-                self.distribution_of_traps_with_lifetime(release_timescale, mu, sigma)
+                self.distribution_of_traps_with_lifetime(
+                    release_timescale,
+                    self.release_timescale_mu,
+                    self.release_timescale_sigma,
+                )
                 * np.exp(-time_elapsed / release_timescale)
                 * (1 - np.exp(-dwell_time / release_timescale))
             )
 
-        return integrate.quad(
-            integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                dwell_time,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
+        return self._integral_over_release_timescales(integrand)
 
 
 class TrapLogNormalLifetimeContinuum(TrapLifetimeContinuumAbstract):
-- 
2.43.0


From f5fc3e70bfa9888fe0e7297046f9aa93b5d73f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 17/25] fix: integer express multipliers for trap pumping must
 not be negative

---
 arcticpy/roe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 0465dc6..20c3990 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -866,10 +866,11 @@ class ROETrapPumping(ROEAbstract):
         n_express = len(express_multipliers)
 
         # Make sure all values are integers, but still add up to the desired
-        # number of pumps
+        # number of pumps (with no accumulated rounding to make up for at the
+        # end, which could need a negative number of pumps)
         if self.express_matrix_dtype == int:
-            express_multipliers = list(map(int, np.round(express_multipliers)))
-            express_multipliers[-1] += self.n_pumps - sum(express_multipliers)
+            n_pumps_so_far = np.round(np.cumsum([0] + express_multipliers))
+            express_multipliers = list(map(int, np.diff(n_pumps_so_far)))
 
         # Initialise an array
         express_matrix = np.zeros(
-- 
2.43.0


From 5ecfbb99d735935b5d2616382ee8473f482d71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:18 +0000
Subject: [PATCH 18/25] fix: redundant full watermarks must be collapsed when
 tracking times too

---
 arcticpy/trap_managers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 002b5da..280495e 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -502,9 +502,13 @@ class TrapManager(object):
         num_traps = watermarks.shape[1] - 1
 
         # Find the first watermark that is not completely filled for all traps
+        # (or not active, since inactive elements are also 0 if that means full)
         watermark_index_not_filled = min(
             [
-                np.argmax(watermarks[:, 1 + i_trap] != self.filled_watermark_value)
+                np.argmax(
+                    (watermarks[:, 1 + i_trap] != self.filled_watermark_value)
+                    | (watermarks[:, 0] == 0)
+                )
                 for i_trap in range(num_traps)
             ]
         )
-- 
2.43.0


From 5c0365f07b3db0d826235dee4311aeedd0c31cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 19/25] fix: remove CTI from images of integers or of lower
 precision

The estimate of the image was updated in place, which numpy refuses for arrays
of integers (e.g. raw counts), and rounded for single precision.
---
 arcticpy/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index bfd1388..85980d3 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -296,7 +296,7 @@ def remove_cti(
         )
 
         # Improved estimate of image with CTI trails removed
-        image_remove_cti += image - image_add_cti
+        image_remove_cti = image_remove_cti + (image - image_add_cti)
 
     # TODO : Implement as decorator
 
-- 
2.43.0


From 25fa8cd95fbd2b8b6c7f92f343c6f7d58fe0e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:53 +0000
Subject: [PATCH 20/25] fix: trap pumping of several pixels (index error; traps
 not empty at the next pixel)

---
 arcticpy/main_utils.pyx | 9 +++++++++
 arcticpy/roe.py         | 6 ++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index ea191ef..e9cfa4a 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -185,6 +185,15 @@ def cy_clock_charge_in_one_direction(
             # from a previous express pass)
             trap_managers.restore()
 
+            # For trap pumping, start with empty traps in the next pixel (if the
+            # states were not saved then the previous pixel is complete)
+            if (
+                isinstance(roe, ROETrapPumping)
+                and express_index > 0
+                and not np.any(save_trap_states_matrix[express_index - 1])
+            ):
+                trap_managers.empty_all_traps()
+
             # Set the steps that need to be evaluated (may need to monitor the 
             # traps and update their occupancies even if express_mulitplier is 
             # 0, e.g. for a time window)
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 20c3990..ce74351 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -895,8 +895,10 @@ class ROETrapPumping(ROEAbstract):
         Trap states must be saved after every pump sequence of the same trap
         until the final one.
         """
-        (n_express, n_pixels) = express_matrix.shape
-        save_trap_states_matrix = np.zeros((n_express, n_pixels), dtype=bool)
+        (n_express_total, n_pixels) = express_matrix.shape
+        # The express passes are repeated for each pixel with traps
+        n_express = n_express_total // n_pixels
+        save_trap_states_matrix = np.zeros((n_express_total, n_pixels), dtype=bool)
 
         for j in range(n_pixels):
             for i in range(n_express):
-- 
2.43.0


From eaf9f6f12475b00e20e04ee9a40e22588ef77486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 21/25] fix: clock sequence of settings that are changed later
 (stale, or out of bounds, with another number of steps)

---
 arcticpy/roe.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index ce74351..e5b7af2 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -125,6 +125,7 @@ class ROEAbstract(object):
         if not isinstance(value, list):
             value = [value]
         self._dwell_times = value
+        self._update_clock_sequence()
 
     @property
     def n_steps(self):
@@ -142,6 +143,17 @@ class ROEAbstract(object):
         else:
             raise ValueError("express_matrix_dtype must be int or float")
 
+    def _update_clock_sequence(self):
+        """
+        Keep the clock sequence in step with any settings that are changed after 
+        it has first been generated.
+        """
+        if hasattr(self, "clock_sequence"):
+            self.clock_sequence = self._generate_clock_sequence()
+            self.pixels_accessed_during_clocking = (
+                self._generate_pixels_accessed_during_clocking()
+            )
+
     def _generate_clock_sequence(self):
         """
         The state of the readout electronics at each step of a clocking sequence
@@ -430,6 +442,15 @@ class ROE(ROEAbstract):
     def n_phases(self):
         return self.n_steps
 
+    @property
+    def force_release_away_from_readout(self):
+        return self._force_release_away_from_readout
+
+    @force_release_away_from_readout.setter
+    def force_release_away_from_readout(self, value):
+        self._force_release_away_from_readout = value
+        self._update_clock_sequence()
+
     def restrict_time_span_of_express_matrix(self, express_matrix, time_window_range):
         """
         Remove rows of an express_multiplier matrix that are outside a temporal 
@@ -808,11 +829,10 @@ class ROETrapPumping(ROEAbstract):
         # Check that there are an even number of steps in a there-and-back clocking sequence
         if not isinstance(value, list):
             value = [value]
-        self._dwell_times = (
-            value  # This must go before the even check, because n_steps uses it.
-        )
-        if (self.n_steps % 2) == 1:
+        if (len(value) % 2) == 1:
             raise Exception("n_steps must be even for a complete trap pumping sequence")
+        self._dwell_times = value
+        self._update_clock_sequence()
 
     @property
     def n_phases(self):
-- 
2.43.0


From 1010f4bbf0ad11297543353e476ed12388e50d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 22/25] fix: rates of traps whose timescales are changed later

---
 arcticpy/traps.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 318cc9b..858dde8 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -42,13 +42,16 @@ class Trap(object):
         self.capture_timescale = capture_timescale
         self.surface = surface
 
-        # Rates
-        self.emission_rate = 1 / self.release_timescale
+    @property
+    def emission_rate(self):
+        return 1 / self.release_timescale
 
+    @property
+    def capture_rate(self):
         if self.capture_timescale == 0:
-            self.capture_rate = np.inf
+            return np.inf
         else:
-            self.capture_rate = 1 / self.capture_timescale
+            return 1 / self.capture_timescale
 
     def distribution_within_pixel(self, fractional_volume=0):
         if self.surface:
-- 
2.43.0


From 74e05c413a1eeced84d0cdecf6db91b9447ffee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 23/25] fix: the default number of charge injection transfers
 must not depend on the window

---
 arcticpy/main_utils.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index e9cfa4a..09d5bd7 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -4,7 +4,9 @@ import numpy as np
 import cython
 cimport cython
 
-from arcticpy.roe import ROETrapPumping
+from copy import copy
+
+from arcticpy.roe import ROEChargeInjection, ROETrapPumping
 from arcticpy.trap_managers import AllTrapManager
 
 
@@ -107,6 +109,12 @@ def cy_clock_charge_in_one_direction(
         The output array of pixel values.
     """
 
+    # The default number of charge injection transfers is that of the supplied
+    # image, even if only a window of it is modelled
+    if isinstance(roe, ROEChargeInjection) and roe.n_pixel_transfers is None:
+        roe = copy(roe)
+        roe.n_pixel_transfers = image_in.shape[0] + offset
+
     # Generate the arrays over each step for: the number of of times that the
     # effect of each pixel-to-pixel transfer can be multiplied for the express
     # algorithm; and whether the traps must be monitored (usually whenever
-- 
2.43.0


From e67e97b8d273ec05a7b3adb28dea26ad5a29dd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 24/25] fix: settings that are changed in place must not become
 those of other objects (shared default lists)

---
 arcticpy/ccd.py | 11 ++++++-----
 arcticpy/roe.py |  6 ++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 41485a1..21517e0 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -90,7 +90,8 @@ class CCD(object):
     @fraction_of_traps_per_phase.setter
     def fraction_of_traps_per_phase(self, value):
         if isinstance(value, list):
-            self._fraction_of_traps_per_phase = value
+            # A list of its own, not e.g. that of the default arguments
+            self._fraction_of_traps_per_phase = list(value)
         else:
             self._fraction_of_traps_per_phase = [
                 value
@@ -112,7 +113,7 @@ class CCD(object):
                 raise ValueError(
                     f"Incorrect number of phases ({len(value)}) in full_well_depth"
                 )
-            self._full_well_depth = value
+            self._full_well_depth = list(value)
         else:
             self._full_well_depth = [value] * self.n_phases
 
@@ -127,7 +128,7 @@ class CCD(object):
                 raise ValueError(
                     f"Incorrect number of phases ({len(value)}) in well_fill_power"
                 )
-            self._well_fill_power = value
+            self._well_fill_power = list(value)
         else:
             self._well_fill_power = [value] * self.n_phases
 
@@ -142,7 +143,7 @@ class CCD(object):
                 raise ValueError(
                     f"Incorrect number of phases ({len(value)}) in well_notch_depth"
                 )
-            self._well_notch_depth = value
+            self._well_notch_depth = list(value)
         else:
             self._well_notch_depth = [value] * self.n_phases
 
@@ -157,7 +158,7 @@ class CCD(object):
                 raise ValueError(
                     f"Incorrect number of phases ({len(value)}) in well_bloom_level"
                 )
-            self._well_bloom_level = value
+            self._well_bloom_level = list(value)
         else:
             if value is None:
                 value = self.full_well_depth
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index e5b7af2..88ec8e6 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -124,7 +124,8 @@ class ROEAbstract(object):
         # Check that dwell_times is a list
         if not isinstance(value, list):
             value = [value]
-        self._dwell_times = value
+        # A list of its own, not e.g. that of the default arguments
+        self._dwell_times = list(value)
         self._update_clock_sequence()
 
     @property
@@ -831,7 +832,8 @@ class ROETrapPumping(ROEAbstract):
             value = [value]
         if (len(value) % 2) == 1:
             raise Exception("n_steps must be even for a complete trap pumping sequence")
-        self._dwell_times = value
+        # A list of its own, not e.g. that of the default arguments
+        self._dwell_times = list(value)
         self._update_clock_sequence()
 
     @property
-- 
2.43.0


From 2fcb40809079a6eb4a006e8055aefe85dd32e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 25/25] fix: default bloom level of each phase (was a list of
 all phases)

---
 arcticpy/ccd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 21517e0..c028dd1 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -153,6 +153,9 @@ class CCD(object):
 
     @well_bloom_level.setter
     def well_bloom_level(self, value):
+        # By default, no blooming is possible
+        if value is None:
+            value = self.full_well_depth
         if isinstance(value, list):
             if len(value) != self.n_phases:
                 raise ValueError(
@@ -160,8 +163,6 @@ class CCD(object):
                 )
             self._well_bloom_level = list(value)
         else:
-            if value is None:
-                value = self.full_well_depth
             self._well_bloom_level = [value] * self.n_phases
 
     def cloud_fractional_volume_from_n_electrons_and_phase(
-- 
2.43.0

