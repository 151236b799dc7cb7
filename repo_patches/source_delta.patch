From aec46bd5e2bfb33a96be401c6a65141db725f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:10 +0000
Subject: [PATCH 01/21] fix: import math and util in roe.py, needed by integer
 express charge injection

---
 arcticpy/roe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index f73794a..e99a83e 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -48,9 +48,12 @@ phase 2 is closer than phase 1:
 | Readout   
 +----------- 
 """
+import math
 import numpy as np
 from copy import deepcopy
 
+from arcticpy import util
+
 
 class ROEPhase(object):
     def __init__(
-- 
2.43.0


From 04ec4c606a487e30ca9dab417bf9cdc2ebca98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 02/21] fix: charge injection ROE no longer remembers the
 number of transfers of the first image

---
 arcticpy/roe.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index e99a83e..3d3bfe8 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -691,25 +691,26 @@ class ROEChargeInjection(ROE):
 
         window_range = range(pixels) if isinstance(pixels, int) else pixels
         n_pixels = max(window_range) + 1
-        if self.n_pixel_transfers is None:
-            self.n_pixel_transfers = n_pixels + offset
+        n_pixel_transfers = self.n_pixel_transfers
+        if n_pixel_transfers is None:
+            n_pixel_transfers = n_pixels + offset
 
         # Set default express to all transfers and check no larger
         if express == 0:
-            express = self.n_pixel_transfers
+            express = n_pixel_transfers
         else:
-            express = min(express, self.n_pixel_transfers)
+            express = min(express, n_pixel_transfers)
 
         # Compute the multiplier factors
         express_matrix = np.zeros((express, n_pixels), dtype=self.express_matrix_dtype)
-        max_multiplier = self.n_pixel_transfers / express
+        max_multiplier = n_pixel_transfers / express
         if self.express_matrix_dtype == int:
             max_multiplier = math.ceil(max_multiplier)
             for i in reversed(range(express)):
                 express_matrix[i, :] = util.set_min_max(
                     max_multiplier,
                     0,
-                    self.n_pixel_transfers - sum(express_matrix[:, 0]),
+                    n_pixel_transfers - sum(express_matrix[:, 0]),
                 )
         else:
             express_matrix[:] = max_multiplier
-- 
2.43.0


From 6ea5d72f27c9f7a53b0fc00d54f3194e634037c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 03/21] fix: charge injection ROE restricts its matrices to the
 window of pixels

---
 arcticpy/roe.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 3d3bfe8..e379145 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -723,7 +723,14 @@ class ROEChargeInjection(ROE):
             express_matrix, time_window_range
         )
 
-        return express_matrix.astype(float), monitor_traps_matrix
+        # Keep only the spatial region of interest
+        express_matrix = express_matrix[:, window_range]
+        monitor_traps_matrix = monitor_traps_matrix[:, window_range]
+
+        return (
+            np.ascontiguousarray(express_matrix.astype(float)),
+            np.ascontiguousarray(monitor_traps_matrix),
+        )
 
     def save_trap_states_matrix_from_express_matrix(self, express_matrix):
         """
-- 
2.43.0


From e033e9030ee923f1941561c1848dd7f3eb60e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 04/21] fix: express matrix no longer drops a row when express
 is one less than the number of transfers

---
 arcticpy/roe.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index e379145..4aafd6d 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -525,7 +525,10 @@ class ROE(ROEAbstract):
 
         # Temporarily ignore the first pixel-to-pixel transfer, if it is to be
         # handled differently than the rest
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        treat_first_transfers_separately = (
+            self.empty_traps_for_first_transfers and express < n_pixels
+        )
+        if treat_first_transfers_separately:
             n_pixels -= 1
 
         # Initialise an array with enough pixels to contain the supposed image,
@@ -551,7 +554,7 @@ class ROE(ROEAbstract):
         # Add an extra (first) transfer for every pixel, the effect of which
         # will only ever be counted once, because it is physically different
         # from the other transfers (it sees only empty traps)
-        if self.empty_traps_for_first_transfers and express < n_pixels:
+        if treat_first_transfers_separately:
             # Store current matrix, which is correct for one-too-few pixel-to-pixel transfers
             express_matrix_small = express_matrix
             # Create a new matrix for the full number of transfers
-- 
2.43.0


From e6feee54fab1c4508da18fe469983ba8bd858dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 05/21] fix: define the row whose trap states are saved for
 single-row images

---
 arcticpy/roe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index 4aafd6d..ab64c62 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -621,6 +621,7 @@ class ROE(ROEAbstract):
 
         if not self.empty_traps_for_first_transfers:
             for express_index in range(n_express - 1):
+                row_index = 0
                 for row_index in range(n_pixels - 1):
                     if express_matrix[express_index + 1, row_index + 1] > 0:
                         break
-- 
2.43.0


From e2dfb1e018e974ce71e0c5c8c8090b06ded9874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 06/21] fix: do not read or write before the first row when
 charge moves towards readout

---
 arcticpy/main_utils.pyx | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 7914981..5995b34 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -163,12 +163,18 @@ def cy_clock_charge_in_one_direction(
 
     # Temporarily expand image, if charge released from traps ever migrates to
     # a different charge packet, at any time during the clocking sequence
-    n_rows_zero_padding = max(roe.pixels_accessed_during_clocking) - min(
-        roe.pixels_accessed_during_clocking
-    )
-    zero_padding = np.zeros((n_rows_zero_padding, image_in.shape[1]), dtype=np.float64)
+    # (in either direction: before the first row or after the last row)
+    cdef np.int64_t n_rows_padding_before = -min(roe.pixels_accessed_during_clocking)
+    cdef np.int64_t n_rows_padding_after = max(roe.pixels_accessed_during_clocking)
 
-    cdef np.float64_t[:, :] image = np.concatenate((image_in, zero_padding), axis=0)
+    cdef np.float64_t[:, :] image = np.concatenate(
+        (
+            np.zeros((n_rows_padding_before, image_in.shape[1]), dtype=np.float64),
+            image_in,
+            np.zeros((n_rows_padding_after, image_in.shape[1]), dtype=np.float64),
+        ),
+        axis=0,
+    )
     
     # Read out one column of pixels through the (column of) traps
     for column_index in window_column_range:
@@ -200,7 +206,9 @@ def cy_clock_charge_in_one_direction(
 
                         # Select the relevant pixel (and phase) for the initial charge
                         row_index_read = (
-                            window_row_range[row_index] + roe_phase.capture_from_which_pixel
+                            n_rows_padding_before
+                            + window_row_range[row_index]
+                            + roe_phase.capture_from_which_pixel
                         )
 
                         # Initial charge (0 if this phase's potential is not high)
@@ -226,7 +234,8 @@ def cy_clock_charge_in_one_direction(
 
                         # Select the relevant pixel (and phase(s)) for the returned charge
                         row_indices_write = (
-                            window_row_range[row_index]
+                            n_rows_padding_before
+                            + window_row_range[row_index]
                             + roe_phase.release_to_which_pixels
                         )
 
@@ -258,8 +267,8 @@ def cy_clock_charge_in_one_direction(
 
     # Unexpand the image to its original dimensions
     image_out = np.asarray(image)
-    if n_rows_zero_padding > 0:
-        image_out = image_out[0:-n_rows_zero_padding, :]
 
-    return image_out
+    return image_out[
+        n_rows_padding_before : n_rows_padding_before + image_in.shape[0], :
+    ]
 
-- 
2.43.0


From 701e20973174d3216fad82c8181035b2a8c48a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:04 +0000
Subject: [PATCH 07/21] fix: allow trap pumping of more than one pixel

---
 arcticpy/main_utils.pyx | 4 ++++
 arcticpy/roe.py         | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 5995b34..193f330 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -258,6 +258,10 @@ def cy_clock_charge_in_one_direction(
                 # Save the trap occupancy states for the next express pass
                 if save_trap_states_matrix[express_index, row_index]:
                     trap_managers.save()
+                elif isinstance(roe, ROETrapPumping):
+                    # About to move on to a different pixel's (empty) traps
+                    trap_managers.empty_all_traps()
+                    trap_managers.save()
 
         # Reset the watermarks for the next column, effectively setting the trap
         # occupancies to zero
diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index ab64c62..d5bb681 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -896,8 +896,11 @@ class ROETrapPumping(ROEAbstract):
         Trap states must be saved after every pump sequence of the same trap
         until the final one.
         """
-        (n_express, n_pixels) = express_matrix.shape
-        save_trap_states_matrix = np.zeros((n_express, n_pixels), dtype=bool)
+        (n_passes, n_pixels) = express_matrix.shape
+        save_trap_states_matrix = np.zeros((n_passes, n_pixels), dtype=bool)
+
+        # Number of pumps that are modelled for each pixel with traps
+        n_express = n_passes // n_pixels
 
         for j in range(n_pixels):
             for i in range(n_express):
-- 
2.43.0


From 88d0e4e6bac0cca8a2f4119209a42ce0680c9605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:12 +0000
Subject: [PATCH 08/21] fix: a cloud within rounding error of a watermark no
 longer creates an empty or negative level

---
 arcticpy/trap_managers.py        |  4 ++--
 arcticpy/trap_managers_utils.pyx | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 295e298..a795f0b 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -978,8 +978,8 @@ class TrapManagerInstantCapture(TrapManager):
         Create a new watermark at the cloud fractional volume.
         """
         # Create the new watermark at the cloud fractional volume
-        if cloud_fractional_volume > 0 and cloud_fractional_volume not in np.cumsum(
-            self.watermarks[:, 0]
+        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+            cloud_fractional_volume, self.watermarks[:, 0]
         ):
             # Update the watermark volumes, duplicated for the initial watermarks
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
diff --git a/arcticpy/trap_managers_utils.pyx b/arcticpy/trap_managers_utils.pyx
index 1d09cba..8eb9d74 100644
--- a/arcticpy/trap_managers_utils.pyx
+++ b/arcticpy/trap_managers_utils.pyx
@@ -5,7 +5,11 @@ import numpy as np
 cimport numpy as np
 
 from libc.stdlib cimport malloc, free
-from libc.math cimport exp
+from libc.math cimport exp, fabs
+
+# Fractional volumes closer than this are the same, within the rounding errors
+# of summing the watermark volumes
+cdef np.float64_t VOLUME_TOLERANCE = 1e-12
 
 
 @cython.boundscheck(False)
@@ -46,11 +50,11 @@ cpdef np.int64_t cy_value_in_cumsum(np.float64_t value, np.float64_t[:] arr):
     
     with nogil:
         for i in range(1, arr.shape[0], 1):
-            if value == total:
+            if fabs(value - total) <= VOLUME_TOLERANCE:
                 return 1
             total += arr[i]
 
-        if value == total:
+        if fabs(value - total) <= VOLUME_TOLERANCE:
             return 1
         else:
             return 0
@@ -90,10 +94,10 @@ cpdef np.int64_t cy_watermark_index_above_cloud_from_cloud_fractional_volume(
     with nogil:
         for i in range(watermarks.shape[0]):
             total += watermarks[i, 0]
-            if cloud_fractional_volume <= total:
+            if cloud_fractional_volume - total <= VOLUME_TOLERANCE:
                 index = min(index, i)
 
-        if total < cloud_fractional_volume:
+        if cloud_fractional_volume - total > VOLUME_TOLERANCE:
             return max_watermark_index + 1
         else:
             return index
-- 
2.43.0


From b666364039179ecc2822ba7d44a6a4f17deb8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:28 +0000
Subject: [PATCH 09/21] fix: a cloud with no volume does not mark an inactive
 watermark as filled

---
 arcticpy/trap_managers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index a795f0b..ed9983d 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -556,6 +556,9 @@ class TrapManager(object):
         
         Make the new watermark then can return immediately.
         """
+        # No traps are reached by a cloud with no volume (e.g. inside the notch)
+        if cloud_fractional_volume == 0:
+            return 0.0
 
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
@@ -933,6 +936,10 @@ class TrapManagerInstantCapture(TrapManager):
         
         Make the new watermark then can return immediately.
         """
+        # No traps are reached by a cloud with no volume (e.g. inside the notch)
+        if cloud_fractional_volume == 0:
+            return 0.0
+
         # Update the watermark volume, duplicated for the initial watermarks
         self.watermarks[0, 0] = cloud_fractional_volume
         watermarks_initial[0, 0] = self.watermarks[0, 0]
-- 
2.43.0


From 989cfe3525bbec6a90ae842766a0817ab94bcf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 10/21] fix: add a watermark when released electrons raise the
 cloud above the highest one

---
 arcticpy/trap_managers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index ed9983d..7f53ffe 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -650,8 +650,18 @@ class TrapManager(object):
             max_watermark_index=max_watermark_index,
         )
 
+        # Create a new watermark above the others if the cloud now reaches there
+        if watermark_index_above_cloud > max_watermark_index:
+            self.watermarks[
+                watermark_index_above_cloud, 0
+            ] = cloud_fractional_volume - np.sum(self.watermarks[:, 0])
+            watermarks_initial[watermark_index_above_cloud, 0] = self.watermarks[
+                watermark_index_above_cloud, 0
+            ]
+            max_watermark_index += 1
+
         # Update the watermark volumes, duplicated for the initial watermarks
-        if cloud_fractional_volume > 0 and not cy_value_in_cumsum(
+        elif cloud_fractional_volume > 0 and not cy_value_in_cumsum(
             cloud_fractional_volume, self.watermarks[:, 0]
         ):
             self.watermarks = self.update_watermark_volumes_for_cloud_below_highest(
-- 
2.43.0


From 4a82e4e0fdca7537182ef1bcb7e9db8ed1fa2bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 11/21] fix: never capture more electrons than were available
 before release

---
 arcticpy/trap_managers.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 7f53ffe..aed4a68 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -730,6 +730,9 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        # Initial number of available electrons (before any are released)
+        n_free_electrons_initial = n_free_electrons
+
         # Initial watermarks and number of electrons in traps
         # watermarks_initial = deepcopy(self.watermarks)
         watermarks_initial = np.array(self.watermarks)
@@ -833,11 +836,14 @@ class TrapManager(object):
         if n_trapped_electrons_final == n_trapped_electrons_initial:
             return 0
 
-        # Not enough available electrons to capture
-        enough = n_free_electrons / (
+        # Not enough available electrons to capture (net of those released)
+        enough = n_free_electrons_initial / (
             n_trapped_electrons_final - n_trapped_electrons_initial
         )
-        if 0 < enough < 1:
+        if (
+            n_trapped_electrons_final > n_trapped_electrons_initial
+            and 0 <= enough < 1
+        ):
             # For watermark fill fractions that increased, tweak them such that
             # the resulting increase instead matches the available electrons
             self.watermarks = self.updated_watermarks_from_capture_not_enough(
-- 
2.43.0


From 9d8ceba6c34613f5d10c175897c6a5e557b90f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 12/21] fix: enlarge the watermark array when traps that are
 not emptied fill it

---
 arcticpy/trap_managers.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index aed4a68..1d58c7b 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -365,6 +365,29 @@ class TrapManager(object):
         """ Reset the trap watermarks for the next run of release and capture. """
         self.watermarks.fill(0)
 
+    def make_space_for_new_watermarks(self):
+        """ Enlarge the watermark array if the next transfer might not fit.
+
+        The initial size allows for max_n_transfers from empty traps, but there 
+        can be more if the traps are not emptied, e.g. between columns.
+        """
+        n_rows = self.watermarks.shape[0]
+        n_active = np.count_nonzero(self.watermarks[:, 0])
+
+        # Always keep at least one zero, used to find the highest watermark
+        if n_active + self.n_watermarks_per_transfer + 1 > n_rows:
+            self.watermarks = np.concatenate(
+                (
+                    self.watermarks,
+                    np.zeros(
+                        (
+                            max(n_rows, self.n_watermarks_per_transfer),
+                            self.watermarks.shape[1],
+                        )
+                    ),
+                )
+            )
+
     def watermark_index_above_cloud_from_cloud_fractional_volume(
         self, cloud_fractional_volume, watermarks, max_watermark_index
     ):
@@ -730,6 +753,8 @@ class TrapManager(object):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.make_space_for_new_watermarks()
+
         # Initial number of available electrons (before any are released)
         n_free_electrons_initial = n_free_electrons
 
@@ -1064,6 +1089,8 @@ class TrapManagerInstantCapture(TrapManager):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
+        self.make_space_for_new_watermarks()
+
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
         watermarks_initial = deepcopy(self.watermarks)
-- 
2.43.0


From b0100046543974f117de763706bdb14a79b0932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:13 +0000
Subject: [PATCH 13/21] fix: integrate trap lifetime distributions accurately
 for any median and width

---
 arcticpy/traps.py | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 582a1ec..4bfbdda 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -269,6 +269,20 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         self.release_timescale_mu = release_timescale_mu
         self.release_timescale_sigma = release_timescale_sigma
 
+    def _integral_over_lifetimes(self, integrand, *args):
+        """ Integrate a function of release_timescale from 0 to infinity.
+
+        Both sides of mu are mapped to the interval 0 to 1, so that the peak of 
+        the distribution is always at the end of the integration range, however 
+        narrow it is and whatever the magnitude of mu.
+        """
+        mu = self.release_timescale_mu
+
+        def folded_integrand(x):
+            return mu * (integrand(mu * x, *args) + integrand(mu / x, *args) / x ** 2)
+
+        return integrate.quad(folded_integrand, 0, 1)[0]
+
     def fill_fraction_from_time_elapsed(self, time_elapsed):
         """ Calculate the fraction of filled traps after a certain time_elapsed.
     
@@ -289,18 +303,12 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
                 release_timescale, mu, sigma
             ) * np.exp(-time_elapsed / release_timescale)
 
-        fill_fraction = integrate.quad(
+        return self._integral_over_lifetimes(
             integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
-
-        return fill_fraction
+            time_elapsed,
+            self.release_timescale_mu,
+            self.release_timescale_sigma,
+        )
 
     def time_elapsed_from_fill_fraction(self, fill_fraction):
         """ Calculate the total time elapsed from the fraction of filled traps.
@@ -352,17 +360,13 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
                 * (1 - np.exp(-dwell_time / release_timescale))
             )
 
-        return integrate.quad(
+        return self._integral_over_lifetimes(
             integrand,
-            0,
-            np.inf,
-            args=(
-                time_elapsed,
-                dwell_time,
-                self.release_timescale_mu,
-                self.release_timescale_sigma,
-            ),
-        )[0]
+            time_elapsed,
+            dwell_time,
+            self.release_timescale_mu,
+            self.release_timescale_sigma,
+        )
 
 
 class TrapLogNormalLifetimeContinuum(TrapLifetimeContinuumAbstract):
-- 
2.43.0


From 3c78247cf2661ea7a8ff215567e9d2a37e609dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 14/21] fix: reliably invert the fill fraction of continuum
 traps to an elapsed time

---
 arcticpy/traps.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index 4bfbdda..a812009 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -327,9 +327,20 @@ class TrapLifetimeContinuumAbstract(TrapInstantCapture):
         def find_time(time_elapsed):
             return self.fill_fraction_from_time_elapsed(time_elapsed) - fill_fraction
 
-        time_elapsed = optimize.fsolve(find_time, 0.1 * self.release_timescale_mu)[0]
+        # Completely full
+        if find_time(0) <= 0:
+            return 0.0
 
-        # Check solution (seems to be slightly unreliable for very small sigmas)
+        # Bracket the solution
+        time_max = self.release_timescale_mu
+        while find_time(time_max) > 0:
+            time_max *= 2
+
+        time_elapsed = optimize.brentq(
+            find_time, 0, time_max, xtol=1e-12 * self.release_timescale_mu
+        )
+
+        # Check solution
         assert abs(find_time(time_elapsed)) < 1e-7
 
         return time_elapsed
-- 
2.43.0


From 71e6fb0cafe23b4664f7c9188de07648025c15aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 15/21] fix: track-time trap managers can capture when there
 are not enough electrons

---
 arcticpy/trap_managers.py | 47 ++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index 1d58c7b..bd5b748 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -895,6 +895,10 @@ class TrapManagerInstantCapture(TrapManager):
     def n_watermarks_per_transfer(self):
         return 1
 
+    def copy_of_watermarks_as_fill_fractions(self):
+        """ A copy of the current watermarks, with values as fill fractions. """
+        return deepcopy(self.watermarks)
+
     def update_watermark_values_for_release(self, watermark_values, dwell_time):
         """ 
         Update trap watermarks for releasing electrons.
@@ -1093,9 +1097,9 @@ class TrapManagerInstantCapture(TrapManager):
 
         # Save the initial watermarks and number of electrons in traps, in case
         # there aren't enough free electrons to fill all the identified traps
-        watermarks_initial = deepcopy(self.watermarks)
-        n_trapped_electrons_initial = self.n_trapped_electrons_from_watermarks(
-            watermarks=self.watermarks
+        watermarks_initial = self.copy_of_watermarks_as_fill_fractions()
+        n_trapped_electrons_initial = cy_n_trapped_electrons_from_watermarks(
+            watermarks_initial, self.n_traps_per_pixel
         )
 
         # Find the highest active watermark
@@ -1318,6 +1322,12 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
 
         return watermarks
 
+    def copy_of_watermarks_as_fill_fractions(self):
+        """ A copy of the current watermarks, with values as fill fractions. """
+        return self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+            self.watermarks
+        )
+
     def n_trapped_electrons_from_watermarks(self, watermarks):
         """ Sum the total number of electrons currently held in traps.
 
@@ -1362,34 +1372,25 @@ class TrapManagerTrackTime(TrapManagerInstantCapture):
             The updated watermarks. See 
             initial_watermarks_from_n_pixels_and_total_traps().
         """
-        # Convert to fill fractions
-        for level in range(np.argmax(watermarks[:, 0] == 0)):
-            for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks[level, i_trap]
-                )
-                watermarks_initial[
-                    level, i_trap
-                ] = trap.fill_fraction_from_time_elapsed(
-                    time_elapsed=watermarks_initial[level, i_trap]
-                )
-
-        # Update the fill fractions in the standard way
-        watermarks = super(
+        # Convert to fill fractions and update them in the standard way (the 
+        # initial watermarks are already fill fractions)
+        watermarks_updated = super(
             TrapManagerTrackTime, self
         ).updated_watermarks_from_capture_not_enough(
-            self,
-            watermarks=watermarks,
+            watermarks=self.watermarks_converted_to_fill_fractions_from_elapsed_times(
+                watermarks
+            ),
             watermarks_initial=watermarks_initial,
             enough=enough,
         )
 
-        # Convert back to elapsed times
+        # Convert back to elapsed times, for the levels that captured electrons
         for level in range(np.argmax(watermarks[:, 0] == 0)):
             for i_trap, trap in enumerate(self.traps):
-                watermarks[level, i_trap] = trap.time_elapsed_from_fill_fraction(
-                    fill_fraction=watermarks[level, i_trap]
-                )
+                if watermarks[level, 1 + i_trap] == self.filled_watermark_value:
+                    watermarks[level, 1 + i_trap] = trap.time_elapsed_from_fill_fraction(
+                        fill_fraction=watermarks_updated[level, 1 + i_trap]
+                    )
 
         return watermarks
 
-- 
2.43.0


From 6dba8da6b80399afe3a9c9a29ce28b66599df0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 16/21] fix: error message of the trap density setter used an
 undefined name

---
 arcticpy/trap_managers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/trap_managers.py b/arcticpy/trap_managers.py
index bd5b748..0af8903 100644
--- a/arcticpy/trap_managers.py
+++ b/arcticpy/trap_managers.py
@@ -290,7 +290,7 @@ class TrapManager(object):
     def n_traps_per_pixel(self, values):
         if len(values) != len(self.traps):
             raise ValueError(
-                f"{len(value)} trap densities supplied, for {len(self.traps)} species of traps"
+                f"{len(values)} trap densities supplied, for {len(self.traps)} species of traps"
             )
         for i, value in enumerate(values):
             self.traps[i].density = float(value)
-- 
2.43.0


From f3e1280e15de9e53008de2ddfb94b3da4fb3bb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 17/21] fix: poisson_trap keeps the capture timescale and
 surface flag of each species

---
 arcticpy/traps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/arcticpy/traps.py b/arcticpy/traps.py
index a812009..28d0f0e 100644
--- a/arcticpy/traps.py
+++ b/arcticpy/traps.py
@@ -191,7 +191,10 @@ class Trap(object):
             for i, trap_i in enumerate(trap):
                 poisson_trap.append(
                     Trap(
-                        density=densities[i], release_timescale=trap_i.release_timescale
+                        density=densities[i],
+                        release_timescale=trap_i.release_timescale,
+                        capture_timescale=trap_i.capture_timescale,
+                        surface=trap_i.surface,
                     )
                 )
 
-- 
2.43.0


From dfe690c1ad7fed42419e34c43ec0c1d48993d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 18/21] fix: CCD returns fractional phase widths and one
 default bloom level per phase

---
 arcticpy/ccd.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/arcticpy/ccd.py b/arcticpy/ccd.py
index 41485a1..7ca1cb7 100644
--- a/arcticpy/ccd.py
+++ b/arcticpy/ccd.py
@@ -89,12 +89,13 @@ class CCD(object):
 
     @fraction_of_traps_per_phase.setter
     def fraction_of_traps_per_phase(self, value):
-        if isinstance(value, list):
-            self._fraction_of_traps_per_phase = value
-        else:
-            self._fraction_of_traps_per_phase = [
-                value
-            ]  # Make sure the arrays are arrays
+        if not isinstance(value, list):
+            value = [value]  # Make sure the arrays are arrays
+        # Only the fractional widths matter, not their units
+        total = sum(value)
+        if total > 0:
+            value = [width / total for width in value]
+        self._fraction_of_traps_per_phase = value
         self._n_phases = len(self._fraction_of_traps_per_phase)
 
     @property
@@ -160,8 +161,9 @@ class CCD(object):
             self._well_bloom_level = value
         else:
             if value is None:
-                value = self.full_well_depth
-            self._well_bloom_level = [value] * self.n_phases
+                self._well_bloom_level = list(self.full_well_depth)
+            else:
+                self._well_bloom_level = [value] * self.n_phases
 
     def cloud_fractional_volume_from_n_electrons_and_phase(
         self, n_electrons, phase=0, surface=False
-- 
2.43.0


From d39f36125b6d6f66141c920ff6171507e89d444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:54 +0000
Subject: [PATCH 19/21] fix: decide when to save trap states from the monitored
 transfers, also with a time window

---
 arcticpy/main_utils.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main_utils.pyx b/arcticpy/main_utils.pyx
index 193f330..f8fad24 100644
--- a/arcticpy/main_utils.pyx
+++ b/arcticpy/main_utils.pyx
@@ -126,7 +126,7 @@ def cy_clock_charge_in_one_direction(
     # ; and whether the trap occupancy states must be saved for the next express
     # pass rather than being reset (usually at the end of each express pass)
     save_trap_states_matrix = roe.save_trap_states_matrix_from_express_matrix(
-        express_matrix=express_matrix
+        express_matrix=monitor_traps_matrix
     )
 
     # Decide in advance which steps need to be evaluated and which can be skipped
-- 
2.43.0


From ba648ebda649b2a901502a503d9ef82a8a91cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 20/21] fix: integer trap-pumping express multipliers never
 negative and add up to n_pumps

---
 arcticpy/roe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arcticpy/roe.py b/arcticpy/roe.py
index d5bb681..140efa7 100644
--- a/arcticpy/roe.py
+++ b/arcticpy/roe.py
@@ -868,10 +868,11 @@ class ROETrapPumping(ROEAbstract):
         n_express = len(express_multipliers)
 
         # Make sure all values are integers, but still add up to the desired
-        # number of pumps
+        # number of pumps (round the running total, so no multiplier is negative)
         if self.express_matrix_dtype == int:
-            express_multipliers = list(map(int, np.round(express_multipliers)))
-            express_multipliers[-1] += self.n_pumps - sum(express_multipliers)
+            express_multipliers = list(
+                map(int, np.diff(np.round(np.cumsum([0] + express_multipliers))))
+            )
 
         # Initialise an array
         express_matrix = np.zeros(
-- 
2.43.0


From f06d20dfaca077d0c318bf0685ef2c5cb85cf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:55 +0000
Subject: [PATCH 21/21] fix: remove_cti accepts images of any numeric type

---
 arcticpy/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arcticpy/main.py b/arcticpy/main.py
index bfd1388..8cbff53 100644
--- a/arcticpy/main.py
+++ b/arcticpy/main.py
@@ -273,7 +273,7 @@ def remove_cti(
     """
 
     # Initialise the iterative estimate of removed CTI; don't modify the external array
-    image_remove_cti = deepcopy(image)
+    image_remove_cti = deepcopy(image).astype(float)
 
     # Estimate the image with removed CTI more precisely each iteration
     for iteration in range(iterations):
-- 
2.43.0

