From c6332d595404122614cb7d3ce17de9e889821810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 01/49] fix: copies of a MicropolImage no longer share data,
 Stokes vector and header with the original

---
 micropolarray/micropol_image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 483d9aa..f1eba88 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -121,16 +121,18 @@ class MicropolImage(Image):
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
-        self.data = image.data
-        self.header = image.header
+        # copy, so that changing one image never changes the other
+        self.data = image.data.copy()
+        self.header = image.header.copy()
         self.angle_dic = image.angle_dic
-        self.Stokes_vec = image.Stokes_vec
+        self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
-        self.demosaiced_images = image.demosaiced_images
+        if image.demosaiced_images is not None:
+            self.demosaiced_images = np.array(image.demosaiced_images)
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
-- 
2.43.0


From e040af5bb9d6a7efc0a4994fa62a780b11520085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 02/49] fix: arithmetic results get their own copy of the
 header

---
 micropolarray/micropol_image.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index f1eba88..7cdbd30 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -1012,7 +1012,7 @@ class MicropolImage(Image):
             newdata = self.data + second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1034,7 +1034,7 @@ class MicropolImage(Image):
             newdata = self.data - second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1056,7 +1056,7 @@ class MicropolImage(Image):
             newdata = self.data * second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1078,7 +1078,7 @@ class MicropolImage(Image):
             newdata = np.divide(self.data, second, where=second != 0.0)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
-- 
2.43.0


From a4bf119f7a2b2cb9ace61bc45c304151530aa9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 03/49] fix: rotate no longer overwrites the Stokes vector of
 the rotated image

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 7cdbd30..f9b2dc0 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -903,7 +903,7 @@ class MicropolImage(Image):
             single_pols[i] = np.asarray(image, dtype=float)
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = self.Stokes_vec
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
             image = PILImage.fromarray(Stokes_vec[i])
             image = image.rotate(angle)
-- 
2.43.0


From 897df4f0e3bb4943c63c92696d858384dcae7af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 04/49] fix: division by zero pixels no longer leaves
 uninitialized memory in the result

---
 micropolarray/image.py          | 14 ++++++++++++--
 micropolarray/micropol_image.py | 15 +++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 052f85a..9453ca4 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -297,7 +297,17 @@ class Image:
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0)
+            newdata = np.divide(
+                self.data,
+                second.data,
+                where=second.data != 0,
+                out=np.zeros_like(self.data, dtype=float),
+            )
         else:
-            newdata = np.divide(self.data, second, where=second != 0)
+            newdata = np.divide(
+                self.data,
+                second,
+                where=second != 0,
+                out=np.zeros_like(self.data, dtype=float),
+            )
         return Image(newdata)
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index f9b2dc0..1103d07 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -410,6 +410,7 @@ class MicropolImage(Image):
             self.data,
             normalized_flat,
             where=normalized_flat != 0.0,
+            out=np.array(self.data, dtype=float),
         )
 
         # self.data = np.where(self.data >= 0, self.data, 0)
@@ -1071,11 +1072,21 @@ class MicropolImage(Image):
 
     def __truediv__(self, second) -> MicropolImage:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0.0)
+            newdata = np.divide(
+                self.data,
+                second.data,
+                where=second.data != 0.0,
+                out=np.zeros_like(self.data, dtype=float),
+            )
             newimage = MicropolImage(self)
             newimage._update_data_and_Stokes(newdata)
         else:
-            newdata = np.divide(self.data, second, where=second != 0.0)
+            newdata = np.divide(
+                self.data,
+                second,
+                where=second != 0.0,
+                out=np.zeros_like(self.data, dtype=float),
+            )
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
         newimage.header = self.header.copy()
-- 
2.43.0


From 8b8d14c8074700769a2cd13fd65e9be731008409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 05/49] fix: raw files with dots in their name are converted to
 a fits with the same name

---
 micropolarray/processing/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 351bc3a..3e562f2 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -204,7 +204,7 @@ def convert_rawfile_to_fits(
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-    new_filename = os.path.pathsep.join(filename.split(".")[:-1]) + ".fits"
+    new_filename = os.path.splitext(filename)[0] + ".fits"
     HDU.writeto(new_filename, overwrite=True)
     info(f'Image successfully saved to "{new_filename}".')
 
-- 
2.43.0


From 66243a3c412aef6a97fd97c1515b45a103267c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 06/49] fix: filename of an image read from a single path is
 the path, not its first character

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 9453ca4..6d81b17 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -108,7 +108,7 @@ class Image:
             tempfilename[-1] = "SUM_" + tempfilename[-1]
             self.filename = os.path.sep.join(tempfilename)
         else:
-            self.filename = filenames[0]
+            self.filename = filenames_list[0]
 
     def _init_image_from_image(self, image: Image):
         self.data = image.data.copy()
-- 
2.43.0


From 764975f093dfe68daa4fcd80b9cf17d2a5997c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 07/49] fix: fixto ranges with a zero bound are applied when
 saving

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index f9bdf34..c835433 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -53,7 +53,7 @@ def sigma_DN(pix_DN):
 
 
 def fix_data(data: np.array, min, max):
-    if not (min and max):
+    if min is None or max is None:
         return data
     fixed_data = data.copy()
     fixed_data = np.where(fixed_data > min, fixed_data, min)
-- 
2.43.0


From 024e05a233022caebc3fc8f8dc67fe4ae4fd9d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 08/49] fix: get_hot_pixels calls the existing update method

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 0d64869..8989a1a 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -17,7 +17,7 @@ def get_hot_pixels(image, threshold=100):
     # diff = np.where(diff > threshold, 1, 0)
 
     newimage = MicropolImage(image)
-    newimage._set_data_and_Stokes(merge_polarizations(diff))
+    newimage._update_data_and_Stokes(merge_polarizations(diff))
 
     return newimage
 
-- 
2.43.0


From 71ba46af430e79b145c6732e4f80a3d71015f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 09/49] fix: np.float does not exist in the pinned numpy

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/processing/demosaic.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d97a0ff..bbada28 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -371,7 +371,7 @@ def calculate_demodulation_tensor(
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = np.array(file[0].data, dtype=np.float)
+            flat = np.array(file[0].data, dtype=float)
         if correct_ifov:
             flat = _ifov_jitcorrect(flat, *flat.shape)
         flat = micropolarray_rebin(flat, binning)
diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 841699e..2232981 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -144,7 +144,7 @@ def demosaic(image_data, option="adjacent"):
     elif option == "spline":
         single_pol_subimages = np.array(
             [image_data[j::2, i::2] for j in range(2) for i in range(2)],
-            dtype=np.float,
+            dtype=float,
         )
         demo_images = [
             congrid(
-- 
2.43.0


From 0a7180f12c90ccdb8119afe5da5113363d9fa420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 10/49] fix: packed binary chunks ending with null bytes are
 decoded

---
 micropolarray/processing/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 3e562f2..60aedf8 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -54,9 +54,9 @@ def nparr_from_binary(filename):
     if chunk_size % 1 or (chunk_size / 3) % 1:
         raise ValueError("Indivisible by chunks")
     chunk_size = int(chunk_size)
-    splitted = np.array(
-        [filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)]
-    )
+    splitted = [
+        filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)
+    ]  # not a numpy array, which would strip trailing null bytes
     with mp.Pool(processes=chunks_n) as p:
         result = p.map(three_bytes_to_two_ints, splitted)
     newarr = np.array(result).reshape((1952, 1952))
-- 
2.43.0


From 1d285f5f3503bb11d5778bbc869dcaec56650957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 11/49] fix: single polarization images are saved as
 filename_POLXX.fits, as documented

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 1103d07..a7dd583 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -681,7 +681,7 @@ class MicropolImage(Image):
             )
             filename_with_ID = str(
                 group_filepath.joinpath(
-                    str(group_filepath) + "POL" + str(single_pol.ID) + ".fits"
+                    str(group_filepath) + "_POL" + str(single_pol.ID) + ".fits"
                 )
             )
             hdu.writeto(filename_with_ID, overwrite=True)
-- 
2.43.0


From 5749bc46652befa9e38afc0d2444648a4cb71d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 12/49] fix: roi_from_polar accepts its default radius range

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 5bdf4e9..ecf247d 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -35,7 +35,6 @@ def roi_from_polar(
     """
     height, width = data.shape
     theta_min, theta_max = theta
-    rho_min, rho_max = rho
     if center is None:
         center = [int(height / 2), int(width / 2)]
     else:
@@ -44,6 +43,7 @@ def roi_from_polar(
     if rho is None:
         rho_max = np.min([height - center[0], width - center[1]])
         rho = [0.0, rho_max]
+    rho_min, rho_max = rho
 
     if include_superpixels:
         # make a map that is HALF THE SIZE, do condition, then resize to make all the superpixel outside selection
-- 
2.43.0


From aa8fed059ac955cba3be772eef9d2bd70c025eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 13/49] fix: rotating or flipping a Demodulator also moves its
 fit flags

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index bbada28..88b5608 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -259,11 +259,15 @@ class Demodulator:
         for i in range(self.n_malus_params):
             for j in range(self.n_pixels_in_superpix):
                 self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.rot90(self.fit_found_flags, k=k)
 
     def flip(self, axis):
         for i in range(self.n_malus_params):
             for j in range(self.n_pixels_in_superpix):
                 self.mij[i, j] = np.flip(self.mij[i, j], axis=axis)
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.flip(self.fit_found_flags, axis=axis)
 
 
 def calculate_demodulation_tensor(
-- 
2.43.0


From b1e9d26e9eb1c8ae4f12078f271acb02f7af6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 14/49] fix: demodulation with demosaicing works without fit
 flags

---
 micropolarray/micropol_image.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index a7dd583..4d9b382 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -322,9 +322,10 @@ class MicropolImage(Image):
                     mij[i, j, :, :] = merge_polarizations(
                         np.repeat(demo_component[np.newaxis, :, :], 4, axis=0)
                     )  # repeat necessary to avoid numba problems
-            fit_found_flags = merge_polarizations(
-                np.array(4 * [demodulator.fit_found_flags.astype(float)])
-            )  # idk why but fit_found_flags is >f8 as default
+            if fit_found_flags is not None:
+                fit_found_flags = merge_polarizations(
+                    np.array(4 * [fit_found_flags.astype(float)])
+                )  # idk why but fit_found_flags is >f8 as default
         else:
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
-- 
2.43.0


From ea8c0cee9e61c083793e2aad2e1ddf15bb81f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 15/49] fix: linear_roi does not read past its end point

---
 micropolarray/processing/linear_roi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index d1bd77a..13a160b 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -86,6 +86,7 @@ def linear_roi(data: np.ndarray, start: list, end: list) -> list:
         list: 1d array of y coordinates, 1d array of x coordinates, values of data calculated at rois
     """
     ys, xs, density = DDA(start, end)
+    ys, xs = ys[:-1], xs[:-1]  # last DDA point is past the end
     # print(f"{xs, ys = }")
     # print(f"{start, end = }")
 
-- 
2.43.0


From 32c38641a496b8325795bfa3abe49eed74f15d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 16/49] fix: normalize2pi does not overwrite the input list

---
 micropolarray/polarization_functions.py | 1 +
 micropolarray/utils.py                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/micropolarray/polarization_functions.py b/micropolarray/polarization_functions.py
index 7bfcab4..586ce7d 100644
--- a/micropolarray/polarization_functions.py
+++ b/micropolarray/polarization_functions.py
@@ -78,6 +78,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index c835433..8d2d56a 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -130,6 +130,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
-- 
2.43.0


From 155a93fd9f66242de810d48134523e5ac5fed2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 17/49] fix: processor grids which leave rows or columns out of
 the demodulation tensor are refused

---
 micropolarray/processing/demodulation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 88b5608..60a096e 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -500,7 +500,12 @@ def calculate_demodulation_tensor(
     chunks_n_y, chunks_n_x = procs_grid
     chunk_size_y = int(height / chunks_n_y)
     chunk_size_x = int(width / chunks_n_x)
-    if (chunk_size_x % 2) or (chunk_size_y % 2):
+    if (
+        (chunk_size_x % 2)
+        or (chunk_size_y % 2)
+        or (height % chunks_n_y)
+        or (width % chunks_n_x)
+    ):
         raise ValueError(
             f"cant decompose into a {procs_grid[0]}x{procs_grid[1]} grid (odd side grid {chunk_size_y}x{chunk_size_x}). Try changing the number of processors."
         )
-- 
2.43.0


From b2071459959cf1ddec5a0092e0eabd2cdb122459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 18/49] fix: changing the pixels of a demosaiced image updates
 its demosaiced images and Stokes vector

---
 micropolarray/micropol_image.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 4d9b382..e59ee45 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -119,6 +119,7 @@ class MicropolImage(Image):
         self._flat_subtracted = False
         self._dark_subtracted = False
         self.demosaiced_images = None
+        self._demosaic_mode = "adjacent"
 
     def _import_image_parameters(self, image: MicropolImage):
         # copy, so that changing one image never changes the other
@@ -128,6 +129,7 @@ class MicropolImage(Image):
         self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
+        self._demosaic_mode = image._demosaic_mode
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
@@ -235,6 +237,10 @@ class MicropolImage(Image):
     def _update_data_and_Stokes(self, newdata: np.ndarray = None):
         if newdata is not None:
             self.data = newdata
+            if self._is_demosaiced:
+                self.demosaiced_images = demosaic(
+                    self.data, option=self._demosaic_mode
+                )
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
     def demodulate(
@@ -392,7 +398,7 @@ class MicropolImage(Image):
         """
         self.data = self.data - dark.data
         self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes(self.data)
         self._dark_subtracted = True
         return self
 
@@ -416,7 +422,7 @@ class MicropolImage(Image):
 
         # self.data = np.where(self.data >= 0, self.data, 0)
         # self.data = np.where(self.data < 4096, self.data, 4096)
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes(self.data)
         self._flat_subtracted = True
         return self
 
@@ -820,6 +826,7 @@ class MicropolImage(Image):
 
         self.demosaiced_images = demosaic(self.data, option=demosaic_mode)
         self._is_demosaiced = True
+        self._demosaic_mode = demosaic_mode
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
         return self
-- 
2.43.0


From b6d7e026e164595621cfa84ac23f95c6aab1b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 19/49] fix: Image can be initialized from a MicropolImage

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 6d81b17..9fb7d1c 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -29,7 +29,7 @@ class Image:
         elif type(initializer) is np.ndarray:
             self._init_image_from_data(initializer)
             self.new_data = initializer
-        elif type(initializer) is Image:
+        elif isinstance(initializer, Image):
             self._init_image_from_image(initializer)
 
     def _init_image_from_data(self, input_data: np.array) -> None:
-- 
2.43.0


From 87605e99afd6f1cf8b3ea15ada31ac8258ef7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 20/49] fix: fits files with a DATE-OBS without time can be
 opened

---
 micropolarray/image.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 9fb7d1c..340ff26 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -75,12 +75,13 @@ class Image:
                         "%Y-%m-%dT%H:%M:%S",
                     )
                 except ValueError:  # antarticor format
-                    datetimes[idx] = datetime.datetime.strptime(
-                        hul[0].header["DATE-OBS"]
-                        + "-"
-                        + hul[0].header["TIME-OBS"].split(".")[0],
-                        "%Y-%m-%d-%H:%M:%S",
-                    )
+                    if "TIME-OBS" in hul[0].header:
+                        datetimes[idx] = datetime.datetime.strptime(
+                            hul[0].header["DATE-OBS"]
+                            + "-"
+                            + hul[0].header["TIME-OBS"].split(".")[0],
+                            "%Y-%m-%d-%H:%M:%S",
+                        )
                 except KeyError:
                     pass
 
-- 
2.43.0


From 1aaf643e06689ae3481c41d6077721f1d6412f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 21/49] fix: dark subtraction on unsigned integer images does
 not wrap around

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index e59ee45..cee8f0b 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -396,7 +396,7 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        self.data = self.data - dark.data
+        self.data = np.subtract(self.data, dark.data, dtype=float)
         self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
         self._update_data_and_Stokes(self.data)
         self._dark_subtracted = True
-- 
2.43.0


From aca59d822c64cbbc035bbf2a7e4920476f886d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 22/49] fix: the superpixel at the occulter center is excluded
 from the fit

---
 micropolarray/processing/demodulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 60a096e..b547331 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -356,8 +356,12 @@ def calculate_demodulation_tensor(
         binned_occulter = [int(val / binning) for val in occulter]
         occulter_y, occulter_x, occulter_r = binned_occulter
 
+        # clear everything out of the occulter, its center is part of it
         occulter_flag = roi_from_polar(
-            occulter_flag, [occulter_y, occulter_x], [0, occulter_r]
+            0.0 * occulter_flag,
+            [occulter_y, occulter_x],
+            [occulter_r, 2 * (height + width)],
+            fill=1.0,
         )
         for super_y in range(0, occulter_flag.shape[0], 2):
             for super_x in range(0, occulter_flag.shape[1], 2):
-- 
2.43.0


From dec51abfb0165a673690642c69f6244cdac9c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 23/49] fix: series of normalizing images are sorted together
 with their files

---
 micropolarray/processing/demodulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index b547331..a93273d 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -327,9 +327,16 @@ def calculate_demodulation_tensor(
             f"Each one among (0, 45, 90, -45 / 135) polarizations must be included in the polarizer orientation array. Provided {polarizer_orientations}"
         )  # for calculating normalizing_S
 
-    polarizer_orientations, filenames_list = (
-        list(t) for t in zip(*sorted(zip(polarizer_orientations, filenames_list)))
+    polarizer_orientations, filenames_list, sorted_indexes = (
+        list(t)
+        for t in zip(
+            *sorted(
+                zip(polarizer_orientations, filenames_list, range(len(filenames_list)))
+            )
+        )
     )
+    if type(normalizing_S) is np.ndarray and len(normalizing_S.shape) == 3:
+        normalizing_S = normalizing_S[sorted_indexes]  # one image for each file
     micropol_phases_previsions = np.array(micropol_phases_previsions)
     rad_micropol_phases_previsions = np.deg2rad(micropol_phases_previsions)
 
-- 
2.43.0


From 2a3e0d34759d433855b573dfb44dbcd9a2df074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 24/49] fix: a repeated demodulation matrix does not stand in
 for a missing one

---
 micropolarray/processing/demodulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index a93273d..d55c2e5 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -61,19 +61,19 @@ class Demodulator:
             dtype=float,
         )
 
-        matches = 0
+        matches = set()
         for filename in covariance_tensor_fnames:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                matches.add((i, j))
                 with fits.open(filename) as hul:
                     Cij[i, j] = hul[0].data
 
-        if matches != (self.n_malus_params * self.n_malus_params):
+        if len(matches) != (self.n_malus_params * self.n_malus_params):
             raise ValueError("Incomplete covariance tensor in the selected folder. ")
 
         return Cij
@@ -170,22 +170,22 @@ class Demodulator:
         )
         fit_found_flags = None
 
-        matches = 0
+        matches = set()
         for filename in filenames_list:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                matches.add((i, j))
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
                     fit_found_flags = hul[0].data
 
-        if matches != 12:
+        if len(matches) != 12:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From a795cf0e9d807753ed26dfdacc5ed0640ee1b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 25/49] fix: demodulation matrices and images of different
 shape are refused, never broadcasted

---
 micropolarray/micropol_image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index cee8f0b..fc01086 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -370,6 +370,11 @@ class MicropolImage(Image):
         U = T_ij[2, 0] + T_ij[2, 1] + T_ij[2, 2] + T_ij[2, 3]
         """
 
+        if mij.shape[2:] != splitted_pols[0].shape:
+            raise ValueError(
+                f"demodulation matrix {mij.shape[2:]} and images {splitted_pols[0].shape} have different shapes. Check that binning is correct."
+            )  # otherwise they may be broadcasted
+
         I, Q, U = np.matmul(
             mij,
             np.expand_dims(splitted_pols, axis=0),
-- 
2.43.0


From 71b1052bc75768ac0b9d8a7c21b99d33cda425ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:53 +0000
Subject: [PATCH 26/49] fix: micropolarizer rebinning of odd sized data
 terminates

---
 micropolarray/processing/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/rebin.py b/micropolarray/processing/rebin.py
index 3367153..35dc11f 100644
--- a/micropolarray/processing/rebin.py
+++ b/micropolarray/processing/rebin.py
@@ -129,10 +129,10 @@ def trim_to_match_2xbinning(height: int, width: int, binning: int):
     new_width = width
     new_height = height
     while new_width % (2 * binning):
-        new_width -= 2
+        new_width -= 1
         trimmed = True
     while new_height % (2 * binning):
-        new_height -= 2
+        new_height -= 1
         trimmed = True
     if trimmed:
         print_trimming_info(height, width, new_height, new_width)
-- 
2.43.0


From 6cba9fe94e0ce28fb144bafb3a56cd237f97837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:50 +0000
Subject: [PATCH 27/49] fix: rotate and congrid do not keep the demosaiced
 images of the original pixels

---
 micropolarray/micropol_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index fc01086..c7bbaa9 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -900,7 +900,7 @@ class MicropolImage(Image):
             congridded_pol_images[subimage_i] = congrid(pol_subimage, new_subdims)
         newdata = merge_polarizations(congridded_pol_images)
         newimage = MicropolImage(self)
-        newimage.data = newdata
+        newimage._update_data_and_Stokes(newdata)
         newimage.Stokes_vec = [
             congrid(stokes_component, [newdim_y, newdim_x])
             for stokes_component in self.Stokes_vec
@@ -923,7 +923,7 @@ class MicropolImage(Image):
             image = image.rotate(angle)
             Stokes_vec[i] = np.asarray(image, dtype=float)
         newimage = MicropolImage(self)
-        newimage.data = data
+        newimage._update_data_and_Stokes(data)
         newimage.Stokes_vec = Stokes_vec
 
         return newimage
-- 
2.43.0


From 5f2b7a073a714b9c042eb6ae410601b35fc45593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 28/49] fix: superpixels without fit get the theoretical Stokes
 vector also if the image was already demodulated or demosaiced

---
 micropolarray/micropol_image.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index c7bbaa9..f8c86b4 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -271,17 +271,18 @@ class MicropolImage(Image):
         info("Image correctly demodulated")
         return demodulated_image
 
-    def _get_theo_Stokes_vec_components(self) -> np.array:
+    def _get_theo_Stokes_vec_components(self, subimages=None) -> np.array:
         """
         Computes stokes vector components from four polarized images at four angles, angle_dic describes the coupling between
         poled_images_array[i] <--> angle_dic[i]
         Return:
             stokes vector, shape=(3, poled_images.shape[1], poled_images.shape[0])
         """
-        if self._is_demosaiced:
-            subimages = self.demosaiced_images
-        else:
-            subimages = self.single_pol_subimages
+        if subimages is None:
+            if self._is_demosaiced:
+                subimages = self.demosaiced_images
+            else:
+                subimages = self.single_pol_subimages
         I = 0.5 * np.sum(subimages, axis=0)
         Q = subimages[self.angle_dic[0]] - subimages[self.angle_dic[90]]
         U = subimages[self.angle_dic[45]] - subimages[self.angle_dic[-45]]
@@ -387,7 +388,7 @@ class MicropolImage(Image):
 
         # use theo stokes where fit wasn't found
         if demodulator.fit_found_flags is not None:
-            theo_S = self.Stokes_vec
+            theo_S = self._get_theo_Stokes_vec_components(splitted_pols)
             S = np.where(fit_found_flags == 1.0, S, theo_S)
 
         return S
-- 
2.43.0


From bdf6883273bf1b0c6ce4a0a23d9d701cb6296177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 29/49] fix: error on the angle of polarization is finite where
 Q is 0

---
 micropolarray/processing/demodulation_errors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation_errors.py b/micropolarray/processing/demodulation_errors.py
index 6df8ef3..0323d90 100644
--- a/micropolarray/processing/demodulation_errors.py
+++ b/micropolarray/processing/demodulation_errors.py
@@ -78,8 +78,8 @@ def get_error_on_AoLP(S: np.ndarray, sigma_S: np.ndarray) -> np.ndarray:
     I, Q, U = S
     sigma_I, sigma_Q, sigma_U = sigma_S
 
-    aolp_var = (sigma_U * sigma_U + sigma_Q * sigma_Q * U * U / (Q * Q)) / (
-        4 * Q * Q * (1 + (U * U / (Q * Q))) * (1 + (U * U / (Q * Q)))
-    )
+    aolp_var = (Q * Q * sigma_U * sigma_U + U * U * sigma_Q * sigma_Q) / (
+        4 * (Q * Q + U * U) * (Q * Q + U * U)
+    )  # defined also where Q = 0
 
     return np.sqrt(aolp_var)
-- 
2.43.0


From 4e3f75058ba8e2f75424b6473eceb8d241f2814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 30/49] fix: Chen-Wang-Liang correction of integer images is
 not truncated to integers

---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index b601251..21b43d1 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -271,7 +271,7 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
     height, width = data.shape
     C_ij = np.zeros(shape=(4, 4, height, width))
     d_ij = np.zeros_like(data)
-    corrected_data = np.zeros_like(data)
+    corrected_data = np.zeros_like(data, dtype=float)
     ifov_corrected_data = np.zeros_like(data)
     correction_path = Path(calibration_matrices_dir)
     if not correction_path.is_absolute():  # suppose it is in cwd
-- 
2.43.0


From c67ae0d7e9737cb9b15fba54a9aaecefc6c1b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 31/49] fix: a line of a single point is sampled instead of
 dividing by zero

---
 micropolarray/processing/linear_roi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index 13a160b..713234c 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -121,8 +121,9 @@ def DDA(start: list, end: list) -> np.ndarray:
         step = np.abs(dx)
     else:
         step = np.abs(dy)
-    dx = dx / step
-    dy = dy / step
+    if step > 0:  # a single point otherwise
+        dx = dx / step
+        dy = dy / step
     x = x1
     y = y1
     xs = [int(x)]
-- 
2.43.0


From 4911736f2eb36e8fb95d62af87fae6e0f6b70cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 32/49] fix: covariance tensor shape taken from any file in the
 folder

---
 micropolarray/processing/demodulation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d55c2e5..3d64c5e 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -48,8 +48,14 @@ class Demodulator:
 
         if not covariance_tensor_fnames:
             return None
-        with fits.open(covariance_tensor_fnames[0]) as firsthul:
-            sample_matrix = np.array(firsthul[0].data)
+        # look for first matrix file and get dimensions
+        for filename in covariance_tensor_fnames:
+            if re.search("[0-9]{2}", filename.split(os.path.sep)[-1]) is not None:
+                with fits.open(filename) as firsthul:
+                    sample_matrix = np.array(firsthul[0].data)
+                break
+        else:
+            raise ValueError("Incomplete covariance tensor in the selected folder. ")
 
         Cij = np.zeros(
             shape=(
-- 
2.43.0


From b8bcf3e94552412aff56e0ba78e3e5cddc1ca2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 33/49] fix: polar line from a centre next to the border did
 not leave it

---
 micropolarray/processing/linear_roi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index 713234c..34056dd 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -50,10 +50,10 @@ def linear_roi_from_polar(
     while (
         # (y2 < data.shape[0] - 1)
         (y2 < data.shape[0])
-        and (y2 > 1)
+        and (y2 > -1)
         # and (x2 < data.shape[1] - 1)
         and (x2 < data.shape[1])
-        and (x2 > 1)
+        and (x2 > -1)
         and (np.sqrt((x2 - center[1]) ** 2 + (y2 - center[0]) ** 2) < r[1] - 1)
     ):
         y2 = y2 - np.sin(theta_rad)
-- 
2.43.0


From 8ff21eed05d01f0159cb367757e417068953a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 34/49] fix: rotate images in their own precision

MicropolImage.rotate went through single precision PIL images, so values above
2**24 (and most fractions) came back changed, even for a rotation by 0 degrees.
---
 micropolarray/micropol_image.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index f8c86b4..09b02c7 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -911,18 +911,18 @@ class MicropolImage(Image):
     def rotate(self, angle: float) -> MicropolImage:
         """Rotates an image of angle degrees, counter-clockwise."""
 
+        def rotated(plane):
+            # rotate positions, a PIL image of floats is single precision
+            index = np.arange(1, plane.size + 1, dtype=np.int32)
+            index = PILImage.fromarray(index.reshape(plane.shape)).rotate(angle)
+            return np.append(0.0, plane)[np.asarray(index)]
+
         single_pols = self.single_pol_subimages
         for i in range(4):
-            image = PILImage.fromarray(single_pols[i])
-            image = image.rotate(angle)
-            single_pols[i] = np.asarray(image, dtype=float)
+            single_pols[i] = rotated(single_pols[i])
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = np.array(self.Stokes_vec)
-        for i in range(3):
-            image = PILImage.fromarray(Stokes_vec[i])
-            image = image.rotate(angle)
-            Stokes_vec[i] = np.asarray(image, dtype=float)
+        Stokes_vec = np.array([rotated(component) for component in self.Stokes_vec])
         newimage = MicropolImage(self)
         newimage._update_data_and_Stokes(data)
         newimage.Stokes_vec = Stokes_vec
-- 
2.43.0


From b12a21d1023ccb2adab1f47c3802859ff571f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:03 +0000
Subject: [PATCH 35/49] fix: mask everything outside an occulter far from the
 image centre

The outer radius of the mask was twice the image size, so pixels further away
from a centre lying outside of the image were not kept.
---
 micropolarray/micropol_image.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 09b02c7..237811a 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -952,15 +952,13 @@ class MicropolImage(Image):
         # y, x, r = camera.occulter_pos_last
 
         r = r + overoccult
+        # beyond any pixel, also if the occulter is outside of the image
+        rho_max = 2 * (max(self.height, self.width) + max(abs(y), abs(x)))
 
-        self.data = roi_from_polar(
-            self.data, (y, x), [r, 2 * np.max([self.height, self.width])], fill=fill
-        )
+        self.data = roi_from_polar(self.data, (y, x), [r, rho_max], fill=fill)
         if self._is_demosaiced:
             self.demosaiced_images = [
-                roi_from_polar(
-                    data, (y, x), (r, 2 * np.max([self.height, self.width])), fill=fill
-                )
+                roi_from_polar(data, (y, x), (r, rho_max), fill=fill)
                 for data in self.demosaiced_images
             ]
 
@@ -972,7 +970,7 @@ class MicropolImage(Image):
             self.Stokes_vec[i] = roi_from_polar(
                 self.Stokes_vec[i],
                 (y, x),
-                [r, 2 * np.max(self.Stokes_vec[i].shape)],
+                [r, rho_max],
                 include_superpixels=False,
                 fill=fill,
             )
-- 
2.43.0


From 3faf5e1907e3fb9c672aa700acde2bc08fe679cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 36/49] fix: occulter position of the Chen-Wang-Liang
 calibration

PolarCam has no occulter_pos_nov2022, so the calibration failed by default.
---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 21b43d1..2e3e596 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -66,7 +66,7 @@ def calculate_chen_wan_lian_calibration(
         # Mean values from coronal observations 2022_12_03
         # (campagna_2022/mean_occulter_pos.py)
 
-        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_nov2022
+        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_last
         occulter_r += 10  # Better to overoccult
 
         occulter_flag = roi_from_polar(
-- 
2.43.0


From e4dffb0c575ca867af343727111e79f49e0af965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 37/49] fix: Chen-Wang-Liang calibration without a flat

The flat is optional, but its maximum was always taken.
---
 micropolarray/processing/chen_wan_liang_calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 2e3e596..d5ec849 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -98,8 +98,9 @@ def calculate_chen_wan_lian_calibration(
         if occulter:
             flat = np.where(occulter_flag, 1.0, flat)
 
-    flat_max = np.max(flat, axis=(0, 1))
-    normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
+    if flat_filename:
+        flat_max = np.max(flat, axis=(0, 1))
+        normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
 
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
-- 
2.43.0


From 5b3a5a41ea9844171a0b3cb64701de1dc232c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 38/49] fix: Chen-Wang-Liang calibration of integer images

Dark subtraction wrapped around for unsigned images, failed to be stored for
other integers, and FITS byte order is rejected by numba.
---
 micropolarray/processing/chen_wan_liang_calibration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index d5ec849..c41712a 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -87,11 +87,11 @@ def calculate_chen_wan_lian_calibration(
     # Collect dark
     if dark_filename:
         with fits.open(dark_filename) as file:
-            dark = file[0].data
+            dark = np.array(file[0].data, dtype=float)
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = file[0].data
+            flat = np.array(file[0].data, dtype=float)
     if flat_filename and dark_filename:
         flat -= dark  # correct flat too
         flat = np.where(flat > 0, flat, 1.0)
@@ -105,7 +105,7 @@ def calculate_chen_wan_lian_calibration(
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
         with fits.open(filename) as file:
-            all_data_arr[idx] = file[0].data
+            all_data_arr[idx] = np.array(file[0].data, dtype=float)
             if dark_filename is not None:
                 all_data_arr[idx] -= dark
                 all_data_arr[idx] = np.where(
-- 
2.43.0


From 1644da3de5d414be1d1d024bdeaa1e9971e71b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 39/49] fix: reduced chi square of the calibration used sigma
 instead of its square and a wrong number of degrees of freedom

---
 micropolarray/processing/demodulation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 3d64c5e..a8bd7f8 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -798,13 +798,11 @@ def compute_demodulation_by_chunk(
     N_MALUS_PARAMS = 3
     N_PIXELS_IN_SUPERPIX = 4
 
-    dof = len(polarizer_orientations) - 2
+    dof = len(polarizer_orientations) - N_MALUS_PARAMS
     if tk_boundary is None:
         tk_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
     if eff_boundary is None:
         eff_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
 
     # Preemptly compute the theoretical demo matrix to save time
     theo_modulation_matrix = np.array(
@@ -941,7 +939,7 @@ def compute_demodulation_by_chunk(
                             - normalized_superpix_arr[:, pixel_num]
                         )
                         chisq[pixel_num] = (
-                            np.sum((residuals * residuals) / sigma_pix[:, pixel_num])
+                            np.sum((residuals / sigma_pix[:, pixel_num]) ** 2)
                             / dof
                         )
 
-- 
2.43.0


From 76e5bb91bacf1c82b01af5f2acfe7e9c50791c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 40/49] fix: show_demo_images with given display limits raised
 UnboundLocalError

---
 micropolarray/micropol_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 237811a..c415281 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -578,6 +578,7 @@ class MicropolImage(Image):
         ax = ax.ravel()
         demo_images_list = self.demosaiced_images
         for i, single_demo_ax in enumerate(ax):
+            this_vmin, this_vmax = vmin, vmax
             if vmin is None:
                 this_vmin = mean_minus_std(demo_images_list[i])
             if vmax is None:
-- 
2.43.0


From 8dc4d099a4cbcd19fd79d41e39eb3a0a148a7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:48 +0000
Subject: [PATCH 41/49] fix: Demodulator.show returned its last subplot instead
 of the array of subplots

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index a8bd7f8..5196af9 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -225,8 +225,8 @@ class Demodulator:
                     self.mij[i, j], cmap=cmap, vmin=vmin, vmax=vmax
                 )
                 ax[i, j].set_title(rf"M$_{i}$$_{j}$")
-        for ax in fig.get_axes():
-            ax.label_outer()
+        for single_ax in fig.get_axes():
+            single_ax.label_outer()
 
         fig.subplots_adjust(right=0.8)
         cbar_ax = fig.add_axes([0.85, 0.15, 0.05, 0.7])
-- 
2.43.0


From 9de46f854526d664294233b7f9e22f960972d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 42/49] fix: calibration folders whose name contains glob
 characters were not found

---
 micropolarray/processing/demodulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 5196af9..0849f09 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -43,7 +43,9 @@ class Demodulator:
     @property
     def Cij(self) -> np.ndarray:
         covariance_tensor_fnames = glob.glob(
-            os.path.join(self.demo_matrices_path, "covariance_tensor", "*")
+            os.path.join(
+                glob.escape(self.demo_matrices_path), "covariance_tensor", "*"
+            )
         )
 
         if not covariance_tensor_fnames:
@@ -155,7 +157,9 @@ class Demodulator:
             raise FileNotFoundError("self.demo_matrices_path not found.")
 
         # look for first matrix file and get dimensions
-        filenames_list = glob.glob(self.demo_matrices_path + os.path.sep + "*.fits")
+        filenames_list = glob.glob(
+            glob.escape(self.demo_matrices_path) + os.path.sep + "*.fits"
+        )
         if not filenames_list:
             raise FileNotFoundError("No fits files in selected folder.")
 
-- 
2.43.0


From 3e0be93d4251588e25412e8f3f66cac99714cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:39 +0000
Subject: [PATCH 43/49] fix: auto_threshold looked for the threshold outside
 the data when they span less than 1

---
 micropolarray/processing/image_cleaning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 8989a1a..efac43e 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -92,6 +92,8 @@ def auto_threshold(data: np.ndarray) -> float:
     print(np.max(data))
     print("a")
     return min(
-        np.linspace(np.min(data) + 1, np.max(data), np.min((data.size, 1000))),
+        np.linspace(
+            np.min(data), np.max(data), np.min((data.size, 1000)) + 1
+        )[1:],
         key=lambda th: otsu_intraclass_variance(data, th),
     )
-- 
2.43.0


From 0a814541a634475ac41bc0c7f160cc8bba8e3007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:19 +0000
Subject: [PATCH 44/49] fix: an image's orientation map changed with the
 dictionary it was given or with another image's map

---
 micropolarray/micropol_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index c415281..24fb43e 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -90,7 +90,7 @@ class MicropolImage(Image):
                 MicropolImage.first_call = False
                 DEFAULT_ANGLES_DIC = PolarCam().angle_dic
             angle_dic = DEFAULT_ANGLES_DIC
-        self.angle_dic = angle_dic
+        self.angle_dic = dict(angle_dic)
 
         if type(initializer) is list and len(initializer) > 1:
             self._num_of_images = len(initializer)
@@ -125,7 +125,7 @@ class MicropolImage(Image):
         # copy, so that changing one image never changes the other
         self.data = image.data.copy()
         self.header = image.header.copy()
-        self.angle_dic = image.angle_dic
+        self.angle_dic = dict(image.angle_dic)
         self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
-- 
2.43.0


From dde9ecfa48f7565cd58859b859b1548082144b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:35 +0000
Subject: [PATCH 45/49] fix: a calibration that is not square can be turned by
 odd numbers of quarter turns

---
 micropolarray/processing/demodulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 0849f09..fdf6eb2 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -266,9 +266,8 @@ class Demodulator:
 
     def rot90(self, k=1):
         # NB: rotation could switch micropol positions inside superpixel, but for demo matrix all px in superpix are equal
-        for i in range(self.n_malus_params):
-            for j in range(self.n_pixels_in_superpix):
-                self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        # odd turns exchange the sides
+        self.mij = np.rot90(self.mij, k=k, axes=(2, 3)).copy()
         if self.fit_found_flags is not None:
             self.fit_found_flags = np.rot90(self.fit_found_flags, k=k)
 
-- 
2.43.0


From f6d38273807dfd8495ddc791c21e7806737dd3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:35 +0000
Subject: [PATCH 46/49] fix: normalization when the common level is near the
 ends of the histogram of signals

---
 micropolarray/processing/demodulation.py | 4 ++--
 micropolarray/utils.py                   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index fdf6eb2..2addfb8 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -469,8 +469,8 @@ def calculate_demodulation_tensor(
             return norm * np.exp(-((x - x_0) ** 2) / (4 * sigma**2))
 
         hist_roi = 10  # bins around max value
-        xvalues = np.array(histo[1])[index - hist_roi : index + hist_roi]
-        yvalues = np.array(histo[0])[index - hist_roi : index + hist_roi]
+        xvalues = np.array(histo[1])[:-1][max(index - hist_roi, 0) : index + hist_roi]
+        yvalues = np.array(histo[0])[max(index - hist_roi, 0) : index + hist_roi]
         yvalues_sum = np.sum(yvalues)
 
         yvalues = yvalues / yvalues_sum
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 8d2d56a..9582923 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -265,8 +265,8 @@ def get_malus_normalization(four_peaks_images, show_hist=False):
         return norm * np.exp(-((x - x_0) ** 2) / (4 * sigma**2))
 
     hist_roi = 10  # bins around max value
-    xvalues = np.array(histo[1])[index - hist_roi : index + hist_roi]
-    yvalues = np.array(histo[0])[index - hist_roi : index + hist_roi]
+    xvalues = np.array(histo[1])[:-1][max(index - hist_roi, 0) : index + hist_roi]
+    yvalues = np.array(histo[0])[max(index - hist_roi, 0) : index + hist_roi]
     yvalues_sum = np.sum(yvalues)
     yvalues = yvalues / yvalues_sum
     xvalues = np.array(
-- 
2.43.0


From 7f62757380e845c3e34b4262206752ea4bc0e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:35 +0000
Subject: [PATCH 47/49] fix: the fitted width of the signals has no sign, the
 normalization is above the common level

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/utils.py                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 2addfb8..a7c6b85 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -489,7 +489,7 @@ def calculate_demodulation_tensor(
             yvalues,
             prediction,
         )
-        normalizing_S = params[1] + 4 * params[2]  # center of gaussian + 2sigma
+        normalizing_S = params[1] + 4 * abs(params[2])  # center of gaussian + 2sigma
         # 3sigma -> P = 2.7e-3 outliers
         # 4sigma -> P = 6.3e-5 outliers
         # ----------------------------------------------
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 9582923..cdbf52f 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -284,7 +284,7 @@ def get_malus_normalization(four_peaks_images, show_hist=False):
         yvalues,
         prediction,
     )
-    normalizing_S = params[1] + 4 * params[2]  # center of gaussian + 2sigma
+    normalizing_S = params[1] + 4 * abs(params[2])  # center of gaussian + 2sigma
     # 3sigma -> P = 2.7e-3 outliers
     # 4sigma -> P = 6.3e-5 outliers
     # ----------------------------------------------
-- 
2.43.0


From 147d24e66a48064ec82d7452e78774ce42ddd593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:28 +0000
Subject: [PATCH 48/49] fix: the Hough method finds the occulter in images of
 integers too (255 times their values overflowed)

---
 micropolarray/processing/nrgf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index ecf247d..97dc510 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -186,6 +186,7 @@ def find_occulter_hough(
         tuple: occulter y, x, r
     """
     info("Searching occulter, this may take a while...")
+    data = np.array(data, dtype=float)  # integers may overflow
     if maxr is None:
         maxr = np.max(data.shape)
     minDist = np.max(data.shape)  # minimum distance between circles
-- 
2.43.0


From b52d66bdc215c5551645ba7b09f76655f4abdead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:28 +0000
Subject: [PATCH 49/49] fix: orientations measured more than once count once in
 the estimate of the normalization

---
 micropolarray/processing/demodulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index a7c6b85..acccb7f 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -446,7 +446,8 @@ def calculate_demodulation_tensor(
                 norm_S_angle_list = chosen_norm
         for pol, image in zip(polarizer_orientations, all_data_arr):
             if pol in norm_S_angle_list:
-                S_max += 0.5 * image
+                # repeated orientations count once
+                S_max += 0.5 * image / list(polarizer_orientations).count(pol)
         # Normalizing S, has a spike of which maximum is taken
         bins = 1000
         histo = np.histogram(S_max, bins=bins)
-- 
2.43.0

