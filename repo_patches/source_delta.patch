From 0bd9ce920be5a9faf1cfb023ed5e3bf49e42e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 01/47] fix: keep gain, crop and border removal when no mask is
 given

The mask setter rebuilt the pixel data from the original source (arrays,
PrimaryHDU and HDUList), discarding the gain factor, the crop, the border
removal and the float32 conversion already applied to it.
---
 properimage/single_image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 93188c3..b8ac4f0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -359,11 +359,11 @@ class SingleImage(object):
             # check the fits file and try to find it as an extension
             if self.attached_to == "PrimaryHDU":
                 logger.debug("Source is PrimaryHDU, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img.data)
+                self.__data = ma.masked_invalid(self.__data)
 
             elif self.attached_to == "ndarray":
                 logger.debug("Source is ndarray, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img)
+                self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
                 if self.header["EXTEND"]:
                     logger.info(
@@ -384,7 +384,7 @@ class SingleImage(object):
                     )
                 else:
                     logger.debug("No extensions found, masking invalid values")
-                    self.__data = ma.masked_invalid(self.__img[0].data)
+                    self.__data = ma.masked_invalid(self.__data)
             # if a path is given where we find a fits file search on extensions
             else:
                 try:
-- 
2.43.0


From 4f6244e1a3ce3ff16e57d4ba78763d9d792f8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 02/47] fix: crop of zero rows or columns on one side emptied
 the image

---
 properimage/single_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b8ac4f0..2eda1b1 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -264,7 +264,10 @@ class SingleImage(object):
         if not np.sum(self.crop) == 0.0:
             dx, dy = self.crop
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
-            self.__data = self.__data[dx[0] : -dx[1], dy[0] : -dy[1]]
+            sx, sy = self.__data.shape
+            self.__data = self.__data[
+                dx[0] : sx - dx[1], dy[0] : sy - dy[1]
+            ]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
-- 
2.43.0


From 1133b474c285436c26613bef4ff00d3dd41a0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 03/47] fix: HDUList without a mask extension could not be
 loaded

The EXTEND keyword only permits extensions, it does not say that one is
there (astropy writes EXTEND=T in every primary header), and may be absent.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 2eda1b1..0b87576 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -368,7 +368,7 @@ class SingleImage(object):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-                if self.header["EXTEND"]:
+                if len(self.__img) > 1:
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-- 
2.43.0


From 2ad3aa25946ef21fd6ea91839865ebc2d280d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 04/47] fix: non-finite pixels were left unmasked when a mask
 was supplied

An explicit mask, a mask extension, guessmask=False or a FITS file without
EXTEND left NaN pixels unmasked.
---
 properimage/single_image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 0b87576..0a1c255 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -455,6 +455,8 @@ class SingleImage(object):
             f"Applying additional mask filters (lower bound: "
             f"{MASK_LOWER_THRESHOLD}, upper: 65000)"
         )
+        # invalid values are never usable, whatever the source of the mask
+        self.__data = ma.masked_invalid(self.__data)
         mask_lower = ma.masked_less(self.__data, MASK_LOWER_THRESHOLD)
         mask_greater = ma.masked_greater(self.__data, 65000.0)
 
-- 
2.43.0


From 283ce31c6ea0e0bff71626d755eab683aa391a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 05/47] fix: border removal dropped data or failed on
 asymmetric images

The search for the zero valued border mixed up rows and columns (the right
limits were measured on the wrong axis), looked only at the central row and
column, was off by one and failed with UnboundLocalError on NaN pixels.
Keep the bounding box of the non zero pixels instead.
---
 properimage/single_image.py | 52 +++++++------------------------------
 1 file changed, 9 insertions(+), 43 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 0a1c255..9c60e02 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -213,49 +213,15 @@ class SingleImage(object):
                 self.__data = ma.asarray(img.data).astype("<f4")
         if self.borders:
             logger.debug("Detecting and removing image borders")
-            sx, sy = self.__data.shape
-            line = self.__data.data[sx // 2, :]
-            pxsum = 0
-            for x, px in enumerate(line):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldx = x
-                    break
-            for dx in range(ldx):
-                if not np.sum(self.__data.data[:dx, :]) == 0:
-                    ldx = dx
-                    break
-            pxsum = 0
-            for x, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdx = sx - x
-                    break
-            for dx in range(x):
-                if not np.sum(self.__data.data[-dx - 1 :, :]) == 0:
-                    rdx = sx - dx
-                    break
-            col = self.__data.data[:, sy // 2]
-            pxsum = 0
-            for y, px in enumerate(col):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldy = y
-                    break
-            for dy in range(ldy):
-                if not np.sum(self.__data.data[:, :dy]) == 0:
-                    ldy = dy
-                    break
-            pxsum = 0
-            for y, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdy = sy - y
-                    break
-            for dy in range(y):
-                if not np.sum(self.__data.data[:, -dy - 1 :]) == 0:
-                    rdy = sy - dy
-                    break
+            filled = self.__data.data != 0
+            rows = np.flatnonzero(filled.any(axis=1))
+            cols = np.flatnonzero(filled.any(axis=0))
+            if len(rows) > 0:
+                ldx, rdx = rows[0], rows[-1] + 1
+                ldy, rdy = cols[0], cols[-1] + 1
+            else:
+                ldx, ldy = 0, 0
+                rdx, rdy = self.__data.shape
             logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
             self.__data = self.__data[ldx:rdx, ldy:rdy]
             logger.debug(
-- 
2.43.0


From 3dd1cd183b7f1b052e97d7b67b13808ac004ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 06/47] fix: a mask of the source image could not be used with
 crop or borders

The image was cropped but the mask was not, so that assigning it failed.
---
 properimage/single_image.py | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 9c60e02..269e918 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -211,6 +211,8 @@ class SingleImage(object):
                     f"Extracting data from PrimaryHDU, shape: {img.data.shape}"
                 )
                 self.__data = ma.asarray(img.data).astype("<f4")
+        self.__source_shape = self.__data.shape
+        x0, y0 = 0, 0
         if self.borders:
             logger.debug("Detecting and removing image borders")
             filled = self.__data.data != 0
@@ -224,6 +226,7 @@ class SingleImage(object):
                 rdx, rdy = self.__data.shape
             logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
             self.__data = self.__data[ldx:rdx, ldy:rdy]
+            x0, y0 = ldx, ldy
             logger.debug(
                 f"Data shape after border removal: {self.__data.shape}"
             )
@@ -234,7 +237,10 @@ class SingleImage(object):
             self.__data = self.__data[
                 dx[0] : sx - dx[1], dy[0] : sy - dy[1]
             ]
+            x0, y0 = x0 + dx[0], y0 + dy[0]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
+        sx, sy = self.__data.shape
+        self.__window = (slice(x0, x0 + sx), slice(y0, y0 + sy))
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
         self.__data.soften_mask()
@@ -279,6 +285,15 @@ class SingleImage(object):
             logger.debug("Extracting header from PrimaryHDU")
             self.__header = img.header
 
+    def _window_mask(self, mask):
+        """Restrict a mask of the source image to the window kept of it."""
+        if (
+            mask.shape != self.__data.shape
+            and mask.shape == self.__source_shape
+        ):
+            return mask[self.__window]
+        return mask
+
     @property
     def mask(self):
         """Get mask property value."""
@@ -299,13 +314,17 @@ class SingleImage(object):
                 logger.debug(
                     f"Mask median is 0, using >= threshold ({self.maskthresh})"
                 )
-                self.__data.mask = fitsmask >= self.maskthresh
+                self.__data.mask = self._window_mask(
+                    fitsmask >= self.maskthresh
+                )
             else:
                 logger.debug(
                     f"Mask median is non-zero, using <= threshold "
                     f"({self.maskthresh})"
                 )
-                self.__data.mask = fitsmask <= self.maskthresh
+                self.__data.mask = self._window_mask(
+                    fitsmask <= self.maskthresh
+                )
             logger.info(
                 f"Mask loaded: {self.__data.mask.sum()} pixels masked ("
                 f"{100 * self.__data.mask.sum() / self.__data.mask.size:.2f}%)"
@@ -315,7 +334,7 @@ class SingleImage(object):
             logger.debug(
                 f"Using provided numpy array as mask, shape: {mask.shape}"
             )
-            self.__data.mask = mask
+            self.__data.mask = self._window_mask(mask)
             logger.info(
                 f"Applied array mask: {self.__data.mask.sum()} pixels masked ("
                 f"{100 * self.__data.mask.sum() / self.__data.mask.size:.2f}%)"
@@ -344,9 +363,13 @@ class SingleImage(object):
                         f"{np.median(fitsmask)}"
                     )
                     if np.median(fitsmask) == 0:
-                        self.__data.mask = fitsmask >= self.maskthresh
+                        self.__data.mask = self._window_mask(
+                            fitsmask >= self.maskthresh
+                        )
                     else:
-                        self.__data.mask = fitsmask <= self.maskthresh
+                        self.__data.mask = self._window_mask(
+                            fitsmask <= self.maskthresh
+                        )
                     logger.info(
                         f"Extension mask applied: {self.__data.mask.sum()} "
                         "pixels masked"
@@ -374,11 +397,11 @@ class SingleImage(object):
                                     f"{np.median(fitsmask)}"
                                 )
                                 if np.median(fitsmask) == 0:
-                                    self.__data.mask = (
+                                    self.__data.mask = self._window_mask(
                                         fitsmask >= self.maskthresh
                                     )
                                 else:
-                                    self.__data.mask = (
+                                    self.__data.mask = self._window_mask(
                                         fitsmask <= self.maskthresh
                                     )
                                 logger.info(
-- 
2.43.0


From 5c6475a0ba827cfc86e335112020747ddd5f7d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 07/47] fix: array subclasses were looked up as a FITS file
 named after their class

An image given as e.g. a masked array had its mask searched in a file called
'MaskedArray' of the working directory.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 269e918..4a33f49 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -349,7 +349,7 @@ class SingleImage(object):
                 logger.debug("Source is PrimaryHDU, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
 
-            elif self.attached_to == "ndarray":
+            elif isinstance(self.__img, np.ndarray):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-- 
2.43.0


From 0f84d1c967ce4e3c58132e14e30122abd4d8782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 08/47] fix: forked processes shared the star stamp store of
 their images

The store was named after id(self) in a directory made at import time. Two
workers forked from the same parent often create their images at the same
address, and then truncate and append to the same files.
---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 4a33f49..9215ca5 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -19,6 +19,7 @@ import logging
 import os
 import pathlib
 import tempfile
+import uuid
 
 from astropy.convolution import Box2DKernel
 from astropy.convolution import convolve_fft
@@ -141,7 +142,7 @@ class SingleImage(object):
         self.stamp_shape = stamp_shape
         self.inf_loss = 0.2
         self._smooth_autopsf = smooth_psf
-        self.dbname = str(TEMP_PATH / f"{id(self)}_SingleImage")
+        self.dbname = str(TEMP_PATH / f"{uuid.uuid4().hex}_SingleImage")
 
         self._plot = plot.Plot(self)
 
-- 
2.43.0


From 1c3c76513220c3c9912d6a4860f12bac2948f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 09/47] fix: cleaning left the map file behind when the data
 file was missing

---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 9215ca5..2eaa30e 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -160,11 +160,11 @@ class SingleImage(object):
 
     def _clean(self):
         logger.info("cleaning... ")
-        try:
-            os.remove(self.dbname + ".dat")
-            os.remove(self.dbname + ".map")
-        except OSError:
-            logger.warning("Nothing to clean. (Or something has failed)")
+        for ext in (".dat", ".map"):
+            try:
+                os.remove(self.dbname + ext)
+            except OSError:
+                logger.warning("Nothing to clean. (Or something has failed)")
 
     @property
     def attached_to(self):
-- 
2.43.0


From c588506556d83959e5e8a6ed6080274dcc383d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 10/47] fix: strict star pick was not disabled for few
 candidates

The flag was written to a misspelled attribute, so with 20 candidates or
fewer the strict criteria still rejected stars.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 2eaa30e..2003234 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -791,7 +791,7 @@ class SingleImage(object):
                 logger.info(
                     f"{n_cand_srcs} candidates, disabling strict star pick"
                 )
-                self.strict_star_pick = False
+                self._strict_star_pick = False
 
             for row in self.best_sources:
                 position = (row["y"], row["x"])
-- 
2.43.0


From 5073b6c5b4417e03a82641e455894b6bab393587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 11/47] fix: zero points of three or more images were mixed up

The magnitudes were stored star by star, while the linear system expects
them image by image. Both agree only for two images.
---
 properimage/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index f571ad2..caa7859 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -214,10 +214,11 @@ def transparency(images, master=None):
             -2.5 * np.log10(mastercat[mastercat["detected"]]["flux"]) + 20.0
         )
 
+        # same order as the linear system: image by image
         j = 0
-        for row in mastercat[mastercat["detected"]]:
-            for img in imglist:
-                cat = img.best_sources
+        for img in imglist:
+            cat = img.best_sources
+            for row in mastercat[mastercat["detected"]]:
                 imgfluxes = cat[cat["sourceid"] == row["sourceid"]]["flux"]
                 m[q + j] = -2.5 * np.log10(imgfluxes[0]) + 20.0
                 j += 1
-- 
2.43.0


From b21044af46fcd3ce7ebdf6f48af0474ec2f924e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 12/47] fix: stale source labels spoiled zero points of later
 calls

When the master catalogue had been labelled by an earlier call as a non
master, its labels (with repeated marks for unmatched sources) were kept, so
unmatched sources could count as common stars.
---
 properimage/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index caa7859..5723dbc 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -174,7 +174,8 @@ def transparency(images, master=None):
             dtypes=int,
         )
     except ValueError:
-        pass
+        # labels left by a previous call, maybe relative to another master
+        mastercat["sourceid"] = np.arange(len(mastercat))
 
     detect = np.repeat(True, len(mastercat))
     #  Matching the sources
-- 
2.43.0


From 5398ae36ced06f9ffbf10f825bd8fbead7508868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 13/47] fix: the first master source was reported as unmatched

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 5723dbc..dead009 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -133,7 +133,7 @@ def _matching(master, cat, masteridskey=None, radius=1.5, masked=False):
                     IDs[i] = master[idkey][ind_o]
 
     if masked:
-        mask = IDs > 0
+        mask = IDs >= 0
         return (IDs, mask)
     return IDs
 
-- 
2.43.0


From b09da119a720cea2e1fa92629dce0fd603c149c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 14/47] fix: the returned mask was a scalar when no pixel is
 masked

subtract and coadd document a boolean array. coadd of a single image also
returned the mask of the image itself instead of a new array.
---
 properimage/operations.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2194fbb..36d32de 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -145,7 +145,7 @@ def subtract(
         raise ValueError("N and R arrays are of different size")
 
     t0 = time.time()
-    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask)
+    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask, shrink=False)
 
     zps, meanmags = u.transparency([ref, new])
     ref.zp = zps[0]
@@ -440,7 +440,7 @@ def diff(*args, **kwargs):
 def process_chunk_joblib(chunk, global_shape):
     S_hat = np.zeros(global_shape).astype(np.complex128)
     psf_hat_sum = np.zeros(global_shape).astype(np.complex128)
-    mix_mask = chunk[0].data.mask
+    mix_mask = chunk[0].data.mask.copy()
 
     for an_img in chunk:
 
@@ -450,7 +450,7 @@ def process_chunk_joblib(chunk, global_shape):
             psf_hat_sum,
             out=psf_hat_sum,
         )
-        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask, shrink=False)
     return S_hat.real, S_hat.imag, psf_hat_sum.real, psf_hat_sum.imag, mix_mask
 
 
@@ -540,7 +540,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
             np.add(S_hat_imag, S_hat.imag, out=S_hat.imag)
             np.add(psf_hat_sum_real, P_hat.real, out=P_hat.real)
             np.add(psf_hat_sum_imag, P_hat.imag, out=P_hat.imag)
-            mix_mask = np.ma.mask_or(mix_mask, mask)
+            mix_mask = np.ma.mask_or(mix_mask, mask, shrink=False)
 
         logger.info("Computing final coadd image")
         P_r_hat = np.sqrt(P_hat)
@@ -551,7 +551,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         logger.info("Using sequential processing (single thread)")
         S_hat = np.zeros(global_shape, dtype=np.complex128)
         P_hat = np.zeros(global_shape, dtype=np.complex128)
-        mix_mask = img_list[0].data.mask
+        mix_mask = img_list[0].data.mask.copy()
 
         ti = time.time()
         for an_img in img_list:
@@ -561,7 +561,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
                 P_hat,
                 out=P_hat,
             )
-            mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+            mix_mask = np.ma.mask_or(
+                mix_mask, an_img.data.mask, shrink=False
+            )
         tf = time.time()
         logger.info(
             f"Sequential processing completed in {tf - ti:.2f} seconds"
-- 
2.43.0


From eca6b268f5221c00da8a7b7b660a8d9ebce79d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 15/47] fix: chunks could be empty or more than requested

With more chunks than elements most of them were empty, and coadd failed with
IndexError when given more workers than images. The accumulated float step
also gave one chunk more than requested for many sizes.
---
 properimage/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index dead009..fbe6f5c 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -380,12 +380,12 @@ def chunk_it(seq, num):
     Sorted list.
     List of chunks containing the data splited in num parts.
     """
-    avg = len(seq) / float(num)
+    n_seq = len(seq)
     out = []
-    last = 0.0
-    while last < len(seq):
-        out.append(seq[int(last) : int(last + avg)])
-        last += avg
+    for i in range(num):
+        chunk = seq[i * n_seq // num : (i + 1) * n_seq // num]
+        if len(chunk) > 0:
+            out.append(chunk)
     try:
         return sorted(out, reverse=True)
     except TypeError:
-- 
2.43.0


From d5966a2c855f11a4caa51d8061d814545e9fe4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 16/47] fix: coadd replaced the elements of the caller's list

---
 properimage/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 36d32de..96ee742 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -482,9 +482,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
-    for i_img, animg in enumerate(si_list):
-        if not isinstance(animg, si):
-            si_list[i_img] = si(animg)
+    si_list = [
+        animg if isinstance(animg, si) else si(animg) for animg in si_list
+    ]
 
     if align:
         logger.info("Aligning images for coadd")
-- 
2.43.0


From d2584155b6f2da5d88ed029534de733867e8b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 17/47] fix: subtract with alignment lost the mask of the new
 image

The bad pixels of the new image were not carried to the aligned one, and the
star stamps of the caller's image were deleted under it.
---
 properimage/operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 96ee742..e2d4ab2 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -128,8 +128,9 @@ def subtract(
                 raise
 
     if align:
-        registrd, registrd_mask = aa.register(new.data, ref.data)
-        new._clean()
+        registrd, registrd_mask = aa.register(
+            new.data, ref.data, propagate_mask=True
+        )
         #  should it be new = type(new)(  ?
         new = SI(
             registrd[: ref.data.shape[0], : ref.data.shape[1]],
-- 
2.43.0


From c713a6f930da0601c74f4757091356b981e75a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 18/47] fix: fitted PSF was rendered off centre in non square
 images

---
 properimage/operations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index e2d4ab2..2912366 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -165,10 +165,11 @@ def subtract(
         p_r = psf_ref[1]
         p_n = psf_new[1]
 
-        p_r.x_mean = ref.data.data.shape[0] / 2.0
-        p_r.y_mean = ref.data.data.shape[1] / 2.0
-        p_n.x_mean = new.data.data.shape[0] / 2.0
-        p_n.y_mean = new.data.data.shape[1] / 2.0
+        # x runs along columns and y along rows
+        p_r.x_mean = ref.data.data.shape[1] / 2.0
+        p_r.y_mean = ref.data.data.shape[0] / 2.0
+        p_n.x_mean = new.data.data.shape[1] / 2.0
+        p_n.y_mean = new.data.data.shape[0] / 2.0
         p_r.bounding_box = None
         p_n.bounding_box = None
 
-- 
2.43.0


From 3b9fb4275c689c661832d4a0c6b1aff2416113ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 19/47] fix: cached image products survived changes of inf_loss
 and zp

The PSF basis and coefficients ignored a new value of the inf_loss attribute,
the normalisation image was never updated, s_hat_comp ignored a new zero
point (coadd sets it after the first use), and s_component came back stale
when returning to the first inf_loss.
---
 properimage/single_image.py | 53 +++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 2003234..681c104 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1016,20 +1016,18 @@ class SingleImage(object):
     @property
     def kl_basis(self):
         """Get the Karhunen-Loeve basis elements."""
-        if not hasattr(self, "_kl_basis"):
-            self._setup_kl_basis()
+        self._setup_kl_basis()
         return self._kl_basis
 
     def _setup_kl_basis(self, inf_loss=None):
         """Determine the KL psf_basis from stars detected in the field."""
-        inf_loss_update = (inf_loss is not None) and (
-            self.inf_loss != inf_loss
-        )
-
-        if not hasattr(self, "_kl_basis") or inf_loss_update:
-            if inf_loss is not None:
-                self.inf_loss = inf_loss
+        if inf_loss is not None:
+            self.inf_loss = inf_loss
 
+        if (
+            not hasattr(self, "_kl_basis")
+            or self._kl_inf_loss != self.inf_loss
+        ):
             valh, vech = self.eigenv
             power = abs(valh) / np.sum(abs(valh))
             pw = 1
@@ -1080,12 +1078,12 @@ class SingleImage(object):
             if len(psf_basis) == 1:
                 psf_basis[0] = psf_basis[0] / np.sum(psf_basis[0])
             self._kl_basis = psf_basis
+            self._kl_inf_loss = self.inf_loss
 
     @property
     def kl_afields(self):
         """Get the Karhunen-Loeve coefficients."""
-        if not hasattr(self, "_a_fields"):
-            self._setup_kl_a_fields()
+        self._setup_kl_a_fields()
         return self._a_fields
 
     def get_afield_domain(self):
@@ -1095,17 +1093,18 @@ class SingleImage(object):
 
     def _setup_kl_a_fields(self, inf_loss=None, updating=False):
         """Calculate coefficients of Karhunen-Loeve expansion."""
-        inf_loss_update = (inf_loss is not None) and (
-            self.inf_loss != inf_loss
-        )
+        if inf_loss is not None:
+            self.inf_loss = inf_loss
 
-        if not hasattr(self, "_a_fields") or inf_loss_update or updating:
-            if inf_loss is not None:
-                self._setup_kl_basis(inf_loss)
-                self.inf_loss = inf_loss
+        if (
+            not hasattr(self, "_a_fields")
+            or self._a_inf_loss != self.inf_loss
+            or updating
+        ):
             # get the psf basis
             psf_basis = self.kl_basis
             n_fields = len(psf_basis)
+            self._a_inf_loss = self.inf_loss
 
             # if only one psf then the afields is  [None]
             if n_fields == 1:
@@ -1191,8 +1190,12 @@ class SingleImage(object):
 
         It uses the psf-basis elements and coefficients.
         """
-        if not hasattr(self, "_normal_image"):
+        if (
+            not hasattr(self, "_normal_image")
+            or self._normal_inf_loss != self.inf_loss
+        ):
             a_fields, psf_basis = self.get_variable_psf()
+            self._normal_inf_loss = self.inf_loss
 
             if a_fields[0] is None:
                 a = np.ones_like(self.data.data)
@@ -1256,6 +1259,7 @@ class SingleImage(object):
         if (
             not hasattr(self, "_s_hat_comp")
             or self._s_hat_inf_loss != self.inf_loss
+            or self._s_hat_zp != self.zp
         ):
 
             a_fields, psf_basis = self.get_variable_psf()
@@ -1287,6 +1291,7 @@ class SingleImage(object):
 
             self._s_hat_comp = (self.zp / (var**2)) * s_hat
             self._s_hat_inf_loss = self.inf_loss
+            self._s_hat_zp = self.zp
 
         return self._s_hat_comp
 
@@ -1297,12 +1302,14 @@ class SingleImage(object):
         Uses the measured psf to calculate the matched filter S
         (from propercoadd), and is psf space variant capable.
         """
-        if not hasattr(self, "_s_component"):
+        if (
+            not hasattr(self, "_s_component")
+            or self._s_inf_loss != self.inf_loss
+            or self._s_zp != self.zp
+        ):
             self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
             self._s_inf_loss = self.inf_loss
-
-        if self._s_inf_loss != self.inf_loss:
-            self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
+            self._s_zp = self.zp
         return self._s_component
 
     @property
-- 
2.43.0


From d73752b86eaa6359d9c44a919f2f64127f15bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 20/47] fix: stamps were cut again on every access after asking
 for a shape

The requested shape never equals the final (padded) one, so every access to
the positions cut the stamps again, and a request made after the PSF was
measured left stamps, shape and cached covariance inconsistent (reshape
errors). As documented, the shape is only used while no stamps exist.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 681c104..7e8a16b 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -754,7 +754,7 @@ class SingleImage(object):
             and self._shape is not None
         )
 
-        if not hasattr(self, "_stamps_pos") or _cond:
+        if not hasattr(self, "_stamps_pos"):
             if _cond:
                 self.stamp_shape = self._shape
             self.db = npdb.NumPyDB(self.dbname, mode="store")
-- 
2.43.0


From 8d7cab44b148ac92de0fa0dee082895e77de4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:00 +0000
Subject: [PATCH 21/47] fix: detected cosmic rays were never cleaned

bkg_sub_img is computed on every access, so the masks assigned to it were
lost and cosmic rays stayed in the interpolated image.
---
 properimage/single_image.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 7e8a16b..f7021ac 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1325,32 +1325,33 @@ class SingleImage(object):
             kernel = Box2DKernel(10)  # Gaussian2DKernel(stddev=2.5) #
 
             logger.debug("Detecting cosmic rays with astroscrappy")
+            bkg_sub_img = self.bkg_sub_img
             crmask, _ = detect_cosmics(
-                indat=np.ascontiguousarray(self.bkg_sub_img.filled(-9999)),
-                inmask=self.bkg_sub_img.mask,
+                indat=np.ascontiguousarray(bkg_sub_img.filled(-9999)),
+                inmask=bkg_sub_img.mask,
                 sigclip=6.0,
                 cleantype="medmask",
             )
             cr_count = crmask.sum()
             logger.info(f"Cosmic rays detected: {cr_count} pixels")
 
-            self.bkg_sub_img.mask = np.ma.mask_or(
-                self.bkg_sub_img.mask, crmask
+            bkg_sub_img.mask = np.ma.mask_or(
+                bkg_sub_img.mask, crmask
             )
-            self.bkg_sub_img.mask = np.ma.mask_or(
-                self.bkg_sub_img.mask, np.isnan(self.bkg_sub_img)
+            bkg_sub_img.mask = np.ma.mask_or(
+                bkg_sub_img.mask, np.isnan(bkg_sub_img)
             )
-            nan_count = np.isnan(self.bkg_sub_img).sum()
+            nan_count = np.isnan(bkg_sub_img).sum()
             if nan_count > 0:
                 logger.debug(f"Additional NaN pixels found: {nan_count}")
 
-            total_to_interpolate = self.bkg_sub_img.mask.sum()
+            total_to_interpolate = bkg_sub_img.mask.sum()
             logger.info(
                 f"Total pixels to interpolate: {total_to_interpolate} "
-                f"({100 * total_to_interpolate / self.bkg_sub_img.size:.2f}%)"
+                f"({100 * total_to_interpolate / bkg_sub_img.size:.2f}%)"
             )
 
-            img = self.bkg_sub_img.filled(np.nan)
+            img = bkg_sub_img.filled(np.nan)
             img_interp = interpolate_replace_nans(img, kernel, convolve=conv)
 
             iterations = 0
-- 
2.43.0


From 7129a997dd8dedcfe4a0e0dd3f47968205f6d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 22/47] fix: store_img failed on some masked and complex images

A masked array without mask raised TypeError. A complex image was only
recognised by its first pixel, so a masked first pixel or single precision
ended in a KeyError.
---
 properimage/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index fbe6f5c..1b8a921 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -47,11 +47,11 @@ def store_img(img, path=None):
     Returns:
         HDUList: The astropy.io.fits.HDUList image
     """
-    if isinstance(img[0, 0], complex):
+    if np.iscomplexobj(img):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-        mask = img.mask.astype("int")
+        mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
         hdu_data = fits.PrimaryHDU(data)
         hdu_data.scale(type="float32")
-- 
2.43.0


From 9c569f2f3c3397daf082db910bf9cfc421e98d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 23/47] fix: get_psf_xy failed near the borders of the image

The window fell outside the image, so the slices of the normalisation image
were empty or short. It also assumed square stamps of odd size.
---
 properimage/single_image.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index f7021ac..b06d7d4 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1423,12 +1423,13 @@ class SingleImage(object):
 
         if a_fields[0] is not None:
             psf_at_xy = np.zeros_like(psf_basis[0])
-            delta = int((psf_at_xy.shape[0] - 1) / 2)
+            wx, wy = psf_at_xy.shape
             xp, yp = int(np.round(x)), int(np.round(y))
-            xmin = xp - delta
-            xmax = xp + delta + 1
-            ymin = yp - delta
-            ymax = yp + delta + 1
+            # keep the window inside the image near its borders
+            xmin = max(min(xp - (wx - 1) // 2, self.data.shape[0] - wx), 0)
+            ymin = max(min(yp - (wy - 1) // 2, self.data.shape[1] - wy), 0)
+            xmax = xmin + wx
+            ymax = ymin + wy
             for apsf, afield in zip(psf_basis, a_fields):
                 psf_at_xy += (
                     apsf
-- 
2.43.0


From 8640ac32fd28a9d7ee08562523e3cf2b25423737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 24/47] fix: more PSF components than stars could be requested

With inf_loss=0 the rounding of the residual asked for one component more
than there are, which is an IndexError with more than 250 stars.
---
 properimage/single_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b06d7d4..ed927cb 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1039,6 +1039,9 @@ class SingleImage(object):
                 else:
                     break
 
+            #  rounding may leave a residual above a vanishing inf_loss
+            cut = min(cut, len(power))
+
             #  Build psf basis
             n_basis = abs(cut)
             xs = vech[:, -cut:]
-- 
2.43.0


From 7d546e8f9b56ce0ffa39eee096e2f23d52d226a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 25/47] fix: the contour style given to the autopsf plot was
 ignored

---
 properimage/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index c5f84c9..09246bf 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -230,8 +230,7 @@ class Plot:
 
         kwargs.setdefault("interpolation", "none")
 
-        iso_kw = iso_kw or {}
-        iso_kw = {"colors": "black", "alpha": 0.5}
+        iso_kw = {"colors": "black", "alpha": 0.5, **(iso_kw or {})}
 
         cmap_kw = cmap_kw or {}
         cmap_kw.setdefault("shrink", 0.85)
-- 
2.43.0


From 8931450957d8c2885ee593ceeb905d288e935edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 26/47] fix: TypeError instead of ValueError when too few axes
 are a single one

---
 properimage/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 09246bf..9c10e57 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -223,7 +223,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         xsh, ysh = psf_basis[0].shape
@@ -286,7 +286,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         cmap_kw = cmap_kw or {}
-- 
2.43.0


From 7dab2bcb0985342eaa7046329d104590a1e80ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 27/47] fix: mock PSFs were not symmetric

The last row and column of the tail was missing, with wide PSFs the first
rows wrapped around to the other side (or raised IndexError), and with a
fractional size the peak was off the centre of the array.
---
 properimage/simtools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 76d8ae6..3288725 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -44,15 +44,17 @@ def Psf(N, X_FWHM, Y_FWHM=0, theta=0):
     if Y_FWHM == 0:
         Y_FWHM = X_FWHM
 
-    a = np.zeros((int(N), int(N)))
+    N = int(N)
+    a = np.zeros((N, N))
     mu = (N - 1) / 2.0
     sigma_x = X_FWHM / 2.335
     sigma_y = Y_FWHM / 2.335
     sigma = max(sigma_x, sigma_y)
     tail_len = min(int(5 * sigma), N / 2)
     mu_int = int(mu)
-    for i in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
-        for j in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
+    start = max(int(mu_int - tail_len), 0)
+    for i in range(start, N - start):
+        for j in range(start, N - start):
             a[i, j] = stats.norm.pdf(
                 i, loc=mu, scale=sigma_x
             ) * stats.norm.pdf(j, loc=mu, scale=sigma_y)
@@ -76,7 +78,8 @@ def astropy_Psf(N, FWHM):
     )
     tail_len = int(7 * sigma)
     mu_int = int(mu)
-    i = range(mu_int - tail_len, mu_int + tail_len, 1)
+    start = max(mu_int - tail_len, 0)
+    i = range(start, N - start)
     for ii, jj in cartesian_product([i, i]):
         psf[ii, jj] = model(ii, jj)
     return psf / np.sum(psf)
-- 
2.43.0


From 0f9be82e49cf7662a39328d3e6b113b0912a58da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 28/47] fix: Airy pattern of odd size was NaN at its centre

---
 properimage/simtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 3288725..07a9501 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -92,6 +92,8 @@ def _airy_func(rr, width, amplitude=1.0):
     (normalized) radius
     """
     r = float(rr) / width
+    if r == 0:
+        return amplitude
     return amplitude * (2.0 * sp.special.j1(r) / r) ** 2
 
 
-- 
2.43.0


From f2cfcc13d9e2a83d21b502451fd0a961a7981ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 29/47] fix: delta_point paired positions with weights
 backwards

The documented call with a zip object failed as well.
---
 properimage/simtools.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 07a9501..9e73a0b 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -215,13 +215,11 @@ def delta_point(N, center=True, xy=None, weights=None):
     if center:
         m[int(N / 2.0), int(N / 2.0)] = 1.0
     else:
+        xy = list(xy)
         if weights is None:
             weights = np.ones(shape=len(xy))
-        j = -1
-        for x, y in xy:
-            w = weights[j]
+        for (x, y), w in zip(xy, weights):
             m[int(x), int(y)] = 1.0 * w
-            j -= 1
     return m
 
 
-- 
2.43.0


From ea9ce12e9f64ad094d7ba7c7ec1f5862b6484d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:35 +0000
Subject: [PATCH 30/47] fix: the last row and column of a Sersic galaxy was
 empty

---
 properimage/simtools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 9e73a0b..0338e0e 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -163,8 +163,8 @@ def gal_sersic(N, n):
     # radio de escala, tomado como un
     # sexto del ancho de la imagen para que la galaxia no ocupe toda la imagen
     R_e = (N - 1) / 6.0
-    for i in range(N - 1):
-        for j in range(N - 1):
+    for i in range(N):
+        for j in range(N):
             r_pix = np.sqrt((i - mu) ** 2 + (j - mu) ** 2)
             if r_pix <= (4.0 * R_e):
                 gal[i, j] = perfilsersic(R_e, 10, n, r_pix)
-- 
2.43.0


From 8cbaa410d94cb78e555867f61ffbd6c1bacf5562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:15 +0000
Subject: [PATCH 31/47] fix: sources of an image given a stamp shape could not
 be updated

Such an image has not detected its sources yet, so coadd with alignment ended
in AttributeError.
---
 properimage/single_image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index ed927cb..1df397d 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -735,7 +735,8 @@ class SingleImage(object):
 
     def update_sources(self, new_sources=None):
         """Update best source property."""
-        del self._best_sources
+        if hasattr(self, "_best_sources"):
+            del self._best_sources
         if new_sources is None:
             # Force evaluation of lazy properties to trigger computation
             _ = self.best_sources
-- 
2.43.0


From 43d8aa8fc6bdebd450ece1b7aa8372e796d394c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 32/47] fix: arrays that are not C-contiguous could not be used
 as images

Transposed or Fortran ordered arrays kept their layout, which sep refuses.
---
 properimage/single_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 1df397d..9498938 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -199,7 +199,9 @@ class SingleImage(object):
             logger.debug(
                 f"Converting numpy array to MaskedArray, shape: {img.shape}"
             )
-            self.__data = ma.MaskedArray(img, mask=False).astype("<f4")
+            # sep only takes C-contiguous arrays
+            self.__data = ma.MaskedArray(img, mask=False, order="C")
+            self.__data = self.__data.astype("<f4", order="C")
         elif isinstance(img, fits.HDUList):
             if img[0].is_image:
                 logger.debug(
-- 
2.43.0


From d79520f7b82564c52f3c55583a8dd36b74c34f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 33/47] fix: gain was not applied to pixels masked in the
 source

If another mask is given besides the one of a masked array those pixels are
used, and limits were tested against values without gain.
---
 properimage/single_image.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 9498938..74ee4bc 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -245,7 +245,11 @@ class SingleImage(object):
         sx, sy = self.__data.shape
         self.__window = (slice(x0, x0 + sx), slice(y0, y0 + sy))
         logger.debug(f"Applying gain factor: {self.__gain}")
-        self.__data = self.__data * self.__gain
+        # masked arithmetics would skip the pixels masked in the source
+        self.__data = ma.MaskedArray(
+            ma.asarray(self.__data.data) * self.__gain,
+            mask=ma.getmask(self.__data),
+        )
         self.__data.soften_mask()
 
     @property
-- 
2.43.0


From 3977c20af594d1a3a16a1623a048ea3f35bee1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 34/47] fix: cutting the star stamps altered the interpolated
 image

---
 properimage/single_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 74ee4bc..66521a1 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -835,7 +835,10 @@ class SingleImage(object):
 
                 new_shape = sub_array_data.shape
                 # Normalize to unit sum
-                sub_array_data += np.abs(np.min(sub_array_data))
+                # the stamp is a view of the image, which has to stay as it is
+                sub_array_data = sub_array_data + np.abs(
+                    np.min(sub_array_data)
+                )
                 star_bg = np.where(
                     sub_array_data
                     < np.percentile(np.abs(sub_array_data), q=70)
-- 
2.43.0


From 1890d4a67085f21a040ee5455f0d0dbd6878897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 35/47] fix: PSF components of more than 250 stars were
 rescaled without their fields

---
 properimage/single_image.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 66521a1..744bd0e 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1072,9 +1072,6 @@ class SingleImage(object):
                     for j in range(self.n_sources):
                         pj = self.db.load(j)[0]
                         base += xs[j, i] * pj
-                    base = base / np.sum(base)
-                    base = base - np.abs(np.min(base))
-                    base = base / np.sum(base)
                     psf_basis.append(base)
                     del base
             psf_basis.reverse()
-- 
2.43.0


From fb0771995bbced4ebe450691c05b8783b3fb7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:09 +0000
Subject: [PATCH 36/47] fix: background of the shifted residual was rolled
 along the wrong axis

---
 properimage/operations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2912366..713c69f 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -219,7 +219,9 @@ def subtract(
                 b_n = (
                     _ifftwn(dhn, norm="ortho")
                     - _ifftwn(fourier_shift(dhr, (dx, dy)), norm="ortho") * b
-                    - np.roll(gammap, (int(round(dx)), int(round(dy))))
+                    - np.roll(
+                        gammap, (int(round(dx)), int(round(dy))), axis=(0, 1)
+                    )
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
                 chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
@@ -329,7 +331,9 @@ def subtract(
                 b_n = (
                     _ifftwn(dhn, norm="ortho")
                     - _ifftwn(fourier_shift(dhr, (dx, dy)), norm="ortho") * b
-                    - np.roll(gammap, (int(round(dx)), int(round(dy))))
+                    - np.roll(
+                        gammap, (int(round(dx)), int(round(dy))), axis=(0, 1)
+                    )
                 )
                 chi = np.ma.MaskedArray(b_n.real, mask=mix_mask, fill_value=0)
                 chi = chi[OPT_BORDER:-OPT_BORDER, OPT_BORDER:-OPT_BORDER]
-- 
2.43.0


From 589baaff03924b0f26f14638e1984cbfcb165a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 37/47] fix: Gaussian PSF images were used with their fitted
 PSF when it was not asked for

---
 properimage/operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 713c69f..6ab3817 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -105,11 +105,14 @@ def subtract(
     if fitted_psf:
         from .single_image import SingleImageGaussPSF as SI
 
+        other = ()
         logger.info("Using single psf, gaussian modeled")
     else:
         from .single_image import SingleImage as SI
+        from .single_image import SingleImageGaussPSF as other
 
-    if not isinstance(ref, SI):
+    # a Gaussian PSF image is a SingleImage too, but not one of this PSF class
+    if not isinstance(ref, SI) or isinstance(ref, other):
         try:
             ref = SI(ref, smooth_psf=smooth_psf)
         except Exception:
@@ -118,7 +121,7 @@ def subtract(
             except Exception:
                 raise
 
-    if not isinstance(new, SI):
+    if not isinstance(new, SI) or isinstance(new, other):
         try:
             new = SI(new, smooth_psf=smooth_psf)
         except Exception:
-- 
2.43.0


From d4798cbaa2942402c1fd6b7867aaa315d8a68551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 38/47] fix: sign of the principal components was arbitrary,
 turning some PSFs upside down

---
 properimage/single_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 744bd0e..ec26770 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1016,7 +1016,10 @@ class SingleImage(object):
         """Get the eigen values of covariance matrix."""
         if not hasattr(self, "_eigenv"):
             try:
-                self._eigenv = np.linalg.eigh(self.cov_matrix)
+                valh, vech = np.linalg.eigh(self.cov_matrix)
+                # eigenvectors have no sign of their own: stars are positive
+                vech = np.where(vech.sum(axis=0) < 0, -vech, vech)
+                self._eigenv = (valh, vech)
             except np.linalg.LinAlgError:
                 # print('cov matx, nsrcs', self.cov_matrix, self.n_sources)
                 raise ValueError(f"LinAlgError. Mat = {self.cov_matrix}")
-- 
2.43.0


From 5d703e028d9637b039ed18649ea700312a56d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:08 +0000
Subject: [PATCH 39/47] fix: contours of PSF components that are not square
 could not be drawn

---
 properimage/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 9c10e57..b053b5b 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -246,7 +246,8 @@ class Plot:
             fig.colorbar(img, ax=ax, **cmap_kw)
 
             if iso:
-                ax.contour(np.arange(xsh), np.arange(ysh), psf_basis, **iso_kw)
+                # columns run along x and rows along y
+                ax.contour(np.arange(ysh), np.arange(xsh), psf_basis, **iso_kw)
 
         return axs
 
-- 
2.43.0


From 2220e8317e9f156f747ee6fdd362b6b727820da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 40/47] fix: coordinate products of mixed types were truncated
 to the first one

---
 properimage/simtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 0338e0e..c773b52 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -184,7 +184,7 @@ def cartesian_product(arrays):
     broadcastable = np.ix_(*arrays)
     broadcasted = np.broadcast_arrays(*broadcastable)
     rows, cols = reduce(np.multiply, broadcasted[0].shape), len(broadcasted)
-    out = np.empty(rows * cols, dtype=broadcasted[0].dtype)
+    out = np.empty(rows * cols, dtype=np.result_type(*broadcasted))
     start, end = 0, rows
     for a in broadcasted:
         out[start:end] = a.reshape(-1)
-- 
2.43.0


From 379ad01d226042edf5a34294edf77cb6c93dfdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:21 +0000
Subject: [PATCH 41/47] fix: storing a masked image of unsigned integers
 destroyed its pixels

The scaling of the unit subtracted the offset of unsigned types from the
caller's array, wrapping its values around, and stored those.
---
 properimage/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 1b8a921..8b7f807 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -53,8 +53,7 @@ def store_img(img, path=None):
     if isinstance(img, np.ma.core.MaskedArray):
         mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
-        hdu_data = fits.PrimaryHDU(data)
-        hdu_data.scale(type="float32")
+        hdu_data = fits.PrimaryHDU(data.astype("float32"))
         hdu_mask = fits.ImageHDU(mask, uint="uint8")
         hdu_mask.header["IMG_TYPE"] = "BAD_PIXEL_MASK"
         hdu = fits.HDUList([hdu_data, hdu_mask])
-- 
2.43.0


From b99fa00dd6c91f40be3849d2baede3ec77e389dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 42/47] fix: isolated bad pixels were unmasked by the alignment

A pixel of the registered image was masked only if more than 0.4 of it came
from masked pixels, so that a bad pixel falling between pixels was lost and
its value spread on unmasked ones.
---
 properimage/operations.py |  4 +---
 properimage/utils.py      | 33 ++++++++++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 6ab3817..8923451 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -131,9 +131,7 @@ def subtract(
                 raise
 
     if align:
-        registrd, registrd_mask = aa.register(
-            new.data, ref.data, propagate_mask=True
-        )
+        registrd, registrd_mask = u._register(new.data, ref.data)
         #  should it be new = type(new)(  ?
         new = SI(
             registrd[: ref.data.shape[0], : ref.data.shape[1]],
diff --git a/properimage/utils.py b/properimage/utils.py
index 8b7f807..c0fe79f 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -299,6 +299,35 @@ def _align_for_diff(refpath, newpath, newmask=None):
     return dest_file
 
 
+def _register(source, target):
+    """
+    Register an image on the pixel grid of another one.
+
+    Parameters
+    ----------
+    source : array_like
+        image to register, its mask marks the bad pixels
+    target : array_like
+        image whose pixel grid is used
+
+    Returns
+    -------
+    registrd : np.ndarray
+        source on the pixel grid of target
+    mask : np.ndarray of bool
+        True where there is no source data, or where any of the source pixels
+        around is a bad one
+    """
+    transform, _ = aa.find_transform(source, target)
+    registrd, mask = aa.apply_transform(transform, source, target)
+
+    y, x = np.indices(target.shape)
+    x, y = transform.inverse(np.column_stack((x.ravel(), y.ravel()))).T
+    bad = np.ma.getmaskarray(source).astype(float)
+    bad = ndimage.map_coordinates(bad, (y, x), order=1, mode="nearest")
+    return registrd, mask | (bad.reshape(target.shape) > 0)
+
+
 def _align_for_coadd(imglist):
     """
     Algin a group of images for coadding with astroalign.
@@ -321,9 +350,7 @@ def _align_for_coadd(imglist):
     ref = imglist[0]
     new_list = [ref]
     for animg in imglist[1:]:
-        registrd, registrd_mask = aa.register(
-            animg.data, ref.data, propagate_mask=True
-        )
+        registrd, registrd_mask = _register(animg.data, ref.data)
         # [: ref.data.shape[0], : ref.data.shape[1]],  Deprecated
         new_list.append(
             type(animg)(registrd, mask=registrd_mask, borders=False)
-- 
2.43.0


From 6ba1e4669a8860afba34e43ae0624e87dbd53acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 43/47] fix: Gaussian PSF of elongated stars averaged swapped
 widths

---
 properimage/single_image.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index ec26770..aeee9b4 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -27,7 +27,7 @@ from astropy.convolution import interpolate_replace_nans
 from astropy.io import fits
 from astropy.modeling import fitting, models
 from astropy.nddata.utils import extract_array
-from astropy.stats import sigma_clipped_stats
+from astropy.stats import sigma_clip, sigma_clipped_stats
 
 from astroscrappy import detect_cosmics
 
@@ -1488,13 +1488,12 @@ class SingleImageGaussPSF(SingleImage):
 
         Returns
         -------
-        An astropy model Gaussian2D instance, with the median parameters
-        for the fit of every star.
+        An astropy model Gaussian2D instance, with the mean shape of the
+        fits of every star, outliers aside.
         """
         p_xw = []
         p_yw = []
         p_th = []
-        p_am = []
         fitter = utils.fitting.LevMarLSQFitter()
         for i in range(self.n_sources):
             psfi_render = self.db.load(i)[0]
@@ -1505,19 +1504,31 @@ class SingleImageGaussPSF(SingleImage):
             p_xw.append(gaussian.x_stddev.value)
             p_yw.append(gaussian.y_stddev.value)
             p_th.append(gaussian.theta.value)
-            p_am.append(gaussian.amplitude.value)
 
-        mean_xw, med_xw, std_xw = sigma_clipped_stats(p_xw)
-        mean_yw, med_yw, std_yw = sigma_clipped_stats(p_yw)
-        mean_th, med_th, std_th = sigma_clipped_stats(p_th)
-        mean_am, med_am, std_am = sigma_clipped_stats(p_am)
+        # the same profile can be fitted with its widths swapped and turned
+        # by 90 degrees, so the parameters of different stars can not be
+        # averaged one by one: average the (unambiguous) width tensors
+        xw, yw = np.asarray(p_xw), np.asarray(p_yw)
+        cos, sin = np.cos(p_th), np.sin(p_th)
+        widths = np.array(
+            [
+                xw * cos**2 + yw * sin**2,
+                xw * sin**2 + yw * cos**2,
+                (xw - yw) * sin * cos,
+            ]
+        )
+        outlier = np.any(
+            [ma.getmaskarray(sigma_clip(w)) for w in widths], axis=0
+        )
+        wxx, wyy, wxy = np.mean(widths[:, ~outlier], axis=1)
+        half_diff = np.hypot((wxx - wyy) / 2.0, wxy)
 
         mean_model = utils.models.Gaussian2D(
             x_mean=0,
             y_mean=0,
-            x_stddev=mean_xw,
-            y_stddev=mean_yw,
-            theta=mean_th,
+            x_stddev=(wxx + wyy) / 2.0 + half_diff,
+            y_stddev=(wxx + wyy) / 2.0 - half_diff,
+            theta=np.arctan2(2.0 * wxy, wxx - wyy) / 2.0,
             amplitude=1.0,
         )
 
-- 
2.43.0


From 5e7ef45637fd1c4a08b03f1359e769adee2d190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:27 +0000
Subject: [PATCH 44/47] fix: plot_S returned the axes of a new empty figure,
 plot_R none

---
 properimage/plot.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index b053b5b..3bde782 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -101,6 +101,7 @@ def plot_S(S, path=None, nbook=False):
         interpolation="none",
         cmap="viridis",
     )
+    ax = plt.gca()
     plt.tight_layout()
     plt.colorbar()
     if path is not None:
@@ -109,7 +110,7 @@ def plot_S(S, path=None, nbook=False):
         plt.show()
     if not nbook:
         plt.close()
-    return plt.gca()
+    return ax
 
 
 def plot_R(R, path=None, nbook=False):
@@ -133,6 +134,7 @@ def plot_R(R, path=None, nbook=False):
     if isinstance(R, np.ma.masked_array):
         R = R.filled()
     plt.imshow(np.log10(R), interpolation="none", cmap="viridis")
+    ax = plt.gca()
     plt.tight_layout()
     plt.colorbar()
     if path is not None:
@@ -141,7 +143,7 @@ def plot_R(R, path=None, nbook=False):
         plt.show()
     if not nbook:
         plt.close()
-    return
+    return ax
 
 
 # =============================================================================
-- 
2.43.0


From cc3cf93968a51ad4b89e6c7cb9e1fb7a0d9dc4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:27 +0000
Subject: [PATCH 45/47] fix: plot_R could not plot single precision complex
 images

---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 3bde782..de924ce 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -129,7 +129,7 @@ def plot_R(R, path=None, nbook=False):
     -------
     ax : matplotlib axes
     """
-    if isinstance(R[0, 0], complex):
+    if np.iscomplexobj(R):
         R = R.real
     if isinstance(R, np.ma.masked_array):
         R = R.filled()
-- 
2.43.0


From ff7cc0c27b33d5c71b4930d70af0cc091a0e9034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 46/47] fix: sources were detected from the values stored in
 bad pixels of the first rows

---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index aeee9b4..4a05b92 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -592,7 +592,7 @@ class SingleImage(object):
                     f"{thresh_default:.4f} (minarea=9)"
                 )
                 srcs = sep.extract(
-                    self.bkg_sub_img.data,
+                    self.bkg_sub_img.filled(0),
                     thresh=thresh_default,
                     mask=self.mask,
                     minarea=9,
@@ -612,7 +612,7 @@ class SingleImage(object):
                         f"{thresh_high:.4f} (minarea=9)"
                     )
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=thresh_high,
                         mask=self.mask,
                         minarea=9,
@@ -638,7 +638,7 @@ class SingleImage(object):
                         f"{thresh_low:.4f} (minarea=5)"
                     )
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=thresh_low,
                         mask=self.mask,
                         minarea=5,
@@ -653,7 +653,7 @@ class SingleImage(object):
                     )
                     sep.set_extract_pixstack(900000)
                     srcs = sep.extract(
-                        self.bkg_sub_img.data,
+                        self.bkg_sub_img.filled(0),
                         thresh=SEP_THRESH["low"] * self.__bkg.globalrms,
                         mask=self.mask,
                         minarea=9,
@@ -676,7 +676,7 @@ class SingleImage(object):
                 raise ValueError("Few sources detected on image")
             elif len(srcs) == 1:
                 m, med, st = sigma_clipped_stats(
-                    self.bkg_sub_img.data.flatten()
+                    self.bkg_sub_img.compressed()
                 )  # noqa
                 logger.warning(
                     f"Only 1 source detected. Image stats: mean={m:.2f}, "
-- 
2.43.0


From 9488cb10f2fe02f7bba202f33482db8d5accffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:22 +0000
Subject: [PATCH 47/47] fix: values of bad pixels spread into good pixels in an
 alignment

---
 properimage/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/properimage/utils.py b/properimage/utils.py
index c0fe79f..1a4af84 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -318,6 +318,13 @@ def _register(source, target):
         True where there is no source data, or where any of the source pixels
         around is a bad one
     """
+    # the values of bad pixels must not reach the good ones around them
+    source, target = (
+        np.ma.MaskedArray(
+            np.ma.filled(img, np.ma.median(img)), mask=np.ma.getmaskarray(img)
+        )
+        for img in (source, target)
+    )
     transform, _ = aa.find_transform(source, target)
     registrd, mask = aa.apply_transform(transform, source, target)
 
-- 
2.43.0

