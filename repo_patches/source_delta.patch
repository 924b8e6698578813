From 2b9ff1b11263d94d2aaf03d43b43db7ede4f9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 01/32] fix: keep crop and gain when guessing the mask

The mask setter rebuilt the pixel data from the raw input, which silently
discarded the crop, the trimmed borders and the gain for array,
PrimaryHDU and single-extension HDUList inputs.
---
 properimage/single_image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 93188c3..b8ac4f0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -359,11 +359,11 @@ class SingleImage(object):
             # check the fits file and try to find it as an extension
             if self.attached_to == "PrimaryHDU":
                 logger.debug("Source is PrimaryHDU, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img.data)
+                self.__data = ma.masked_invalid(self.__data)
 
             elif self.attached_to == "ndarray":
                 logger.debug("Source is ndarray, masking invalid values")
-                self.__data = ma.masked_invalid(self.__img)
+                self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
                 if self.header["EXTEND"]:
                     logger.info(
@@ -384,7 +384,7 @@ class SingleImage(object):
                     )
                 else:
                     logger.debug("No extensions found, masking invalid values")
-                    self.__data = ma.masked_invalid(self.__img[0].data)
+                    self.__data = ma.masked_invalid(self.__data)
             # if a path is given where we find a fits file search on extensions
             else:
                 try:
-- 
2.43.0


From 5d97f085dd46bf1216d068ea27f6a77418250b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 02/32] fix: crop with a zero trailing margin

A zero margin at the far side gave the slice a:-0, an empty image.
---
 properimage/single_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b8ac4f0..2eda1b1 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -264,7 +264,10 @@ class SingleImage(object):
         if not np.sum(self.crop) == 0.0:
             dx, dy = self.crop
             logger.info(f"Applying crop: dx={dx}, dy={dy}")
-            self.__data = self.__data[dx[0] : -dx[1], dy[0] : -dy[1]]
+            sx, sy = self.__data.shape
+            self.__data = self.__data[
+                dx[0] : sx - dx[1], dy[0] : sy - dy[1]
+            ]
             logger.debug(f"Data shape after crop: {self.__data.shape}")
         logger.debug(f"Applying gain factor: {self.__gain}")
         self.__data = self.__data * self.__gain
-- 
2.43.0


From c122f35b39aca100d78ae0ba07ad99ec716b7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 03/32] fix: accept HDUList images without a mask extension

EXTEND only says that extensions may be present; a list holding just the
primary HDU raised IndexError.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 2eda1b1..dee8e2a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -368,7 +368,7 @@ class SingleImage(object):
                 logger.debug("Source is ndarray, masking invalid values")
                 self.__data = ma.masked_invalid(self.__data)
             elif self.attached_to == "HDUList":
-                if self.header["EXTEND"]:
+                if self.header.get("EXTEND") and len(self.__img) > 1:
                     logger.info(
                         "HDUList has extensions, loading mask from extension 1"
                     )
-- 
2.43.0


From 963fc0f021bb7ac405a7e88855ee7b7928e957e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 04/32] fix: interpolate over the detected cosmic rays

bkg_sub_img returns a new array on every access, so the cosmic ray mask
was set on a temporary and lost: cosmic rays stayed in the cleaned image.
---
 properimage/single_image.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index dee8e2a..d6391c1 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1335,23 +1335,21 @@ class SingleImage(object):
             cr_count = crmask.sum()
             logger.info(f"Cosmic rays detected: {cr_count} pixels")
 
-            self.bkg_sub_img.mask = np.ma.mask_or(
-                self.bkg_sub_img.mask, crmask
-            )
-            self.bkg_sub_img.mask = np.ma.mask_or(
-                self.bkg_sub_img.mask, np.isnan(self.bkg_sub_img)
-            )
-            nan_count = np.isnan(self.bkg_sub_img).sum()
+            bkg_sub_img = self.bkg_sub_img
+            bkg_sub_img.mask = np.ma.mask_or(bkg_sub_img.mask, crmask)
+            nan_pixels = np.isnan(bkg_sub_img.data)
+            bkg_sub_img.mask = np.ma.mask_or(bkg_sub_img.mask, nan_pixels)
+            nan_count = nan_pixels.sum()
             if nan_count > 0:
                 logger.debug(f"Additional NaN pixels found: {nan_count}")
 
-            total_to_interpolate = self.bkg_sub_img.mask.sum()
+            total_to_interpolate = bkg_sub_img.mask.sum()
             logger.info(
                 f"Total pixels to interpolate: {total_to_interpolate} "
-                f"({100 * total_to_interpolate / self.bkg_sub_img.size:.2f}%)"
+                f"({100 * total_to_interpolate / bkg_sub_img.size:.2f}%)"
             )
 
-            img = self.bkg_sub_img.filled(np.nan)
+            img = bkg_sub_img.filled(np.nan)
             img_interp = interpolate_replace_nans(img, kernel, convolve=conv)
 
             iterations = 0
-- 
2.43.0


From 04bf422a12de540de4fca552de9a3afee3d59e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 05/32] fix: refresh cached PSF products when the zero point or
 inf_loss change

The S component and its transform ignored a new zero point, S went stale
when inf_loss was changed and restored, and the normalization image was
never updated for a new PSF basis.
---
 properimage/single_image.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index d6391c1..b3ceb6c 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1199,7 +1199,10 @@ class SingleImage(object):
 
         It uses the psf-basis elements and coefficients.
         """
-        if not hasattr(self, "_normal_image"):
+        if (
+            not hasattr(self, "_normal_image")
+            or self._normal_inf_loss != self.inf_loss
+        ):
             a_fields, psf_basis = self.get_variable_psf()
 
             if a_fields[0] is None:
@@ -1212,6 +1215,7 @@ class SingleImage(object):
                 for a, psf_i in zip(a_fields, psf_basis):
                     conv += convolve_scp(a(x, y), psf_i)
                 self._normal_image = conv
+            self._normal_inf_loss = self.inf_loss
         return self._normal_image
 
     @property
@@ -1264,6 +1268,7 @@ class SingleImage(object):
         if (
             not hasattr(self, "_s_hat_comp")
             or self._s_hat_inf_loss != self.inf_loss
+            or self._s_hat_zp != self.zp
         ):
 
             a_fields, psf_basis = self.get_variable_psf()
@@ -1295,6 +1300,7 @@ class SingleImage(object):
 
             self._s_hat_comp = (self.zp / (var**2)) * s_hat
             self._s_hat_inf_loss = self.inf_loss
+            self._s_hat_zp = self.zp
 
         return self._s_hat_comp
 
@@ -1305,12 +1311,14 @@ class SingleImage(object):
         Uses the measured psf to calculate the matched filter S
         (from propercoadd), and is psf space variant capable.
         """
-        if not hasattr(self, "_s_component"):
+        if (
+            not hasattr(self, "_s_component")
+            or self._s_inf_loss != self.inf_loss
+            or self._s_zp != self.zp
+        ):
             self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
             self._s_inf_loss = self.inf_loss
-
-        if self._s_inf_loss != self.inf_loss:
-            self._s_component = _ifftwn(self.s_hat_comp, norm="ortho").real
+            self._s_zp = self.zp
         return self._s_component
 
     @property
-- 
2.43.0


From 70af96338a3c7621030b4840cf1a271aba4b3f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 06/32] fix: rebuild the PSF basis and coefficients when
 inf_loss is reassigned

After assigning the inf_loss attribute the previously computed basis and
coefficient fields were still returned, even by get_variable_psf called
with that same inf_loss.
---
 properimage/single_image.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b3ceb6c..a67badc 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1024,20 +1024,18 @@ class SingleImage(object):
     @property
     def kl_basis(self):
         """Get the Karhunen-Loeve basis elements."""
-        if not hasattr(self, "_kl_basis"):
-            self._setup_kl_basis()
+        self._setup_kl_basis()
         return self._kl_basis
 
     def _setup_kl_basis(self, inf_loss=None):
         """Determine the KL psf_basis from stars detected in the field."""
-        inf_loss_update = (inf_loss is not None) and (
-            self.inf_loss != inf_loss
-        )
-
-        if not hasattr(self, "_kl_basis") or inf_loss_update:
-            if inf_loss is not None:
-                self.inf_loss = inf_loss
+        if inf_loss is not None:
+            self.inf_loss = inf_loss
 
+        if (
+            not hasattr(self, "_kl_basis")
+            or self._kl_basis_inf_loss != self.inf_loss
+        ):
             valh, vech = self.eigenv
             power = abs(valh) / np.sum(abs(valh))
             pw = 1
@@ -1088,12 +1086,12 @@ class SingleImage(object):
             if len(psf_basis) == 1:
                 psf_basis[0] = psf_basis[0] / np.sum(psf_basis[0])
             self._kl_basis = psf_basis
+            self._kl_basis_inf_loss = self.inf_loss
 
     @property
     def kl_afields(self):
         """Get the Karhunen-Loeve coefficients."""
-        if not hasattr(self, "_a_fields"):
-            self._setup_kl_a_fields()
+        self._setup_kl_a_fields()
         return self._a_fields
 
     def get_afield_domain(self):
@@ -1103,14 +1101,14 @@ class SingleImage(object):
 
     def _setup_kl_a_fields(self, inf_loss=None, updating=False):
         """Calculate coefficients of Karhunen-Loeve expansion."""
-        inf_loss_update = (inf_loss is not None) and (
-            self.inf_loss != inf_loss
-        )
+        if inf_loss is not None:
+            self._setup_kl_basis(inf_loss)
 
-        if not hasattr(self, "_a_fields") or inf_loss_update or updating:
-            if inf_loss is not None:
-                self._setup_kl_basis(inf_loss)
-                self.inf_loss = inf_loss
+        if (
+            not hasattr(self, "_a_fields")
+            or self._a_fields_inf_loss != self.inf_loss
+            or updating
+        ):
             # get the psf basis
             psf_basis = self.kl_basis
             n_fields = len(psf_basis)
@@ -1118,6 +1116,7 @@ class SingleImage(object):
             # if only one psf then the afields is  [None]
             if n_fields == 1:
                 self._a_fields = [None]
+                self._a_fields_inf_loss = self.inf_loss
                 return self._a_fields
 
             # get the sources for observations
@@ -1138,6 +1137,7 @@ class SingleImage(object):
 
                 a_fields.append(fit)
             self._a_fields = a_fields
+            self._a_fields_inf_loss = self.inf_loss
 
     def get_variable_psf(self, inf_loss=None, shape=None):
         """
-- 
2.43.0


From cf8935bf03c1a8aad57204398597201448326a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 07/32] fix: local PSF near the image edges

get_psf_xy sliced the normalization image outside of its bounds and
raised for any position closer to an edge than half a stamp.
---
 properimage/single_image.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index a67badc..929588a 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1435,11 +1435,19 @@ class SingleImage(object):
             xmax = xp + delta + 1
             ymin = yp - delta
             ymax = yp + delta + 1
+            # out of the frame the nearest normalization pixel is used
+            xs, ys = self.data.shape
+            normal = self.normal_image[
+                np.ix_(
+                    np.clip(np.arange(xmin, xmax), 0, xs - 1),
+                    np.clip(np.arange(ymin, ymax), 0, ys - 1),
+                )
+            ]
             for apsf, afield in zip(psf_basis, a_fields):
                 psf_at_xy += (
                     apsf
                     * afield(*np.mgrid[xmin:xmax, ymin:ymax])
-                    / self.normal_image[xmin:xmax, ymin:ymax]
+                    / normal
                 )
 
             return psf_at_xy / np.sum(psf_at_xy)
-- 
2.43.0


From e14ab9790fd2a1d974ad8e15131e3bed0e18bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 08/32] fix: always return a full bad pixel mask

mask_or shrinks an all-False mask to the scalar nomask, so subtract and
coadd returned a numpy bool instead of the documented mask array when no
pixel was bad.
---
 properimage/operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 2194fbb..9641df3 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -145,7 +145,7 @@ def subtract(
         raise ValueError("N and R arrays are of different size")
 
     t0 = time.time()
-    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask)
+    mix_mask = np.ma.mask_or(new.data.mask, ref.data.mask, shrink=False)
 
     zps, meanmags = u.transparency([ref, new])
     ref.zp = zps[0]
@@ -450,7 +450,7 @@ def process_chunk_joblib(chunk, global_shape):
             psf_hat_sum,
             out=psf_hat_sum,
         )
-        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+        mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask, shrink=False)
     return S_hat.real, S_hat.imag, psf_hat_sum.real, psf_hat_sum.imag, mix_mask
 
 
@@ -540,7 +540,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
             np.add(S_hat_imag, S_hat.imag, out=S_hat.imag)
             np.add(psf_hat_sum_real, P_hat.real, out=P_hat.real)
             np.add(psf_hat_sum_imag, P_hat.imag, out=P_hat.imag)
-            mix_mask = np.ma.mask_or(mix_mask, mask)
+            mix_mask = np.ma.mask_or(mix_mask, mask, shrink=False)
 
         logger.info("Computing final coadd image")
         P_r_hat = np.sqrt(P_hat)
@@ -561,7 +561,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
                 P_hat,
                 out=P_hat,
             )
-            mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask)
+            mix_mask = np.ma.mask_or(mix_mask, an_img.data.mask, shrink=False)
         tf = time.time()
         logger.info(
             f"Sequential processing completed in {tf - ti:.2f} seconds"
-- 
2.43.0


From ce2bfedf01529d71c0ec8acd095389b8eec43b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 09/32] fix: coadd with more workers than images

The split then has empty chunks, on which the workers raised IndexError.
---
 properimage/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index 9641df3..f73814a 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -516,7 +516,7 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
     n_jobs = n_procs
     if n_jobs > 1:
         logger.info(f"Using parallel processing with {n_jobs} workers")
-        chunks = list(u.chunk_it(img_list, n_jobs))
+        chunks = [c for c in u.chunk_it(img_list, n_jobs) if len(c) > 0]
         ti = time.time()
         results = Parallel(n_jobs=n_jobs, backend="threading")(
             delayed(process_chunk_joblib)(chunk, global_shape)
-- 
2.43.0


From c87d8a9cc09cb993df6e360939100c27986c4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 10/32] fix: center the fitted PSF of non square images

The x axis of the Gaussian model runs along columns; with the axes
swapped the PSF of a non square image fell at the border or out of the
frame, and the subtraction was filled with NaN.
---
 properimage/operations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index f73814a..be59033 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -164,10 +164,10 @@ def subtract(
         p_r = psf_ref[1]
         p_n = psf_new[1]
 
-        p_r.x_mean = ref.data.data.shape[0] / 2.0
-        p_r.y_mean = ref.data.data.shape[1] / 2.0
-        p_n.x_mean = new.data.data.shape[0] / 2.0
-        p_n.y_mean = new.data.data.shape[1] / 2.0
+        p_r.x_mean = ref.data.data.shape[1] / 2.0
+        p_r.y_mean = ref.data.data.shape[0] / 2.0
+        p_n.x_mean = new.data.data.shape[1] / 2.0
+        p_n.y_mean = new.data.data.shape[0] / 2.0
         p_r.bounding_box = None
         p_n.bounding_box = None
 
-- 
2.43.0


From 58228396f848c3c8f5ba62b01576fb2975aa11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 11/32] fix: number the master sources afresh in transparency

A master catalog that had been matched before kept its old sourceid
column, with repeated ids for unmatched sources, and the zero points
were computed from mismatched stars.
---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index f571ad2..96efb9b 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -174,7 +174,7 @@ def transparency(images, master=None):
             dtypes=int,
         )
     except ValueError:
-        pass
+        mastercat["sourceid"] = np.arange(len(mastercat))
 
     detect = np.repeat(True, len(mastercat))
     #  Matching the sources
-- 
2.43.0


From 8a6deb79435e1bace7c02487a331bc8195a15a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 12/32] fix: order of the magnitudes in the transparency system

The magnitudes were filled star by star while the design matrix has one
block of rows per image, so the zero points were wrong for three or more
images.
---
 properimage/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 96efb9b..809cd7f 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -214,9 +214,10 @@ def transparency(images, master=None):
             -2.5 * np.log10(mastercat[mastercat["detected"]]["flux"]) + 20.0
         )
 
+        # one block of q magnitudes per image, as the rows of H below
         j = 0
-        for row in mastercat[mastercat["detected"]]:
-            for img in imglist:
+        for img in imglist:
+            for row in mastercat[mastercat["detected"]]:
                 cat = img.best_sources
                 imgfluxes = cat[cat["sourceid"] == row["sourceid"]]["flux"]
                 m[q + j] = -2.5 * np.log10(imgfluxes[0]) + 20.0
-- 
2.43.0


From 950b2bbe6f3f69081ad130e2f7a00b4df7ee2d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 13/32] fix: the first master source counts as matched

The matching mask used ids greater than zero, leaving out id 0.
---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 809cd7f..25f17b7 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -133,7 +133,7 @@ def _matching(master, cat, masteridskey=None, radius=1.5, masked=False):
                     IDs[i] = master[idkey][ind_o]
 
     if masked:
-        mask = IDs > 0
+        mask = IDs != -13133
         return (IDs, mask)
     return IDs
 
-- 
2.43.0


From 9d2bbec1211c083842bababca237c21c0e4c7287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 14/32] fix: honour iso_kw in the autopsf plot

---
 properimage/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index c5f84c9..174847f 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -231,7 +231,8 @@ class Plot:
         kwargs.setdefault("interpolation", "none")
 
         iso_kw = iso_kw or {}
-        iso_kw = {"colors": "black", "alpha": 0.5}
+        iso_kw.setdefault("colors", "black")
+        iso_kw.setdefault("alpha", 0.5)
 
         cmap_kw = cmap_kw or {}
         cmap_kw.setdefault("shrink", 0.85)
-- 
2.43.0


From c6d7683b965c4cb803a26c3e4cbdfe3766ae8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 15/32] fix: Airy disc value at the center

The center pixel of odd sized patterns was 0/0, NaN.
---
 properimage/simtools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 76d8ae6..7be67f5 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -89,6 +89,8 @@ def _airy_func(rr, width, amplitude=1.0):
     (normalized) radius
     """
     r = float(rr) / width
+    if r == 0:
+        return amplitude * 1.0
     return amplitude * (2.0 * sp.special.j1(r) / r) ** 2
 
 
-- 
2.43.0


From 97593c9d6135a7f89be6448db3b684ecc386213d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 16/32] fix: trim exactly the zero borders

The scan mixed up the image axes: unless the borders had the same width
on every side it dropped rows or columns with data, kept empty ones, or
failed with a NameError.
---
 properimage/single_image.py | 51 ++++++-------------------------------
 1 file changed, 8 insertions(+), 43 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 929588a..45a60f8 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -213,49 +213,14 @@ class SingleImage(object):
                 self.__data = ma.asarray(img.data).astype("<f4")
         if self.borders:
             logger.debug("Detecting and removing image borders")
-            sx, sy = self.__data.shape
-            line = self.__data.data[sx // 2, :]
-            pxsum = 0
-            for x, px in enumerate(line):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldx = x
-                    break
-            for dx in range(ldx):
-                if not np.sum(self.__data.data[:dx, :]) == 0:
-                    ldx = dx
-                    break
-            pxsum = 0
-            for x, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdx = sx - x
-                    break
-            for dx in range(x):
-                if not np.sum(self.__data.data[-dx - 1 :, :]) == 0:
-                    rdx = sx - dx
-                    break
-            col = self.__data.data[:, sy // 2]
-            pxsum = 0
-            for y, px in enumerate(col):
-                pxsum += px
-                if pxsum > 0.0:
-                    ldy = y
-                    break
-            for dy in range(ldy):
-                if not np.sum(self.__data.data[:, :dy]) == 0:
-                    ldy = dy
-                    break
-            pxsum = 0
-            for y, px in enumerate(np.flip(line, axis=0)):
-                pxsum += px
-                if pxsum > 0.0:
-                    rdy = sy - y
-                    break
-            for dy in range(y):
-                if not np.sum(self.__data.data[:, -dy - 1 :]) == 0:
-                    rdy = sy - dy
-                    break
+            nonzero = self.__data.data != 0
+            rows = np.flatnonzero(nonzero.any(axis=1))
+            cols = np.flatnonzero(nonzero.any(axis=0))
+            ldx, ldy = 0, 0
+            rdx, rdy = self.__data.shape
+            if rows.size > 0:
+                ldx, rdx = rows[0], rows[-1] + 1
+                ldy, rdy = cols[0], cols[-1] + 1
             logger.info(f"Cropping borders: x[{ldx}:{rdx}], y[{ldy}:{rdy}]")
             self.__data = self.__data[ldx:rdx, ldy:rdy]
             logger.debug(
-- 
2.43.0


From 0b87ad4683c7bf21384f768f8e70f40ecce5728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 17/32] fix: delta_point weights

The weights were assigned to the positions in reverse order, and the
documented call with a zip of positions and no weights raised TypeError.
---
 properimage/simtools.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 7be67f5..93e4607 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -212,13 +212,9 @@ def delta_point(N, center=True, xy=None, weights=None):
     if center:
         m[int(N / 2.0), int(N / 2.0)] = 1.0
     else:
-        if weights is None:
-            weights = np.ones(shape=len(xy))
-        j = -1
-        for x, y in xy:
-            w = weights[j]
+        for j, (x, y) in enumerate(xy):
+            w = 1.0 if weights is None else weights[j]
             m[int(x), int(y)] = 1.0 * w
-            j -= 1
     return m
 
 
-- 
2.43.0


From eb82adaa82adb7d380b52e518a9519ceab74ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 18/32] fix: disable the strict star pick when there are few
 candidates

The flag was cleared under another name, so it stayed on.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 45a60f8..a62ceb0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -764,7 +764,7 @@ class SingleImage(object):
                 logger.info(
                     f"{n_cand_srcs} candidates, disabling strict star pick"
                 )
-                self.strict_star_pick = False
+                self._strict_star_pick = False
 
             for row in self.best_sources:
                 position = (row["y"], row["x"])
-- 
2.43.0


From 20c72c9b862ef286c5f68038eeb39f32a2f885dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 19/32] fix: integer padding of the star stamps

np.pad rejects the float widths of a stamp whose margins were accepted
before the last enlargement.
---
 properimage/single_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index a62ceb0..a9fc3d4 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -809,8 +809,8 @@ class SingleImage(object):
                 sub_array_data -= np.median(sub_array_data[star_bg])
 
                 pad_dim = (
-                    (self.stamp_shape[0] - new_shape[0] + STAMP_PADSIZE) / 2,
-                    (self.stamp_shape[1] - new_shape[1] + STAMP_PADSIZE) / 2,
+                    (self.stamp_shape[0] - new_shape[0] + STAMP_PADSIZE) // 2,
+                    (self.stamp_shape[1] - new_shape[1] + STAMP_PADSIZE) // 2,
                 )
 
                 if not pad_dim == (0, 0):
-- 
2.43.0


From 4be4f2061b0b125dac2414ec1c2515321de25ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 20/32] fix: coadd leaves the list of the caller alone

The entries of the list that was passed in were replaced by SingleImage
instances; a tuple of paths raised TypeError.
---
 properimage/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/properimage/operations.py b/properimage/operations.py
index be59033..3a4a465 100644
--- a/properimage/operations.py
+++ b/properimage/operations.py
@@ -482,9 +482,9 @@ def coadd(si_list, align=True, inf_loss=0.2, n_procs=2):
         f"Alignment: {align}, inf_loss: {inf_loss}, n_procs: {n_procs}"
     )
 
-    for i_img, animg in enumerate(si_list):
-        if not isinstance(animg, si):
-            si_list[i_img] = si(animg)
+    si_list = [
+        animg if isinstance(animg, si) else si(animg) for animg in si_list
+    ]
 
     if align:
         logger.info("Aligning images for coadd")
-- 
2.43.0


From 858f6b0c9764e65d7b2f20cb5679b0ea3a3fbab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 21/32] fix: mask invalid pixels of FITS files without
 extensions

Only files whose header says that extensions may be present had their
NaN and infinite pixels masked.
---
 properimage/single_image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index a9fc3d4..b52be42 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -391,6 +391,8 @@ class SingleImage(object):
                                 self.__data = ma.masked_invalid(
                                     self.__data.data
                                 )
+                        else:
+                            self.__data = ma.masked_invalid(self.__data)
 
                     else:
                         logger.debug("No EXTEND header, checking saturation")
@@ -401,6 +403,7 @@ class SingleImage(object):
                                 f"{masked.mask.sum()} pixels masked"
                             )
                             self.__data = masked
+                        self.__data = ma.masked_invalid(self.__data)
                 except IOError as e:
                     logger.warning(
                         f"Could not open FITS file ({e}), masking invalid"
-- 
2.43.0


From 45e43ff6c4c7b9930409cceffe865c255bdfb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 22/32] fix: store single precision and masked complex images

The first pixel was asked whether it is a Python complex, which the pixels of
single precision complex images and a masked first pixel are not.
---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 25f17b7..edc0f5c 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -47,7 +47,7 @@ def store_img(img, path=None):
     Returns:
         HDUList: The astropy.io.fits.HDUList image
     """
-    if isinstance(img[0, 0], complex):
+    if np.iscomplexobj(img):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-- 
2.43.0


From c934ea598ddf639e86075b3e660a046a758a2013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 23/32] fix: contours of non square PSF components

---
 properimage/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 174847f..5e9f94d 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -248,7 +248,7 @@ class Plot:
             fig.colorbar(img, ax=ax, **cmap_kw)
 
             if iso:
-                ax.contour(np.arange(xsh), np.arange(ysh), psf_basis, **iso_kw)
+                ax.contour(np.arange(ysh), np.arange(xsh), psf_basis, **iso_kw)
 
         return axs
 
-- 
2.43.0


From 0b580877256a6bec6fa556fdf67a54460f3ea572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 24/32] fix: local PSF for even and non square stamp shapes

---
 properimage/single_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index b52be42..ec51ee0 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1397,12 +1397,12 @@ class SingleImage(object):
 
         if a_fields[0] is not None:
             psf_at_xy = np.zeros_like(psf_basis[0])
-            delta = int((psf_at_xy.shape[0] - 1) / 2)
+            nx, ny = psf_at_xy.shape
             xp, yp = int(np.round(x)), int(np.round(y))
-            xmin = xp - delta
-            xmax = xp + delta + 1
-            ymin = yp - delta
-            ymax = yp + delta + 1
+            xmin = xp - int((nx - 1) / 2)
+            xmax = xmin + nx
+            ymin = yp - int((ny - 1) / 2)
+            ymax = ymin + ny
             # out of the frame the nearest normalization pixel is used
             xs, ys = self.data.shape
             normal = self.normal_image[
-- 
2.43.0


From f7a4543e2beafc7df64fed69ce08a5d008a317e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 25/32] fix: private stamp storage for images of forked
 processes

The directory is made at import, so it is shared by forked workers, whose
images often have the same id: they overwrote each other's stamps.
---
 properimage/single_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index ec51ee0..4c4b699 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -141,7 +141,9 @@ class SingleImage(object):
         self.stamp_shape = stamp_shape
         self.inf_loss = 0.2
         self._smooth_autopsf = smooth_psf
-        self.dbname = str(TEMP_PATH / f"{id(self)}_SingleImage")
+        self.dbname = str(
+            TEMP_PATH / f"{os.getpid()}_{id(self)}_SingleImage"
+        )
 
         self._plot = plot.Plot(self)
 
-- 
2.43.0


From 3dac98276111fd5df906c939892c274d96d5139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 26/32] fix: refuse a single axes for several PSF components
 with a ValueError

The message counted the given axes with len(), which a single Axes does not
have, so that a TypeError was raised instead.
---
 properimage/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/properimage/plot.py b/properimage/plot.py
index 5e9f94d..73ff6ec 100644
--- a/properimage/plot.py
+++ b/properimage/plot.py
@@ -223,7 +223,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         xsh, ysh = psf_basis[0].shape
@@ -288,7 +288,7 @@ class Plot:
 
         if N > np.size(axs):
             raise ValueError(
-                f"You must provide at least {N} axs. Found {len(axs)}"
+                f"You must provide at least {N} axs. Found {np.size(axs)}"
             )
 
         cmap_kw = cmap_kw or {}
-- 
2.43.0


From c373c3279d70413f410df02c22fcca1279e0900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 27/32] fix: storing a masked image without any mask raised
 TypeError

---
 properimage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index edc0f5c..560e6e7 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -51,7 +51,7 @@ def store_img(img, path=None):
         img = img.real
 
     if isinstance(img, np.ma.core.MaskedArray):
-        mask = img.mask.astype("int")
+        mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
         hdu_data = fits.PrimaryHDU(data)
         hdu_data.scale(type="float32")
-- 
2.43.0


From 8adae48ecd110c5f611921399d8830c3bc4875a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:32 +0000
Subject: [PATCH 28/32] fix: masked images of unsigned integers were stored
 with wrong pixel values

---
 properimage/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/properimage/utils.py b/properimage/utils.py
index 560e6e7..9479b92 100644
--- a/properimage/utils.py
+++ b/properimage/utils.py
@@ -53,8 +53,7 @@ def store_img(img, path=None):
     if isinstance(img, np.ma.core.MaskedArray):
         mask = np.ma.getmaskarray(img).astype("int")
         data = img.data
-        hdu_data = fits.PrimaryHDU(data)
-        hdu_data.scale(type="float32")
+        hdu_data = fits.PrimaryHDU(data.astype("float32"))
         hdu_mask = fits.ImageHDU(mask, uint="uint8")
         hdu_mask.header["IMG_TYPE"] = "BAD_PIXEL_MASK"
         hdu = fits.HDUList([hdu_data, hdu_mask])
-- 
2.43.0


From 0053e4d2e3c1a16520e0d8395bb71d7bed08c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 29/32] fix: no more PSF components than stars for more than
 250 stars

When rounding leaves a positive rest after all the components (a loss of
zero), the truncation counts one more component than there are, and the
construction for more than 250 stars raised IndexError.
---
 properimage/single_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 4c4b699..2bf77a5 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -1018,8 +1018,8 @@ class SingleImage(object):
                     break
 
             #  Build psf basis
-            n_basis = abs(cut)
             xs = vech[:, -cut:]
+            n_basis = xs.shape[1]
             psf_basis = []
             if hasattr(self, "_m"):
                 logger.debug(
-- 
2.43.0


From 8dd43654801b29eb2bdffb3c78b8521e9c05fa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 30/32] fix: measuring the star stamps leaves the cleaned image
 as it is

---
 properimage/single_image.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/properimage/single_image.py b/properimage/single_image.py
index 2bf77a5..6f104ab 100644
--- a/properimage/single_image.py
+++ b/properimage/single_image.py
@@ -806,7 +806,9 @@ class SingleImage(object):
 
                 new_shape = sub_array_data.shape
                 # Normalize to unit sum
-                sub_array_data += np.abs(np.min(sub_array_data))
+                sub_array_data = sub_array_data + np.abs(
+                    np.min(sub_array_data)
+                )
                 star_bg = np.where(
                     sub_array_data
                     < np.percentile(np.abs(sub_array_data), q=70)
-- 
2.43.0


From b7e4a44879c98083dfb202b04dbc66bb57c1b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 31/32] fix: simulated PSFs narrower than half a pixel or of a
 single pixel were NaN

The loop over the tails was empty, so the PSF was 0/0.
---
 properimage/simtools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 93e4607..2e89d65 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -51,8 +51,11 @@ def Psf(N, X_FWHM, Y_FWHM=0, theta=0):
     sigma = max(sigma_x, sigma_y)
     tail_len = min(int(5 * sigma), N / 2)
     mu_int = int(mu)
-    for i in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
-        for j in range(int(mu_int - tail_len), int(mu_int + tail_len), 1):
+    # at least the central pixel
+    first = int(mu_int - tail_len)
+    last = max(int(mu_int + tail_len), mu_int + 1)
+    for i in range(first, last, 1):
+        for j in range(first, last, 1):
             a[i, j] = stats.norm.pdf(
                 i, loc=mu, scale=sigma_x
             ) * stats.norm.pdf(j, loc=mu, scale=sigma_y)
-- 
2.43.0


From 566ef3a6aca88de8dbe74c9ccb53b1e108062b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:06 +0000
Subject: [PATCH 32/32] fix: astropy_Psf failed or wrapped around in frames
 smaller than its tails

The tails ran over the frame (IndexError, or negative indices), and were
empty for narrow widths.
---
 properimage/simtools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/properimage/simtools.py b/properimage/simtools.py
index 2e89d65..9ccc3d3 100644
--- a/properimage/simtools.py
+++ b/properimage/simtools.py
@@ -79,7 +79,10 @@ def astropy_Psf(N, FWHM):
     )
     tail_len = int(7 * sigma)
     mu_int = int(mu)
-    i = range(mu_int - tail_len, mu_int + tail_len, 1)
+    # inside of the frame, at least the central pixel
+    first = max(mu_int - tail_len, 0)
+    last = min(max(mu_int + tail_len, mu_int + 1), N)
+    i = range(first, last, 1)
     for ii, jj in cartesian_product([i, i]):
         psf[ii, jj] = model(ii, jj)
     return psf / np.sum(psf)
-- 
2.43.0

