From a05a1b42ebb28466d4e4ab3a4841f4e2d6e056fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 01/10] fix: interpolate_image_at_mask with no pixel left to
 interpolate

An image without bad pixels, or whose bad pixels were all filled with noise,
raised 'No points given' from the triangulation; return the image instead.
---
 metadetect/interpolate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index 7130ae9..c1b9724 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -203,6 +203,10 @@ def interpolate_image_at_mask(
                     size=shape, scale=1.0/np.sqrt(weight)
                 )
 
+        if bad_ind.size == 0:
+            # nothing left to interpolate
+            return interp_image
+
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-- 
2.43.0


From 8dc53112c30de1a69f03b1081059fd63736b977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 02/10] fix: get_mfrac_mbexp with no masked fraction exposures

---
 metadetect/lsst/metadetect.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 2bc7deb..df09f9f 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -481,11 +481,16 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
     ----------
     mbexp: lsst.afw.image.MultibandExposure
         The exposures to process
+    mfrac_mbexp: lsst.afw.image.MultibandExposure or None
+        The masked fractions; None means nothing is masked
 
     Returns
     -------
     mfrac: array
     """
+    if mfrac_mbexp is None:
+        mfrac_mbexp = [None] * len(mbexp)
+
     wgts = []
 
     wsum = 0.0
@@ -503,10 +508,15 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
         wgts.append(wgt)
         wsum += wgt
 
+        if mfrac_exp is None:
+            this_mfrac = np.zeros(varray.shape)
+        else:
+            this_mfrac = mfrac_exp.image.array
+
         if mfrac is None:
-            mfrac = wgt * mfrac_exp.image.array
+            mfrac = wgt * this_mfrac
         else:
-            mfrac += wgt * mfrac_exp.image.array
+            mfrac += wgt * this_mfrac
 
     mfrac *= 1.0 / wsum
 
-- 
2.43.0


From b7ab9d4821cda50a19b5fe2127f7d1032fb19e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 03/10] fix: rows and columns in measure_weighted_mfrac

---
 metadetect/lsst/metadetect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index df09f9f..7b8fdd2 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -408,7 +408,11 @@ def measure_weighted_mfrac(
         if yend > ny:
             yend = ny
 
-        sub_mfrac = mfrac[xstart:xend, ystart:yend]
+        # no pixels when the box is entirely below or left of the image
+        xend = max(xend, 0)
+        yend = max(yend, 0)
+
+        sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
             mfracs.append(1.0)
         else:
-- 
2.43.0


From 1f06a3e6896703b54e10a95eacac5f10825aee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 04/10] fix: report original psf failures in
 fit_original_psfs_mbexp

---
 metadetect/lsst/metadetect.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 7b8fdd2..731a803 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -649,13 +649,16 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
         flags = procflags.PSF_FAILURE
         e1 = -9999.0
         e2 = -9999.0
+        g1 = -9999.0
+        g2 = -9999.0
         T = -9999.0
 
         perband = None
 
-    assert navg == len(shear_band_indices), (
-        f'summed {navg} but expected {len(shear_band_indices)}'
-    )
+    if flags == 0:
+        assert navg == len(shear_band_indices), (
+            f'summed {navg} but expected {len(shear_band_indices)}'
+        )
 
     return {
         'flags': flags,
-- 
2.43.0


From 833b3dcf4d8761ce1385aa1185edc9ad85af59dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 05/10] fix: override_config for stamp_size

---
 metadetect/lsst/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 942d006..4b409cd 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1229,10 +1229,7 @@ def override_config(config, config_override: dict):
             # Use recursion to allow for arbitrarily nested config objects.
             override_config(subconfig, value)
         else:
-            if key == 'stamp_size':
-                config.toDict()[key] = value
-            else:
-                setattr(config, key, value)
+            setattr(config, key, value)
 
 
 def get_fitter(config, rng=None):
-- 
2.43.0


From 1c1a851a457301bfae46301ef4cd042807a2118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 06/10] fix: MBObsExtractor.get_stamp uses the bands of the
 exposure

---
 metadetect/lsst/mbobs_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/mbobs_extractor.py b/metadetect/lsst/mbobs_extractor.py
index aeac9ed..9c0882b 100644
--- a/metadetect/lsst/mbobs_extractor.py
+++ b/metadetect/lsst/mbobs_extractor.py
@@ -130,7 +130,7 @@ class MBObsExtractor(object):
             clip=clip,
         )
 
-        exposures = [self.mbexp[band][bbox] for band in self.bands]
+        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
         return util.get_mbexp(exposures)
 
     def get_mbobs(
-- 
2.43.0


From 28303e01deaef791542537072989acd5a3c8e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 07/10] fix: ModelSubtractor.get_bbox without a stamp size

---
 metadetect/lsst/model_subtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9548bbb..c566a74 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -409,7 +409,7 @@ class ModelSubtractor(object):
                     )
 
         else:
-            parent_id, fp = self.footprints[source_id]
+            fp = self.footprints[source_id]
             bbox = fp.getBBox()
 
         return bbox
-- 
2.43.0


From 0a88a6cd7dcd5e9e4a6a9317951fdece4f83c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 08/10] fix: DetectAndDeblendTask.run without a detection image

---
 metadetect/lsst/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e29ddef..e8881fa 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -175,7 +175,7 @@ class DetectAndDeblendTask(Task):
         if len(mbexp.singles) > 1:
             detexp = util.coadd_exposures(mbexp.singles)
             if detexp is None:
-                return [], None
+                return [], None, None
         else:
             detexp = mbexp.singles[0]
 
-- 
2.43.0


From 7a7250432db1dec8e41541a4db1f474dee6b7a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:59 +0000
Subject: [PATCH 09/10] fix: bmask values of deblended children

---
 metadetect/lsst/measure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e8881fa..ec955be 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -361,15 +361,13 @@ def measure(
     wcs = mbexp.singles[0].getWcs()
     results = []
 
-    bmasks = get_bmasks(sources=sources, exposure=detexp)
-
     extractor = _get_extractor(
         mbexp=mbexp,
         sources=sources,
         model_data=model_data,
     )
 
-    for i, source in enumerate(extractor.children()):
+    for source in extractor.children():
 
         # perform basic measurements using stack algorithms
         # see DetectAndDeblendConfig for details
@@ -377,7 +375,7 @@ def measure(
 
         source_id = source.getId()
 
-        bmask = bmasks[i]
+        bmask = get_bmask(source=source, exposure=detexp)
 
         stamp_flags = 0
         try:
-- 
2.43.0


From 94125b4300dc233644e02c3d275e7f86cba1446b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 10/10] fix: skip exposures without usable data in
 coadd_exposures

The median of no variances is nan, which turned the whole coadd, its variance
and its psf to nan instead of leaving that exposure out (or returning None
when no exposure has usable data).
---
 metadetect/lsst/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 4b409cd..09e560c 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -500,6 +500,10 @@ def coadd_exposures(exposures):
         coadd_exp.mask.array |= exp.mask.array
 
         w = np.where(exp.variance.array > 0)
+        if w[0].size == 0:
+            # no usable data in this exposure
+            continue
+
         medvar = np.median(exp.variance.array[w])
         this_weight = 1.0 / medvar
 
-- 
2.43.0

