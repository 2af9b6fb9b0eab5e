From ae5843a1b5c37ab057912dbcc852ab7db92b1289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:01 +0000
Subject: [PATCH 01/94] fix: local WCS scale is correct when the numerical step
 crosses RA=0

---
 forcepho/utils/wcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/utils/wcs.py b/forcepho/utils/wcs.py
index dec7388..ec05b87 100644
--- a/forcepho/utils/wcs.py
+++ b/forcepho/utils/wcs.py
@@ -129,6 +129,8 @@ def scale_at_sky(sky, wcs, dpix=1.0, make_approx=False):
         # compute dpix_dsky matrix
         P = np.eye(2) * dpix
         St = np.array([pos1_sky - pos0_sky, pos2_sky - pos0_sky])
+        # RA is periodic; the steps are small even if they cross RA=0
+        St[:, 0] = (St[:, 0] + 180.0) % 360.0 - 180.0
         CW_mat = np.linalg.solve(St, P).T
 
         # compute D matrix
-- 
2.43.0


From 20c5c9b3be2049b05a705dd8f93e13e2cd04fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:07 +0000
Subject: [PATCH 02/94] fix: refuse more than MAXSOURCES sources before the CPU
 kernel overruns its buffers

---
 forcepho/proposal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forcepho/proposal.py b/forcepho/proposal.py
index 4bd3bd5..7545f90 100644
--- a/forcepho/proposal.py
+++ b/forcepho/proposal.py
@@ -199,9 +199,13 @@ class CPUProposer(ProposerBase):
             The residual image (data - model) for each exposure.  No padding.
             Only returned if patch.return_residual.
         """
+        n_bands, n_sources = patch.n_bands, patch.n_sources
+        if n_sources > MAXSOURCES:
+            # the kernel accumulates derivatives in buffers of size MAXSOURCES
+            raise ValueError(f"Cannot evaluate {n_sources} sources at once; the limit is {MAXSOURCES}")
+
         self.device_proposal = self.send_to_device(proposal)
 
-        n_bands, n_sources = patch.n_bands, patch.n_sources
         chi_out = np.empty(n_bands, dtype=self.chi_dtype)
         chi_derivs_out = np.empty([n_bands, n_sources, NPARAMS])
 
-- 
2.43.0


From 742a42bb0e5273c825923f9b5c6242fe5e194f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:35 +0000
Subject: [PATCH 03/94] fix: DirectPatch finds its exposures, in the requested
 bands and band order

---
 forcepho/patches/pixel_patch.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index d0f3d58..c5f2e6d 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -531,17 +531,16 @@ class DirectPatch(PixelPatch):
         self.unc = None
 
     def find_exposures(self, region, bandlist, do_check=True):
-        epaths = list(self.wcs_dict.keys())
-        bands, hdrs, wcses = [], [], []
-
-        for epath in epaths:
-            hdr = self.header_dict[epath]
-            wcs = WCS(hdr)
-            band = hdr["FILTER"]
+        epaths, bands, hdrs, wcses = [], [], [], []
 
-            wcses.append(wcs)
-            bands.append(band)
-            hdrs.append(hdr)
+        for band in bandlist:
+            for epath, hdr in self.header_dict.items():
+                if hdr["FILTER"] != band:
+                    continue
+                epaths.append(epath)
+                wcses.append(WCS(hdr))
+                bands.append(band)
+                hdrs.append(hdr)
 
         return hdrs, wcses, epaths, bands
 
-- 
2.43.0


From 49713ca82198c5e28cacc5df8759be9a5780a0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:35 +0000
Subject: [PATCH 04/94] fix: StorePatch loads the WCSs it searches for
 exposures; a new MetaStore can be searched

---
 forcepho/patches/pixel_patch.py | 2 +-
 forcepho/patches/storage.py     | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index c5f2e6d..8878645 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -250,7 +250,7 @@ class StorePatch(PixelPatch):
                          splinedata=splinedata,
                          spline_smoothing=spline_smoothing)
 
-        self.metastore = MetaStore(metastore)
+        self.metastore = MetaStore(metastore, load_all=True)
         self.pixelstore = PixelStore(pixelstore)
 
     def find_exposures(self, region, bandlist):
diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 1e6b5c4..47dba9a 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -313,6 +313,7 @@ class MetaStore:
     def __init__(self, metastorefile=None, use_gwcs=False, load_all=False):
         self.headers = {}
         self.tree = {}
+        self.wcs = {}
         if metastorefile is not None:
             self.headers = self.read_from_file(metastorefile)
             # GWCS?
@@ -325,8 +326,6 @@ class MetaStore:
             if load_all:
                 # build all the wcses
                 self.populate_wcs(gwcs_file=self.gwcs_file)
-            else:
-                self.wcs = {}
 
     def populate_wcs(self, gwcs_file=None):
         """Fill the dict of dict with WCS instances (based on either normal
-- 
2.43.0


From 84a34694b1309051ea7e28ac85ab245bf8d7739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:35 +0000
Subject: [PATCH 05/94] fix: MetaStore.find_exposures uses both dimensions of
 non-square images

---
 forcepho/patches/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index 47dba9a..db69780 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -467,7 +467,7 @@ class MetaStore:
                 imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                 bbox = np.array([[0, 0],
                                  [0, imsize[1]],
-                                 [imsize[0], imsize[0]],
+                                 [imsize[0], imsize[1]],
                                  [imsize[0], 0]]).T
                 bbox = wcs.pixel_to_world_values(bbox[0], bbox[1])
                 bbox = np.array(bbox).T
-- 
2.43.0


From cce98d0b1eb1e30599aeebefa501faf26f17f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:35 +0000
Subject: [PATCH 06/94] fix: use every exposure that has pixels in the region,
 and only those

---
 forcepho/patches/pixel_patch.py | 38 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/forcepho/patches/pixel_patch.py b/forcepho/patches/pixel_patch.py
index 8878645..856fa11 100644
--- a/forcepho/patches/pixel_patch.py
+++ b/forcepho/patches/pixel_patch.py
@@ -281,11 +281,10 @@ class StorePatch(PixelPatch):
             for expID in self.metastore.wcs[band].keys():
                 epath = "{}/{}".format(band, expID)
                 wcs = self.metastore.wcs[band][expID]
-                # Check region bounding box has a corner in the exposure.
-                # NOTE: If bounding box entirely contains image this might fail
+                # Check region bounding box overlaps the exposure.
                 bx, by = wcs.world_to_pixel_values(bra, bdec)
-                inim = np.any((bx > 0) & (bx < imsize[0]) &
-                              (by > 0) & (by < imsize[1]))
+                inim = ((bx.max() > 0) & (bx.min() < imsize[0]) &
+                        (by.max() > 0) & (by.min() < imsize[1]))
                 if inim:
                     # check in more detail
                     sx, sy = region.contains(super_corners[..., 0],
@@ -414,19 +413,20 @@ class FITSPatch(PixelPatch):
                     continue
                 hdr = fits.getheader(fitsfiles[i], self.sci_ext)
                 wcs = WCS(hdr)
-                # rough check for region coverage
-                # NOTE: If bounding box entirely contains image this might fail
                 if (region is not None) & do_check:
+                    # rough check for overlap with the region bounding box
                     bra, bdec = region.bounding_box
                     imsize = hdr["NAXIS1"], hdr["NAXIS2"]
                     bx, by = wcs.world_to_pixel_values(bra, bdec)
-                    inim = np.any((bx > 0) & (bx < imsize[0]) &
-                                  (by > 0) & (by < imsize[1]))
-                    around_im = ((imsize[0] < bx.max()) & (bx.min() < 0) &
-                                 (imsize[1] < by.max()) & (by.min() < 0))
-                    inim = inim | around_im
+                    inim = ((bx.max() > 0) & (bx.min() < imsize[0]) &
+                            (by.max() > 0) & (by.min() < imsize[1]))
                     if not inim:
                         continue
+                    # check in more detail
+                    corners = self.pixel_corners(*imsize)
+                    sx, sy = region.contains(corners[..., 0], corners[..., 1], wcs)
+                    if len(sx) == 0:
+                        continue
 
                 epaths.append(fitsfiles[i])
                 wcses.append(wcs)
@@ -435,6 +435,17 @@ class FITSPatch(PixelPatch):
 
         return hdrs, wcses, epaths, bands
 
+    def pixel_corners(self, nx, ny):
+        """The coordinates of the four corners of every pixel of an image, as
+        an array of shape (nx, ny, 4, 2)
+        """
+        # NOTE: the x,y order swap here is important
+        yp, xp = np.meshgrid(np.arange(ny), np.arange(nx))
+        offsets = np.array([(0, 0), (1, 0), (1, 1), (0, 1)])
+        lower_left = np.array([xp, yp])
+        corners = offsets[:, :, None, None] + lower_left[None, :, :, :]
+        return corners.transpose(2, 3, 0, 1)
+
     def find_pixels(self, epath, wcs, region):
 
         # get pixel data, note the transpose
@@ -458,10 +469,7 @@ class FITSPatch(PixelPatch):
         if region is None:
             sx, sy = slice(None), slice(None)
         else:
-            offsets = np.array([(0, 0), (1, 0), (1, 1), (0, 1)])
-            lower_left = np.array([xp, yp])
-            corners = offsets[:, :, None, None] + lower_left[None, :, :, :]
-            corners = corners.transpose(2, 3, 0, 1)
+            corners = self.pixel_corners(nx, ny)
             sx, sy = region.contains(corners[..., 0], corners[..., 1], wcs)
 
         flux = flux[sx, sy].reshape(-1)
-- 
2.43.0


From 200dc20c903831562905bd88ec3eddbbf27f5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:38 +0000
Subject: [PATCH 07/94] fix: PixelStore.add_exposure leaves its inputs alone
 and accepts integer masks

---
 forcepho/patches/storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index db69780..b0f3306 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -169,8 +169,9 @@ class PixelStore:
         hdr = imset.hdr
         band, expID = imset.band, imset.expID
 
-        im = imset.im
-        ierr = imset.ierr
+        # copy, so the arrays in `imset` are not changed
+        im = np.array(imset.im)
+        ierr = np.array(imset.ierr)
         # -- backgound subtract ---
         if imset.bkg is not None:
             bkg = imset.bkg
@@ -184,7 +185,7 @@ class PixelStore:
             if bitmask:
                 # just check that any of the bad bits are set
                 pmask = np.bitwise_and(pmask, bitmask) != 0
-            mask = mask | pmask
+            mask = mask | (np.asarray(pmask) != 0)
         ierr[mask] = 0
         im[mask] = 0
         # let masked pixels provide a sampling of the subtracted background
-- 
2.43.0


From 9c2d84e594593b3ea53b9f5aa9bed8e213162cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 08/94] fix: empty catalogs of fixed or big sources are nothing
 to subtract

---
 forcepho/patches/device_patch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 00e9a5f..80a5f1c 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -142,11 +142,11 @@ class DevicePatchMixin:
         # will not actually be subtracted, but will have meta data transferred
         # to GPU and ready to accept proposals.
         scenes = []
-        if big is not None:
+        if (big is not None) and (len(big) > 0):
             inds = np.arange(maxactive, len(big), maxactive)
             blocks = np.array_split(big, inds)
             scenes.extend([self.set_scene(block, **big_scene_kwargs) for block in blocks])
-        if fixed is not None:
+        if (fixed is not None) and (len(fixed) > 0):
             inds = np.arange(maxactive, len(fixed), maxactive)
             blocks = np.array_split(fixed, inds)
             scenes.extend([self.set_scene(block, **scene_kwargs) for block in blocks])
-- 
2.43.0


From 7673724b93117a9973355a200e10d1d0edd1a3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 09/94] fix: Patch.render returns the model images; CPUProposer
 falls back to its own patch

---
 forcepho/patches/device_patch.py | 8 +++++---
 forcepho/proposal.py             | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 80a5f1c..165353b 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -247,11 +247,13 @@ class DevicePatchMixin:
 
         proposal = scene.get_proposal()
         orig, self.return_residual = self.return_residual, True
+        self.send_to_device()
         ret = proposer.evaluate_proposal(proposal, patch=self, unpack=True)
-        self.return_residual = True
+        self.return_residual = orig
         chi2, chi2_derivs, residuals = ret
-        image = -residuals
-        return image
+        # model = data - residual
+        images = [d - r for d, r in zip(self.split_pix("data"), residuals)]
+        return images
 
     def free(self):
         pass
diff --git a/forcepho/proposal.py b/forcepho/proposal.py
index 7545f90..1afdcb0 100644
--- a/forcepho/proposal.py
+++ b/forcepho/proposal.py
@@ -199,6 +199,9 @@ class CPUProposer(ProposerBase):
             The residual image (data - model) for each exposure.  No padding.
             Only returned if patch.return_residual.
         """
+        if patch is None:
+            patch = self.patch
+
         n_bands, n_sources = patch.n_bands, patch.n_sources
         if n_sources > MAXSOURCES:
             # the kernel accumulates derivatives in buffers of size MAXSOURCES
-- 
2.43.0


From b945c73b8a3db850e753812a490e71beda11a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:17 +0000
Subject: [PATCH 10/94] fix: design matrix of sources with zero flux is finite

---
 forcepho/patches/device_patch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 165353b..4434343 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -209,6 +209,11 @@ class DevicePatchMixin:
         y = self.retrieve_array("data")
         ys = np.split(y, np.cumsum(self.band_N_pix[:-1]))
 
+        # sources without flux in a band still have a model per unit flux
+        active = np.array(active)
+        for b in self.bandlist:
+            active[b][active[b] == 0] = 1.0
+
         Xes = [np.zeros((len(active), n)) for n in self.band_N_pix]
         scenes = [self.set_scene([a], **scene_kwargs)
                   for a in active]
-- 
2.43.0


From 6c85585474ef3ea2f897f5037b9b7a48e7a702d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:17 +0000
Subject: [PATCH 11/94] fix: optimize_one_band subtracts all the fixed models
 it is given

---
 forcepho/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index f4e7481..72ded90 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -587,7 +587,7 @@ def optimize_one_band(X, w, y, fixedX=0):
         subtracted from the scene.
     """
     Xp = X * w
-    yp = (y - fixedX) * w
+    yp = (y - np.atleast_2d(fixedX).sum(axis=0)) * w
     ATA = np.dot(Xp, Xp.T)
     Xyp = np.dot(Xp, yp[:, None])
     flux = np.linalg.solve(ATA, Xyp)
-- 
2.43.0


From 42ef8a1866d9ab0f120ddd12f8ec34e8de15df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:04 +0000
Subject: [PATCH 12/94] fix: sources in use have no weight as patch seeds

---
 forcepho/superscene.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ccab493..4196ada 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -468,8 +468,10 @@ class SuperScene:
         return self.exp_weight()
 
     def exp_weight(self):
-        # just one for inactive, zero if active
-        w = (~self.sourcecat["is_valid"]).astype(np.float64)
+        # just one for valid, zero if active or fixed in a checked out patch
+        w = (self.sourcecat["is_valid"] > 0).astype(np.float64)
+        if not np.any(w):
+            w[:] = 1.0
         # multiply by exponential
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
@@ -479,7 +481,9 @@ class SuperScene:
 
     def sigmoid_weight(self):
         # just one for inactive, zero if active
-        w = (~self.sourcecat["is_active"]).astype(np.float32)
+        w = (self.sourcecat["is_active"] == 0).astype(np.float64)
+        if not np.any(w):
+            w[:] = 1.0
 
         # multiply by something inversely correlated with niter
         # sigmoid ?  This is ~ 0.5 at niter ~ntarget
-- 
2.43.0


From 0d1afc1660ed8abec80af5d07d2b626c5c4acc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:28 +0000
Subject: [PATCH 13/94] fix: sources of checked out patches are not checked out
 again

Sources that are already active, or held fixed, in an outstanding patch could
be activated (or fixed while active) in a new one, and a source fixed in two
patches was released by the first check-in.
---
 forcepho/superscene.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 4196ada..1dd2a59 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -156,6 +156,8 @@ class SuperScene:
         self.sourcecat["source_index"][:] = np.arange(self.n_sources)
         self.sourcecat["is_valid"][:] = True
         self.sourcecat["is_active"][:] = False
+        # number of checked out patches in which each source is fixed
+        self.n_fixed_in = np.zeros(self.n_sources, dtype=int)
 
         # save the original catalog
         self.original = sourcecat.copy()
@@ -255,17 +257,31 @@ class SuperScene:
         center = self.sky_to_scene(cra, cdec)
         radius, active_inds, fixed_inds = self.get_circular_scene(center)
         # Deal with case that region is invalid
-        if radius is None:
+        if (radius is None) or self.in_use(active_inds, fixed_inds):
             return center, None, None
         region = CircularRegion(cra, cdec, radius / 3600.)
+        self.mark_checked_out(active_inds, fixed_inds)
+
+        return region, self.sourcecat[active_inds], self.sourcecat[fixed_inds]
+
+    def in_use(self, active_inds, fixed_inds):
+        """Whether the given sources conflict with patches that are already
+        checked out; i.e. if a proposed active source is active or fixed in
+        another patch, or a proposed fixed source is active in another patch.
+        """
+        return (np.any(self.sourcecat["is_valid"][active_inds] == 0) or
+                np.any(self.sourcecat["is_active"][fixed_inds] != 0))
+
+    def mark_checked_out(self, active_inds, fixed_inds):
+        """Flag sources as belonging to a checked out patch.
+        """
         self.sourcecat["is_active"][active_inds] = True
         self.sourcecat["is_valid"][active_inds] = False
         self.sourcecat["is_valid"][fixed_inds] = False
+        self.n_fixed_in[fixed_inds] += 1
         self.n_active += len(active_inds)
         self.n_fixed += len(fixed_inds)
 
-        return region, self.sourcecat[active_inds], self.sourcecat[fixed_inds]
-
     def checkin_region(self, active, fixed=None, niter=1, block_covs=None,
                        new_bounds=None, taskID=None, flush=False):
         """Check-in a set of active source parameters, and also fixed sources.
@@ -317,7 +333,9 @@ class SuperScene:
         self.sourcecat["is_active"][active_inds] = False
         self.sourcecat["n_patch"][active_inds] += int(niter > 0)
         self.sourcecat["is_valid"][active_inds] = True
-        self.sourcecat["is_valid"][fixed_inds] = True
+        # fixed sources might still be fixed in another patch
+        self.n_fixed_in[fixed_inds] = np.maximum(self.n_fixed_in[fixed_inds] - 1, 0)
+        self.sourcecat["is_valid"][fixed_inds] = self.n_fixed_in[fixed_inds] == 0
 
         self.n_active -= len(active_inds)
         self.n_fixed -= len(fixed_inds)
@@ -366,6 +384,7 @@ class SuperScene:
         self.sourcecat["is_active"][:] = False
         self.sourcecat["n_iter"][:] = 0
         self.sourcecat["n_patch"][:] = 0
+        self.n_fixed_in[:] = 0
         self.n_active = 0
         self.n_fixed = 0
 
@@ -665,16 +684,15 @@ class LinkedSuperScene(SuperScene):
         region, active_inds, fixed_inds = self.grow_scene(seed_index, max_fixed)
         if active_inds is None:
             return (region, seed_index), None, None
+        if self.in_use(active_inds, fixed_inds):
+            seed = self.original[seed_index]
+            return ((seed["ra"], seed["dec"]), seed_index), None, None
         if len(fixed_inds) == 0:
             fixed = None
         else:
             fixed = self.sourcecat[fixed_inds]
 
-        self.sourcecat["is_active"][active_inds] = True
-        self.sourcecat["is_valid"][active_inds] = False
-        self.sourcecat["is_valid"][fixed_inds] = False
-        self.n_active += len(active_inds)
-        self.n_fixed += len(fixed_inds)
+        self.mark_checked_out(active_inds, fixed_inds)
 
         return region, self.sourcecat[active_inds], fixed
 
-- 
2.43.0


From ba660f52c512e86c81f6300f59049d9458e18a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:28 +0000
Subject: [PATCH 14/94] fix: adjust_bounds clips fluxes to the upper bound and
 finds the scene's catalog

---
 forcepho/superscene.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 1dd2a59..75e4298 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -995,11 +995,11 @@ def adjust_bounds(sceneDB, bands, config=None,
         scat = active
     else:
         bcat = sceneDB.bounds_catalog
-        scat = sceneDB.source_catalog
+        scat = sceneDB.sourcecat
 
-    if minflux is None:
+    if (minflux is None) and (config is not None):
         minflux = config.minflux
-    if maxfluxfactor is None:
+    if (maxfluxfactor is None) and (config is not None):
         maxfluxfactor = config.maxfluxfactor
     # --- Adjust initial bounds ---
     if minflux is not None:
@@ -1007,7 +1007,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         for b in bands:
             lower = bcat[b][:, 0]
             bcat[b][:, 0] = np.minimum(lower, minflux)
-    if maxfluxfactor > 0:
+    if (maxfluxfactor is not None) and (maxfluxfactor > 0):
         for b in bands:
             upper = bcat[b][:, 1]
             new_upper = np.maximum(upper, scat[b] * maxfluxfactor)
@@ -1017,7 +1017,7 @@ def adjust_bounds(sceneDB, bands, config=None,
         for b in bands:
             active[b][:] = np.clip(active[b][:],
                                    bcat[b][:, 0] + eps,
-                                   bcat[b][:, 0] - eps)
+                                   bcat[b][:, 1] - eps)
 
     if not isinstance(sceneDB, np.ndarray):
         sceneDB.check_bounds()
-- 
2.43.0


From ca92e6442c4cb82a5e3d121a920211380e0a8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:48 +0000
Subject: [PATCH 15/94] fix: flux bounds of zero and negative fluxes;
 positional bounds per source

Zero flux gave a NaN upper bound, negative fluxes were not subject to the
minimum width, and the documented (2, n_source) dpos could not be used.
---
 forcepho/superscene.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 75e4298..18a2779 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -867,7 +867,7 @@ def make_bounds(active, filternames, shapenames=Galaxy.SHAPE_COLS, unccat=None,
         dpos = np.ones(2) * n_pix * pixscale
 
     dra = dpos[0] / 3600. / np.cos(np.deg2rad(active["dec"]))
-    ddec = np.array([dpos[1] / 3600.])
+    ddec = np.zeros(len(active)) + dpos[1] / 3600.
 
     # Make empty bounds catalog
     colnames = filternames + shapenames
@@ -962,7 +962,7 @@ def flux_bounds(flux, unc1, snr_max=10, precisions=None):
     """
     if precisions is not None:
         Sigma = np.linalg.pinv(precisions)
-        sigma = np.maximum(np.sqrt(np.diag(Sigma)), flux / snr_max)
+        sigma = np.maximum(np.sqrt(np.diag(Sigma)), np.abs(flux) / snr_max)
         lo = flux - unc1 * sigma
         hi = flux + unc1 * sigma
         # make sure fluxes can be positive
@@ -970,11 +970,9 @@ def flux_bounds(flux, unc1, snr_max=10, precisions=None):
 
     else:
         # this is wierd
-        snr = np.sqrt(np.abs(flux)) / unc1
-        #snr = np.minimum(snr, snr_max)
-
+        # i.e. |flux| / snr for snr = sqrt(|flux|) / unc1
         fmin = (unc1 / 2.)**2
-        noise = np.abs(flux) / snr
+        noise = np.sqrt(np.abs(flux)) * unc1
         lo = flux - noise
         hi = flux + noise
 
-- 
2.43.0


From be1ed62962f40c0df287d750bdf0f9c3cd4fd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:48 +0000
Subject: [PATCH 16/94] fix: convert_pa wraps angles to the interval +/- pi/2

---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 18a2779..28da05a 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -1044,7 +1044,7 @@ def convert_pa(pa_in, from_deg=False, rotate=False, reverse=False, max_try=4):
     count = 0
     while count < max_try:
         p = pa > np.pi / 2
-        n = pa < np.pi / 2
+        n = pa < -np.pi / 2
         if (p.sum() == 0) & (n.sum() == 0):
             break
         else:
-- 
2.43.0


From af1095d06378c775da9a061c0a0d984e767c7f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:49 +0000
Subject: [PATCH 17/94] fix: searching empty sky for overlapping sources gives
 an empty catalog

---
 forcepho/superscene.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 28da05a..b6f988f 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -723,14 +723,15 @@ class LinkedSuperScene(SuperScene):
             in order of distance from the center
         """
         kinds = self.kdt.query_ball_point(center, radius + self.boundary_radius)
+        kinds = np.array(kinds, dtype=int)
         d = self.scene_coordinates[kinds] - center
         metric = np.hypot(*d.T) / (radius + self.roi[kinds])
-        overlaps = (metric < 1) & (metric >= 0) & (np.array(kinds) != seed_index)
+        overlaps = (metric < 1) & (metric >= 0) & (kinds != seed_index)
         if sort:
             order = np.argsort(metric[overlaps])
         else:
             order = slice(None)
-        return np.array(kinds)[overlaps][order]
+        return kinds[overlaps][order]
 
     def overlap_circle(self, ra, dec, radius):
         """Get all sources with an roi that overlaps the given circle on the
-- 
2.43.0


From 03d7e99ee6dda0b905d7b7bd956283597ea287e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:32 +0000
Subject: [PATCH 18/94] fix: seed weights are finite for very unequal numbers
 of iterations

---
 forcepho/superscene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index b6f988f..7be5a30 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -495,7 +495,8 @@ class SuperScene:
         n = np.abs(self.sourcecat["n_iter"])
         #mu = min(n.min(), self.target_niter)
         sigma = 20
-        w *= np.exp((n.mean() - n) / sigma)
+        # relative to the least iterated, so that there is no overflow
+        w *= np.exp(np.minimum(n[w > 0].min() - n, 0) / sigma)
         return w / w.sum()
 
     def sigmoid_weight(self):
-- 
2.43.0


From d2b8ed1696c0d9c6687feab1e6d19ac4b593014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:03 +0000
Subject: [PATCH 19/94] fix: ln-determinant of the Jacobian does not underflow
 with many parameters

---
 forcepho/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 18f637e..4145259 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -583,8 +583,8 @@ class Transform(object):
     def lndetjac(self, z):
         """ln(|dq/dz|)
         """
-        return np.log(np.abs(np.prod(self.jacobian(z))))
-        # return np.sum(np.log(self.jacobian(z)))
+        # the product itself underflows for many parameters with narrow bounds
+        return np.sum(np.log(np.abs(self.jacobian(z))))
 
     def lndetjac_grad(self, z):
         return np.zeros(len(z))
-- 
2.43.0


From 61f72d9fc9f2ce42bd2851b86ff90fe481e2c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:03 +0000
Subject: [PATCH 20/94] fix: posteriors accept lower or upper bounds that are
 all zero

---
 forcepho/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 4145259..fc96018 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -62,7 +62,8 @@ class Posterior:
         self.ncall = 0
         self.ndof = 1.0
 
-        if (np.any(kwargs.get('lower')) and np.any(kwargs.get('upper'))) == bool(kwargs.get('transform')):
+        bounded = (kwargs.get('lower') is not None) and (kwargs.get('upper') is not None)
+        if bounded == (kwargs.get('transform') is not None):
             raise ValueError('Must specify either "transform" or ("lower","upper")')
 
         transform = kwargs.pop('transform', None)
-- 
2.43.0


From 2ca873c9123c763cd8c2b7c04ab8784ead19635a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:03 +0000
Subject: [PATCH 21/94] fix: posterior cache is not fooled by reused memory or
 changed settings

Modifying a parameter vector in place, or changing the sampling flag or the
prior, returned the values of the previous evaluation.
---
 forcepho/model.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index fc96018..26eff83 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -98,6 +98,15 @@ class Posterior:
         self.ncall += 1
         raise(NotImplementedError)
 
+    def _stale(self, z):
+        """Whether the cached values are for another position, or were computed
+        with another prior or volume correction.
+        """
+        return (self._z is None) or np.any(z != self._z) or (self._settings != self._get_settings())
+
+    def _get_settings(self):
+        return getattr(self, "sampling", None), getattr(self, "_lnpriorfn", None)
+
     def lnprob(self, z):
         """Get the ln-probability at parameter position `z`.  This uses the
         cached value of the ln-probability if z has not changed, and otherwise
@@ -114,7 +123,7 @@ class Posterior:
         lnp : np.float
             The ln-probability at the parameter position `z`
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         return self._lnp
 
@@ -136,7 +145,7 @@ class Posterior:
             The gradient of the ln-probability with repsect to `z`, at the
             parameter position `z`
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         return self._lnp_grad
 
@@ -196,7 +205,7 @@ class Posterior:
         Note this *removes* the jacobian volume correction necessary for
         good sampling.
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         nll = -self._lnp
         nll_grad = -self._lnp_grad
@@ -208,7 +217,7 @@ class Posterior:
         Note this *removes* the jacobian volume correction necessary for
         good sampling, but that hinders optimization.
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         return -self._lnp / self.ndof
 
@@ -216,7 +225,7 @@ class Posterior:
         """Some samplers want a single function to return lnp, dlnp.
         This is that.
         """
-        if np.any(z != self._z):
+        if self._stale(z):
             self.evaluate(z)
         return self._lnp, self._lnp_grad
 
@@ -285,8 +294,8 @@ class FastPosterior(Posterior):
         # --- initialize some things ---
         self.sampling = sampling
         self.ncall = 0
-        self._z = -99
-        self._q = -99
+        self._z = None
+        self._q = None
         self.mhalf = np.array(-0.5, dtype=np.float64)
 
         # --- logging/debugging ---
@@ -346,7 +355,9 @@ class FastPosterior(Posterior):
         # Assumes Jacobian is diagonal
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian
         self._q = q
-        self._z = z
+        # the caller might reuse the memory of z
+        self._z = np.array(z)
+        self._settings = self._get_settings()
         # do volume correction when sampling
         if self.sampling:
             self._lnp += self._lndetjac
@@ -357,7 +368,7 @@ class FastPosterior(Posterior):
             print("chi2: {}".format(chi2))
 
         if self.logging:
-            self.pos_history.append(z)
+            self.pos_history.append(self._z)
             self.lnp_history.append(ll)
             self.grad_history.append(ll_grad)
 
@@ -431,8 +442,8 @@ class SlowPosterior(Posterior):
 
         # --- initialize some things ---
         self.ncall = 0
-        self._z = -99
-        self._q = -99
+        self._z = None
+        self._q = None
 
     def evaluate(self, z):
         """Evaluate and chache the ln-probability for the given parameter
@@ -463,7 +474,8 @@ class SlowPosterior(Posterior):
         # gradient vector with a Jacobian matrix, but for now the jacobian is diagonal so this works
         self._lnp_grad = (ll_grad + lpr_grad) * self._jacobian + self._lndetjac_grad
         self._q = q
-        self._z = z
+        self._z = np.array(z)
+        self._settings = self._get_settings()
 
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
-- 
2.43.0


From 6a5ea04e60859c8cc02a87412b8aee6552411ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:03 +0000
Subject: [PATCH 22/94] fix: SlowPosterior can be used without a prior, for
 minimization, and gives residuals

---
 forcepho/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 26eff83..4f04bf4 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -437,11 +437,11 @@ class SlowPosterior(Posterior):
             self.plans = [WorkPlan(stamp) for stamp in stamps]
         else:
             self.plans = plans
-        if lnprior is not None:
-            self.lnprior = lnprior
+        self._lnpriorfn = lnprior
 
         # --- initialize some things ---
         self.ncall = 0
+        self.ndof = 1.0
         self._z = None
         self._q = None
 
@@ -480,7 +480,7 @@ class SlowPosterior(Posterior):
     def residuals(self, Theta=None):
         """Construct model image (residuals) for the given parameter vecotrs.
         """
-        if Theta:
+        if Theta is not None:
             self.scene.set_all_source_params(Theta)
         self._residuals = [plan.stamp.pixel_values - make_image(self.scene, plan.stamp)[0]
                            for plan in self.plans]
-- 
2.43.0


From 1296715329e13769e67a4239936415fdf1b26369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:06 +0000
Subject: [PATCH 23/94] fix: superscene log goes next to the state file
 whatever its path

Directories with '.fits' in their name were mangled, and the log replaced the
catalog if the file name did not end in '.fits'.
---
 forcepho/superscene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 7be5a30..7a65ef0 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -91,7 +91,7 @@ class SuperScene:
         if filename is None:
             filename = self.statefilename
         fits.writeto(filename, self.sourcecat, overwrite=True)
-        with open(filename.replace(".fits", "_log.json"), "w") as fobj:
+        with open(os.path.splitext(filename)[0] + "_log.json", "w") as fobj:
             logs = dict(sourcelog=self.sourcelog, patchlog=self.patchlog)
             json.dump(logs, fobj)
 
-- 
2.43.0


From 810bea60c2f22129f098c03ac8d6fe68a484443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:35 +0000
Subject: [PATCH 24/94] fix: bounds catalogs carry the index of their source

---
 forcepho/superscene.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 7a65ef0..ccca5f2 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -877,6 +877,8 @@ def make_bounds(active, filternames, shapenames=Galaxy.SHAPE_COLS, unccat=None,
                                            for c in colnames]
     dtype = np.dtype(cols)
     bcat = np.zeros(len(active), dtype=dtype)
+    if "source_index" in active.dtype.names:
+        bcat["source_index"] = active["source_index"]
 
     # Fill the easy ones
     bcat["q"] = sqrtq_range
-- 
2.43.0


From 54ce69590ecd089b7c7bbeeb20f215b1170cb908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:17 +0000
Subject: [PATCH 25/94] fix: draw another seed when a randomly drawn scene is
 in use

Sources in use no longer seed or join a second patch, so without this a random
check-out would often be refused even though most of the scene is free.
---
 forcepho/superscene.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index ccca5f2..9ad2084 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -54,6 +54,7 @@ class SuperScene:
 
     sourcecat = None
     n_sources = 0
+    max_draws = 10  # maximum number of seeds to try when drawing a random region
 
     def __init__(self, sourcecat=None, bands=None,
                  statefile="superscene.fits",                       # disk locations
@@ -253,11 +254,16 @@ class SuperScene:
         """
         # Draw a patch center, convert to scene coordinates
         # (arcsec from scene center), and get active and fixed sources
-        cra, cdec = self.draw_center(seed_index=seed_index)
-        center = self.sky_to_scene(cra, cdec)
-        radius, active_inds, fixed_inds = self.get_circular_scene(center)
+        # If a random region is invalid draw a few more.
+        for _ in range(1 if seed_index >= 0 else self.max_draws):
+            cra, cdec = self.draw_center(seed_index=seed_index)
+            center = self.sky_to_scene(cra, cdec)
+            radius, active_inds, fixed_inds = self.get_circular_scene(center)
+            valid = (radius is not None) and not self.in_use(active_inds, fixed_inds)
+            if valid:
+                break
         # Deal with case that region is invalid
-        if (radius is None) or self.in_use(active_inds, fixed_inds):
+        if not valid:
             return center, None, None
         region = CircularRegion(cra, cdec, radius / 3600.)
         self.mark_checked_out(active_inds, fixed_inds)
@@ -679,13 +685,16 @@ class LinkedSuperScene(SuperScene):
             The sourcecat entries for the fixed sources in the scene.  Can be
             `None` if there were no fixed sources within the minimum radius.
         """
-        if seed_index < 0:
-            seed_index = np.random.choice(self.n_sources, p=self.seed_weight())
-
-        region, active_inds, fixed_inds = self.grow_scene(seed_index, max_fixed)
-        if active_inds is None:
-            return (region, seed_index), None, None
-        if self.in_use(active_inds, fixed_inds):
+        # If a randomly drawn scene is invalid draw a few more
+        draw = seed_index < 0
+        for _ in range(self.max_draws if draw else 1):
+            if draw:
+                seed_index = np.random.choice(self.n_sources, p=self.seed_weight())
+            region, active_inds, fixed_inds = self.grow_scene(seed_index, max_fixed)
+            valid = (active_inds is not None) and not self.in_use(active_inds, fixed_inds)
+            if valid:
+                break
+        if not valid:
             seed = self.original[seed_index]
             return ((seed["ra"], seed["dec"]), seed_index), None, None
         if len(fixed_inds) == 0:
-- 
2.43.0


From 9d0c899b64285b5e36a04d3ffa6a2e56189bcfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:07 +0000
Subject: [PATCH 26/94] fix: posterior cache notices a changed transform

---
 forcepho/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/model.py b/forcepho/model.py
index 4f04bf4..d7efb9d 100644
--- a/forcepho/model.py
+++ b/forcepho/model.py
@@ -100,12 +100,13 @@ class Posterior:
 
     def _stale(self, z):
         """Whether the cached values are for another position, or were computed
-        with another prior or volume correction.
+        with another prior, transform, or volume correction.
         """
         return (self._z is None) or np.any(z != self._z) or (self._settings != self._get_settings())
 
     def _get_settings(self):
-        return getattr(self, "sampling", None), getattr(self, "_lnpriorfn", None)
+        return (getattr(self, "sampling", None), getattr(self, "_lnpriorfn", None),
+                self.transform)
 
     def lnprob(self, z):
         """Get the ln-probability at parameter position `z`.  This uses the
-- 
2.43.0


From 022a834a1a503866a766987ba40c1f3e791ef2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 27/94] fix: catalogs made from scenes keep the double
 precision of the coordinates

---
 forcepho/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 7b7545e..5a07893 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -436,7 +436,7 @@ class Source:
                 ["{}".format(b) for b in self.filternames] +
                 self.SHAPE_COLS)
         cols += extra_cols
-        self._cat_dtype = np.dtype([(c, np.float32) for c in cols])
+        self._cat_dtype = np.dtype([(c, np.float64) for c in cols])
         return self._cat_dtype
 
     def to_catalog_row(self, extra_cols=[]):
-- 
2.43.0


From f3a87df8b0dce7bbd74dac43a413b207727677ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 28/94] fix: param_indices accounts for fixed sources and gives
 all fluxes when no filter is given

---
 forcepho/sources.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 5a07893..92f2d30 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -204,12 +204,16 @@ class Scene(object):
         inds : ndarray of ints
             Indices of the parameters for this source.
         """
-        npar_per_source = [s.n_params for s in self.active_sources[:sid]]
+        # only active sources that come before this one contribute to Theta
+        npar_per_source = [s.n_params for s in self.sources[:sid] if not s.fixed]
         # get all the shape parameters
         source = self.sources[sid]
         start = int(np.sum(npar_per_source))
         # indices of the shape and position parameters
         inds = list(range(start + source.n_bands, start + source.n_params))
+        if filtername is None:
+            # put in all the fluxes for this source
+            return list(range(start, start + source.n_bands)) + inds
         # put in the flux for this source in this band
         inds.insert(0, start + source.filter_index(filtername))
         return inds
-- 
2.43.0


From b2ed50b128f3c1c9310f546cb32f3a31973e6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 29/94] fix: scenes of stars and simple galaxies can be made
 from catalogs

---
 forcepho/sources.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 92f2d30..7f732db 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -253,7 +253,7 @@ class Source:
     sersic = 0.   # sersic index
     rhalf = 0.    # half light radius
 
-    def __init__(self, filters=['band'], radii=None):
+    def __init__(self, filters=['band'], radii=None, filternames=None):
         """
         Parameters
         ----------
@@ -265,7 +265,12 @@ class Source:
 
             The length of the supplied `filters` list will determine the length
             of the `flux` vector, accessible via the `n_bands` attribute.
+
+        filternames : list of strings, optional
+            Synonym for `filters`, takes precedence if given.
         """
+        if filternames is not None:
+            filters = filternames
         assert type(filters) == list
         self.filternames = filters
         self.flux = np.zeros(len(self.filternames))
-- 
2.43.0


From c733dce942d973f96a3059abd7b38d9b01b41d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 30/94] fix: ConformalShearGalaxy with fixed Sersic parameters
 keeps its own shape columns

---
 forcepho/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 7f732db..437d379 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -559,7 +559,7 @@ class Galaxy(Source):
         if not free_sersic:
             # Fix the sersic parameters n_sersic and r_h
             self.nshape = 2
-            self.SHAPE_COLS = ["ra", "dec", "q", "pa"]
+            self.SHAPE_COLS = self.SHAPE_COLS[:self.npos + self.nshape]
 
         # For generating proposals that can be sent to the GPU
         from .proposal import source_struct_dtype
-- 
2.43.0


From bde38d3ab036ff411d496cb850afbd9b96ff4a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:05 +0000
Subject: [PATCH 31/94] fix: empty scenes do not share their list of sources

---
 forcepho/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 437d379..56ac045 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -30,8 +30,8 @@ class Scene(object):
     array of parameters and the parameters of each source in each band/image
     """
 
-    def __init__(self, sources=[], catalog=None, **catkwargs):
-        self.sources = sources
+    def __init__(self, sources=None, catalog=None, **catkwargs):
+        self.sources = sources if sources is not None else []
         if catalog is not None:
             self.from_catalog(catalog, **catkwargs)
         self.identify_sources()
-- 
2.43.0


From f52586567bd66bf451f60bb43a77495bc28e0c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:13 +0000
Subject: [PATCH 32/94] fix: parameters for one filter can be set from any
 sequence

---
 forcepho/sources.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forcepho/sources.py b/forcepho/sources.py
index 56ac045..166a9b7 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -363,7 +363,7 @@ class Source:
         """
         if filtername is not None:
             nflux = 1
-            flux_inds = self.filter_index(filtername)
+            flux_inds = [self.filter_index(filtername)]
         else:
             nflux = self.n_bands
             flux_inds = slice(None)
@@ -585,7 +585,7 @@ class Galaxy(Source):
         # FIXME: use a parameter name list and setattr here
         if filtername is not None:
             nflux = 1
-            flux_inds = self.filter_index(filtername)
+            flux_inds = [self.filter_index(filtername)]
         else:
             nflux = self.n_bands
             flux_inds = slice(None)
@@ -770,7 +770,7 @@ class Star(Source):
         """
         if filtername is not None:
             nflux = 1
-            flux_inds = self.filter_index(filtername)
+            flux_inds = [self.filter_index(filtername)]
         else:
             nflux = self.n_bands
             flux_inds = slice(None)
@@ -841,7 +841,7 @@ class SimpleGalaxy(Source):
         """
         if filtername is not None:
             nflux = 1
-            flux_inds = self.filter_index(filtername)
+            flux_inds = [self.filter_index(filtername)]
         else:
             nflux = self.n_bands
             flux_inds = slice(None)
@@ -925,7 +925,7 @@ class ConformalShearGalaxy(Galaxy):
         """
         if filtername is not None:
             nflux = 1
-            flux_inds = self.filter_index(filtername)
+            flux_inds = [self.filter_index(filtername)]
         else:
             nflux = self.n_bands
             flux_inds = slice(None)
-- 
2.43.0


From 68048d5513780333c07452eb3cef855a106aa46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:28 +0000
Subject: [PATCH 33/94] fix: Kron radius within a finite aperture is normalized

---
 forcepho/utils/profile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forcepho/utils/profile.py b/forcepho/utils/profile.py
index bef7bea..4e9dfe7 100644
--- a/forcepho/utils/profile.py
+++ b/forcepho/utils/profile.py
@@ -23,11 +23,11 @@ def frac_sersic(radius, rhalf=None, sersic=2.0):
 
 def kron_radius(rhalf, sersic, rmax=None):
     k = gammaincinv(2 * sersic, 0.5)
-    if rmax:
+    c = gamma(3 * sersic) / gamma(2 * sersic)
+    if rmax is not None:
+        # note gammainc(a, x) is normalized by gamma(a)
         x = k*(rmax / rhalf)**(1./sersic)
-        c = gammainc(3 * sersic, x) / gammainc(2 * sersic, x)
-    else:
-        c = gamma(3 * sersic) / gamma(2 * sersic)
+        c = c * gammainc(3 * sersic, x) / gammainc(2 * sersic, x)
     r_kron = rhalf / k**sersic * c
     return r_kron
 
-- 
2.43.0


From 77badd27e8151fcc2fcee9068ef88f04e0f7f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:40 +0000
Subject: [PATCH 34/94] fix: slow renderer converts the means of PSFs in arcsec
 to pixels

---
 forcepho/slow/gaussmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 6b926be..8c4cccc 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -125,7 +125,7 @@ def convert_to_gaussians(source, stamp, compute_deriv=False):
     # get PSF component means and covariances in the pixel space
     if psf.units == 'arcsec':
         pcovar = fast_matmul_matmul_2x2(D, psf.covariances, D.T)
-        pmeans = np.matmul(D, psf.means)
+        pmeans = np.matmul(psf.means, D.T)
         # FIXME need to adjust amplitudes to still sum to one?
         pamps = psf.amplitudes
     elif psf.units == 'pixels':
-- 
2.43.0


From 686d61acb69442a8ce71b35c3b16665c03d2ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:40 +0000
Subject: [PATCH 35/94] fix: slow gradients are finite for zero fluxes and
 amplitudes

---
 forcepho/slow/gaussmodel.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index 8c4cccc..d9b98ec 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -290,7 +290,9 @@ def _get_gaussian_gradients(source_n_gauss, stamp_psf_n_gauss, scovars, pcovar,
             F = fast_inv_2x2(Sigma)
             detF = fast_det_2x2(F)
             am, al = samps[i], pamps[j]
-            K = flux * G * am * al * detF**(0.5) / (2 * np.pi)
+            # Amplitude for unit flux and unit mixture amplitude
+            K1 = G * al * detF**(0.5) / (2 * np.pi)
+            K = flux * am * K1
 
             # Now get derivatives
             # Of F
@@ -305,9 +307,9 @@ def _get_gaussian_gradients(source_n_gauss, stamp_psf_n_gauss, scovars, pcovar,
             # of Amplitude
             dA_dq = K / (2 * detF) * ddetF_dq  # 1
             dA_dpa = K / (2 * detF) * ddetF_dpa  # 1
-            dA_dflux = K / flux  # 1
-            dA_dsersic = K / am * da_dn[i]  # 1
-            dA_drh = K / am * da_dr[i]  # 1
+            dA_dflux = am * K1  # 1
+            dA_dsersic = flux * K1 * da_dn[i]  # 1
+            dA_drh = flux * K1 * da_dr[i]  # 1
 
             # --- Add derivatives to gaussians ---
             # - As a list of just nonzero -
@@ -437,7 +439,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
 
     # --- Calculate derivatives ---
     if compute_deriv:
-        dC_dA = C / g.amp
+        dC_dA = Gp * H * root_det
         dC_dx = C*vx
         dC_dy = C*vy
         dC_dfx = -0.5*C*dx*dx
@@ -445,7 +447,7 @@ def _compute_gaussian(g, xpix, ypix, second_order=True, compute_deriv=True,
         dC_dfxy = -1.0*C*dx*dy
 
     if compute_deriv and second_order:
-        c_h = C / H
+        c_h = g.amp * Gp * root_det
         dC_dx -= c_h * (g.fxx*vx + g.fxy*vy) / 12.
         dC_dy -= c_h * (g.fyy*vy + g.fxy*vx) / 12.
         dC_dfx -= c_h * (1. - 2.*dx*vx) / 24.
-- 
2.43.0


From 3538b529dc78c2c5ec0cb0b1bcd804168668303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:41 +0000
Subject: [PATCH 36/94] fix: slow likelihood subtracts the fixed sources

---
 forcepho/slow/likelihood.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index c1c7327..59d8a7f 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -153,7 +153,7 @@ def plan_sources(plan, scene, stamp_index=None):
             # OFF IMAGE
             continue
         gig = convert_to_gaussians(source, stamp)
-        if coverage == 1:
+        if (coverage == 1) or source.fixed:
             # FIXED
             fixed.append(gig)
             continue
@@ -236,6 +236,14 @@ class WorkPlan(object):
                 # pixels *HERE* to avoid storage
                 self.gradients[i, :, :] += np.matmul(g.derivs, dI_dphi)
 
+        # Fixed sources contribute to the residual, but have no gradients
+        for i, gig in enumerate(self.fixed):
+            for j, g in enumerate(gig.gaussians):
+                I, _ = compute_gaussian(g, self.stamp.xpix.reshape(-1),
+                                        self.stamp.ypix.reshape(-1),
+                                        **self.compute_keywords)
+                self.residual[self.nactive + i, ...] -= I
+
     def lnlike(self, active=None, fixed=None):
         """Returns a scalar chi^2 value and a chi^2 gradient array of
         shape (nactive, NDERIV)
-- 
2.43.0


From e88ff414c04107df6f51635faf52c7a1af51f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:41 +0000
Subject: [PATCH 37/94] fix: FastWorkPlan does not change the options of other
 plans

---
 forcepho/slow/likelihood.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index 59d8a7f..21395b2 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -291,24 +291,26 @@ class FastWorkPlan(WorkPlan):
         """Here we are doing all pixels at once instead of one superpixel at a
         time (like on a GPU).
         """
+        # do not change the options shared with other plans
+        keywords = dict(self.compute_keywords)
         # Loop over active and fixed to get the residual image
         for i, gig in enumerate(self.active + self.fixed):
             for j, g in enumerate(gig.gaussians):
                 # get the image counts for each Gaussian in a GaussianGalaxy
-                self.compute_keywords['compute_deriv'] = False
-                self.residual -= compute_gaussian(g, self.stamp.xpix.flat,
-                                                  self.stamp.ypix.flat,
-                                                  **self.compute_keywords)
+                keywords['compute_deriv'] = False
+                self.residual -= compute_gaussian(g, self.stamp.xpix.reshape(-1),
+                                                  self.stamp.ypix.reshape(-1),
+                                                  **keywords)
         self.chi = self.residual * self.ierr
         self.chivar = self.chi * self.ierr
         # Loop only over active to get the chisq gradients
         for i, gig in enumerate(self.active):
             for j, g in enumerate(gig.gaussians):
-                self.compute_keywords['compute_deriv'] = True
+                keywords['compute_deriv'] = True
                 # get the image gradients for each Gaussian in a GaussianGalaxy
-                I, dI_dphi = compute_gaussian(g, self.stamp.xpix.flat,
-                                              self.stamp.ypix.flat,
-                                              **self.compute_keywords)
+                I, dI_dphi = compute_gaussian(g, self.stamp.xpix.reshape(-1),
+                                              self.stamp.ypix.reshape(-1),
+                                              **keywords)
                 # Accumulate the *chisq* derivatives w.r.t. theta from each Gaussian
                 # This matrix multiply can be optimized (g.derivs is sparse)
                 self.gradients[i, :] += np.matmul(g.derivs, np.matmul(dI_dphi, self.chivar))
-- 
2.43.0


From 3aed6dace9742a2b45cdca58779a683c1a0cff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:41 +0000
Subject: [PATCH 38/94] fix: get_psf gives Gaussian PSFs of the requested FWHM
 and reads old-style files

---
 forcepho/slow/psf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/slow/psf.py b/forcepho/slow/psf.py
index 367bd6e..b57416c 100644
--- a/forcepho/slow/psf.py
+++ b/forcepho/slow/psf.py
@@ -98,7 +98,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
                 pdat = pickle.load(pf)
 
             if n_gauss is None:
-                n_gauss = pdat.keys()[0]
+                n_gauss = list(pdat.keys())[0]
             answer = pdat[n_gauss][psf_realization]
             psf = make_psf(answer, oversample=oversample, center=center)
         # newstyle
@@ -110,7 +110,7 @@ def get_psf(psfname=None, fwhm=1.0, psf_realization=0,
 
     else:
         psf = PointSpreadFunction()
-        psf.covariances *= fwhm / 2.355
+        psf.covariances *= (fwhm / 2.355)**2
 
     return psf
 
-- 
2.43.0


From cfb851672ed4bb057f3e70384c2b1c3447a14615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:58 +0000
Subject: [PATCH 39/94] fix: local scale of slow stamps is correct when the
 numerical step crosses RA=0

---
 forcepho/slow/stamp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/slow/stamp.py b/forcepho/slow/stamp.py
index e6d09a0..06f53de 100644
--- a/forcepho/slow/stamp.py
+++ b/forcepho/slow/stamp.py
@@ -240,6 +240,8 @@ def scale_at_sky(sky, wcs, dpix=1.0, origin=1, make_approx=False):
         # compute dpix_dsky matrix
         P = np.eye(2) * dpix
         St = np.array([pos1_sky - pos0_sky, pos2_sky - pos0_sky])
+        # RA is periodic; the steps are small even if they cross RA=0
+        St[:, 0] = (St[:, 0] + 180.0) % 360.0 - 180.0
         CW_mat = np.linalg.solve(St, P).T
 
         # compute D matrix
-- 
2.43.0


From db994ab36b33f0f007c6e65374d466b4495b7a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:24 +0000
Subject: [PATCH 40/94] fix: slow likelihood gradients of ConformalShearGalaxy
 are with respect to its own parameters

---
 forcepho/slow/gaussmodel.py |  4 ++++
 forcepho/sources.py         | 23 -----------------------
 2 files changed, 4 insertions(+), 23 deletions(-)

diff --git a/forcepho/slow/gaussmodel.py b/forcepho/slow/gaussmodel.py
index d9b98ec..daa15cc 100644
--- a/forcepho/slow/gaussmodel.py
+++ b/forcepho/slow/gaussmodel.py
@@ -261,6 +261,10 @@ def get_gaussian_gradients(source, stamp, gig):
                                      flux, G, T,
                                      dT_dq, dT_dpa, da_dn, da_dr, CW)
 
+    # Convert d/dq, d/dpa to d/deta_+, d/deta_x for sources that use these
+    if hasattr(source, "ds_deta"):
+        derivs[:, :, 3:5, :] = np.matmul(source.ds_deta, derivs[:, :, 3:5, :])
+
     # Unpack the results array returned by `_get_gaussian_gradients`
     for i in range(source.n_gauss):
         for j in range(psf.n_gauss):
diff --git a/forcepho/sources.py b/forcepho/sources.py
index 166a9b7..716695b 100644
--- a/forcepho/sources.py
+++ b/forcepho/sources.py
@@ -1007,29 +1007,6 @@ class ConformalShearGalaxy(Galaxy):
 
         return np.dot(ds_de.T, sq)
 
-    def render(self, stamp, compute_deriv=True, **compute_keywords):
-        """Render a source on a PostageStamp.
-
-        Parameters
-        ----------
-        stamp : An instance of stamp.PostageStamp
-
-        compute_deriv: bool (optional, default: True)
-            If True, return the gradients of the image with respect to the
-            relevant free parameters for the source.
-        """
-        gig = convert_to_gaussians(self, stamp, compute_deriv=compute_deriv)
-        im, grad = compute_gig(gig, stamp.xpix.reshape(-1), stamp.ypix.reshape(-1),
-                               compute_deriv=compute_deriv, **compute_keywords)
-
-        if compute_deriv:
-            # convert d/dq, d/dphi to d/deta_+, d/deta_x
-            # FIXME: This is a brittle way to do this!
-            grad[3:5, :] = np.matmul(self.ds_deta, grad[3:5, :])
-            return im, grad[self.use_gradients]
-        else:
-            return im, None
-
 
 def scale_matrix(q):
     """q=(b/a)^0.5
-- 
2.43.0


From 6b5be968e22a9a9c29384297ccc484b20b63323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:30 +0000
Subject: [PATCH 41/94] fix: optimisation results report the log-probability of
 the optimum

---
 forcepho/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index 72ded90..c3fec16 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -444,7 +444,7 @@ def run_opt(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun * model.ndof
     result.wall_time = tsample
 
     result.fun = scires.fun
@@ -489,7 +489,7 @@ def run_opt_bounded(model, q, jac=True, callback=None, **extras):
     if model.transform is not None:
         result.chain = model.transform.transform(result.chain)
 
-    result.lnp = -0.5 * scires.fun
+    result.lnp = -scires.fun * model.ndof
     result.wall_time = tsample
 
     result.fun = scires.fun
-- 
2.43.0


From 66d5db2f917146ddc0261aebc8f1534207b073a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:30 +0000
Subject: [PATCH 42/94] fix: choose the dynesty sampling method with its
 current keyword

---
 forcepho/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index c3fec16..cd0993b 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -550,7 +550,7 @@ def run_dynesty(model, q, lower=0, upper=1.0, nlive=50):
         return theta
 
     sampler = dynesty.DynamicNestedSampler(model.lnprob, prior_transform, ndim, nlive=nlive,
-                                           bound="multi", method="rwalk", bootstrap=0)
+                                           bound="multi", sample="rwalk", bootstrap=0)
     t0 = time.time()
     sampler.run_nested(nlive_init=int(nlive/2), nlive_batch=int(nlive),
                        wt_kwargs={'pfrac': 1.0}, stop_kwargs={"post_thresh": 0.2})
-- 
2.43.0


From dd52af220ab96a86eca3d27ebf83a46c4f30964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:27 +0000
Subject: [PATCH 43/94] fix: the patch stays prepared for its sources after a
 linear flux solution

---
 forcepho/patches/device_patch.py | 13 +++++++++++--
 forcepho/patches/patch.py        |  8 ++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 4434343..375e753 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -222,8 +222,9 @@ class DevicePatchMixin:
         if not proposer:
             proposer = self.get_proposer()
 
-        # Pack first scene and send it with pixel data
-        self.return_residual = True
+        # what the patch was prepared for
+        orig, zero = getattr(self, "scene", None), self.patch_reference_coordinates
+        orig_return, self.return_residual = self.return_residual, True
         # loop over scenes/sources
         for i, scene in enumerate(scenes):
             # get the metadata for this scene packed and sent (data pointers do not change)
@@ -240,6 +241,14 @@ class DevicePatchMixin:
             for j, b in enumerate(self.bandlist):
                 Xes[j][i, :] = split[j] / active[i][b]
 
+        # leave the patch as it was prepared
+        self.return_residual = orig_return
+        if orig is not None:
+            self.patch_reference_coordinates = zero
+            self.pack_meta(self.unzerocoords(orig), sky_zero=zero)
+            self.replace_device_meta_ptrs()
+            self.send_patchstruct_to_device()
+
         return Xes, ys
 
     def render(self, catalog, splinedata=None):
diff --git a/forcepho/patches/patch.py b/forcepho/patches/patch.py
index 58bf25f..42d4f27 100644
--- a/forcepho/patches/patch.py
+++ b/forcepho/patches/patch.py
@@ -239,7 +239,7 @@ class Patch(PatchBase):
 
         self.patch_reference_coordinates = np.zeros(2)
 
-    def pack_meta(self, scene):
+    def pack_meta(self, scene, sky_zero=None):
         """This method packs all the exposure and source metadata.  Most of
         this data is scene/source dependent, so in this way we can change the
         scene without repacking the pixel data.  This requires the following
@@ -256,10 +256,14 @@ class Patch(PatchBase):
         ----------
         scene : instance of :py:class:`forcepho.sources.Scene`
             The scene to use for generating metadata.
+
+        sky_zero : optional, 2-tuple of float64
+            The reference coordinates to use, if not the median coordinates of
+            the scene.
         """
         # Set a reference coordinate near center of scene;
         # Subtract this from source coordinates
-        self.patch_reference_coordinates = self.zerocoords(scene)
+        self.patch_reference_coordinates = self.zerocoords(scene, sky_zero=sky_zero)
         # Cache number of sources
         self.n_sources = len(scene.sources)
 
-- 
2.43.0


From 9d1d402bb89cd94a3fed1b2f402aae2b1d840064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:27 +0000
Subject: [PATCH 44/94] fix: parameters after linear optimisation are those of
 the scene being fit

---
 forcepho/tasks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/tasks.py b/forcepho/tasks.py
index dcd70b9..6def437 100644
--- a/forcepho/tasks.py
+++ b/forcepho/tasks.py
@@ -71,10 +71,11 @@ def optimize(patcher, scene, config, logger,
             bounds[b][:, 0] = lo
             bounds[b][:, 1] = hi
             active[b] = f
-        patcher.set_scene(active)
+        scene = patcher.set_scene(active)
+        patcher.zerocoords(scene, sky_zero=patcher.patch_reference_coordinates)
         scratchpad.active_postlinear = active.copy()
         scratchpad.bounds_postlinear = bounds.copy()
-        scratchpad.q_postlinear = patcher.scene.get_all_source_params().copy()
+        scratchpad.q_postlinear = scene.get_all_source_params().copy()
 
     return (out, step, stats), (region, active, fixed, bounds), model
 
-- 
2.43.0


From 26987c4a60ce274dd8b8c363371019505d0e5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:13 +0000
Subject: [PATCH 45/94] fix: results can be written to the current directory

---
 forcepho/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index cd0993b..5dac4fe 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -189,7 +189,7 @@ class Result(object):
         """
         msgs = []
         import h5py
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         with h5py.File(filename, "w") as out:
             for name, value in vars(self).items():
                 if type(value) == np.ndarray:
-- 
2.43.0


From 06f1900d7fce87a7023957b68959a4dce5d031dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:13 +0000
Subject: [PATCH 46/94] fix: read scalar datasets of saved results

---
 forcepho/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index 5dac4fe..7b498af 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -213,7 +213,7 @@ class Result(object):
         out = self
         with h5py.File(filename, "r") as f:
             for k, v in f.items():
-                setattr(out, k, f[k][:])
+                setattr(out, k, f[k][()])
             for k, v in f.attrs.items():
                 setattr(out, k, v)
 
-- 
2.43.0


From 8dc6bfce036d2be8c985d442884ec3f6a2985ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:13 +0000
Subject: [PATCH 47/94] fix: an array that cannot be saved does not stop the
 rest of a result from being saved

---
 forcepho/fitting.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index 7b498af..cf217e3 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -192,17 +192,17 @@ class Result(object):
         os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         with h5py.File(filename, "w") as out:
             for name, value in vars(self).items():
-                if type(value) == np.ndarray:
-                    out.create_dataset(name, data=value)
-                else:
-                    try:
+                try:
+                    if type(value) == np.ndarray:
+                        out.create_dataset(name, data=value)
+                    else:
                         out.attrs[name] = value
-                    except:
-                        msg = "could not save {} with value {} to {}".format(name, value, filename)
-                        if verbose:
-                            print(msg)
-                        else:
-                            msgs.append(msg)
+                except:
+                    msg = "could not save {} with value {} to {}".format(name, value, filename)
+                    if verbose:
+                        print(msg)
+                    else:
+                        msgs.append(msg)
 
         return msgs
 
-- 
2.43.0


From b3273acadfeaf69d7f02ce03afcdc215235e366c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:13 +0000
Subject: [PATCH 48/94] fix: images filled from different residuals are kept
 apart

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 813888f..c0bf3f3 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -121,10 +121,12 @@ class Residuals:
         pix = sky_to_pix(ra, dec, ee, ref_coords=self.reference_coordinates)
         return pix
 
-    def fill_images(self, images={}, headers={}, fill_type="residual",
+    def fill_images(self, images=None, headers=None, fill_type="residual",
                     metastore=None, imshape=(2048, 2048)):
         """Add the stored pixel data to the images in the supplied `images` dictionary.
         """
+        images = {} if images is None else images
+        headers = {} if headers is None else headers
         for e in self.exposures:
             # create the empty array
             if e not in images:
-- 
2.43.0


From 8dcbaefdcc8fa789675c966c8ffcf47538ada9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:13 +0000
Subject: [PATCH 49/94] fix: sizes of reassembled images are those of each
 exposure

---
 forcepho/postprocess.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index c0bf3f3..fe76810 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -133,13 +133,15 @@ class Residuals:
                 if metastore is not None:
                     band, exp = e.split("/")
                     hdr = metastore.headers[band][exp]
-                    imshape = (hdr["NAXIS1"], hdr["NAXIS2"])
+                    shape = (hdr["NAXIS1"], hdr["NAXIS2"])
                     headers[e] = hdr
                 elif os.path.exists(e):
-                    hdr = fits.getheader(e)
-                    imshape = (hdr["NAXIS1"], hdr["NAXIS2"])
+                    hdr = self.image_header(e)
+                    shape = (hdr["NAXIS1"], hdr["NAXIS2"])
                     headers[e] = hdr
-                images[e] = np.zeros(imshape) + np.nan
+                else:
+                    shape = imshape
+                images[e] = np.zeros(shape) + np.nan
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
@@ -147,6 +149,16 @@ class Residuals:
 
         return images, headers
 
+    @staticmethod
+    def image_header(filename):
+        """The header of the first image in a FITS file
+        """
+        with fits.open(filename) as hdul:
+            for hdu in hdul:
+                if hdu.header["NAXIS"] == 2:
+                    return hdu.header.copy()
+        raise ValueError(f"{filename} has no images")
+
 
 class Samples(Result):
     """An alias for the forcepho.fitting.Result class
-- 
2.43.0


From 8213ef2663f31cbae5f511c021f03c7a8ee1548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:13 +0000
Subject: [PATCH 50/94] fix: padding does not overwrite a pixel of reassembled
 images

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index fe76810..50a6641 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -145,7 +145,9 @@ class Residuals:
             # Fill array with values for this patch
             xpix, ypix = self.handle[e]["xpix"][:].astype(int), self.handle[e]["ypix"][:].astype(int)
             arr = self.handle[e][fill_type][:]
-            images[e][xpix, ypix] = arr
+            # padding pixels have negative coordinates
+            g = (xpix >= 0) & (ypix >= 0)
+            images[e][xpix[g], ypix[g]] = arr[g]
 
         return images, headers
 
-- 
2.43.0


From 03eb34f2ddfb9de0c10c8f568b958adf79c26d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:46 +0000
Subject: [PATCH 51/94] fix: sample catalogs of selected patches have a row for
 every source

---
 forcepho/postprocess.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 50a6641..1841af4 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -279,11 +279,9 @@ def postsample_catalog(root, catname=None, patches=None):
         parameters of that source each with shape (n_sample,)
     """
     # get summary info
+    config, plog, slog, final = run_metadata(root)
     if patches is None:
-        config, plog, slog, final = run_metadata(root)
         patches = plog
-    else:
-        final = patches
 
     # Get catalog data type
     s = Samples(f"{root}/patches/patch{patches[0]}_samples.h5")
-- 
2.43.0


From b86da6a002ee0091e994b880578737ab4c1c3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:46 +0000
Subject: [PATCH 52/94] fix: flux uncertainties fall back to the default
 without precision matrices

---
 forcepho/postprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 1841af4..b80955b 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -358,6 +358,7 @@ def flux_unc_linear(root, snr_max=1000):
 
         if not hasattr(s, "precisions"):
             print(f"flux_unc_linear: No precisons for {patchfile}")
+            continue
 
         for i, b in enumerate(s.bands):
             flux = s.final[b]
-- 
2.43.0


From ec65f851ba359c61aae21eb7560bc9e4587b6080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:46 +0000
Subject: [PATCH 53/94] fix: chains of sources in several patches come from
 those patches

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index b80955b..f7c8fa6 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -385,7 +385,7 @@ def find_multipatch(root):
         A list of the posterior sample chains for each source.
     """
     config, plog, slog, final = run_metadata(root)
-    samples = [Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog]
+    samples = {int(p): Samples(f"{root}/patches/patch{p}_samples.h5") for p in plog}
     chains, sources, patches = [], [], []
     for sid, pids in slog.items():
         if len(pids) == 1:
-- 
2.43.0


From 51a4144c375e9d82f5c396f6905ea7425100f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:46 +0000
Subject: [PATCH 54/94] fix: check_multipatch uses the columns of the chains

---
 forcepho/postprocess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index f7c8fa6..2c5b2e0 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -406,7 +406,9 @@ def check_multipatch(root, n_sample=256):
     stats = {}
     for s, p, c in zip(sid, pids, chains):
         stats[s] = {}
-        for col in vcols:
+        for col in c.dtype.names:
+            if col == "source_index":
+                continue
             sm = c[col][:, -n_sample:]
             stats[s][col] = sm.mean(axis=-1), sm.std(axis=-1)
     return stats
-- 
2.43.0


From d5f8dd9eb696eb9ce730036647470569fbb7bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:46 +0000
Subject: [PATCH 55/94] fix: region files of sources and patches

---
 forcepho/postprocess.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 2c5b2e0..62b8816 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -15,6 +15,8 @@ import h5py
 
 from .fitting import Result
 from .utils import sky_to_pix, populate_image, isophotal_radius
+from .utils import cat_to_regions
+from .utils import pctile_cat as make_errorbars
 from .patches.storage import MetaStore
 from .superscene import flux_bounds
 
@@ -434,8 +436,8 @@ def write_sourcereg(root, slist="sources.reg", showid=False,
         roi[np.isnan(roi)] = cat["rhalf"][np.isnan(roi)]
     else:
         roi = cat["rhalf"]
-    regions = cat_to_reg(cat, roi=roi, ellipse=True)
-    regions.write(slist, format="ds9", overwrite=True)
+    regions = cat_to_regions(cat, roi=roi, ellipse=True, showid=showid)
+    regions.write(rfile, format="ds9", overwrite=True)
 
     return regions
 
@@ -445,7 +447,7 @@ def write_patchreg(patchlist, plist="./patches.reg"):
     patchlist : list of str
         The names of the _samples.h5 files constituting the patches
     """
-    patchlist.sort()
+    patchlist = sorted(patchlist)
 
     with open(plist, "w") as out:
         out.write("global color=blue\n")
@@ -677,7 +679,7 @@ if __name__ == "__main__":
 
     if args.mode == 'images':
         write_images(args.root, metafile=args.metafile, show_model=True)
-        write_patchreg(args.root)
+        write_patchreg(glob.glob(f"{args.root}/patches/*samples*h5"))
         write_sourcereg(args.root, showid=True)
 
     elif args.mode == 'patches':
-- 
2.43.0


From 4eb0e15cef76c9a012316552883d3770077cb0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:46 +0000
Subject: [PATCH 56/94] fix: combine chains of sources with integer identifiers

---
 forcepho/utils/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 63b13d0..3ebfd78 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -67,10 +67,10 @@ def combine_chains(chaincat, bands, groups={}):
     dtype = out_dtype(npoint, shapes=["ra", "dec"], bands=bands)
     ocat = np.zeros(len(groups), dtype=dtype)
 
-    mid = scat["id"].tolist()
+    mid = [str(i) for i in scat["id"].tolist()]
     # loop over combined objects
     for i, (g, sub) in enumerate(groups.items()):
-        ocat[i]["id"] = float(g)
+        ocat[i]["id"] = str(g)
         hdr[f"G{g}"] = ",".join([str(s) for s in sub])
         # get indices of components for this combination
         ids = [str(s) for s in sub]
-- 
2.43.0


From 3b04bcd5993e16d6bae56aac7a27ef0a84d89474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:31 +0000
Subject: [PATCH 57/94] fix: tables without extension names are appended in
 order

---
 forcepho/utils/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index 3ebfd78..aa32231 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -48,7 +48,7 @@ def append_catalogs(infilenames, out):
                 try:
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
-                    catlists[i].append(hdul[i].data.copy())
+                    catlists[i].append(hdul[i + 1].data.copy())
             hdr = hdul[1].header
 
     cats = [np.concatenate(catlist)
-- 
2.43.0


From 61800568c0ccb3c9abf3f1e1fafede05c366f7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:52 +0000
Subject: [PATCH 58/94] fix: reassemble images of exposures kept in
 sub-directories

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 62b8816..752a8eb 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -133,7 +133,7 @@ class Residuals:
             # create the empty array
             if e not in images:
                 if metastore is not None:
-                    band, exp = e.split("/")
+                    band, exp = e.split("/", 1)
                     hdr = metastore.headers[band][exp]
                     shape = (hdr["NAXIS1"], hdr["NAXIS2"])
                     headers[e] = hdr
-- 
2.43.0


From aab6fed403e63671ce64edc0f064ab4c97474cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:19 +0000
Subject: [PATCH 59/94] fix: appended catalogs keep the layout and names of
 each table

---
 forcepho/utils/catalog.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/catalog.py b/forcepho/utils/catalog.py
index aa32231..f61091f 100644
--- a/forcepho/utils/catalog.py
+++ b/forcepho/utils/catalog.py
@@ -49,7 +49,9 @@ def append_catalogs(infilenames, out):
                     catlists[i].append(hdul[ext].data.copy())
                 except(KeyError):
                     catlists[i].append(hdul[i + 1].data.copy())
-            hdr = hdul[1].header
+            # leave out the keywords that describe this particular table
+            hdr = hdul[1].header.copy(strip=True)
+            hdr.remove("EXTNAME", ignore_missing=True)
 
     cats = [np.concatenate(catlist)
             for catlist in catlists]
-- 
2.43.0


From 36daa3465e107fd4acc5a2d6aff7278608c30b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:19 +0000
Subject: [PATCH 60/94] fix: region ellipses have the orientation of the source

---
 forcepho/utils/ds9.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forcepho/utils/ds9.py b/forcepho/utils/ds9.py
index 1eb01bd..3d1fd26 100644
--- a/forcepho/utils/ds9.py
+++ b/forcepho/utils/ds9.py
@@ -37,8 +37,10 @@ def cat_to_regions(cat, roi=None, ellipse=True, showid=True):
             pa = 0.0
         a = roi[i] / sqrtq
         b = sqrtq * roi[i]
-        reg = EllipseSkyRegion(center=center_sky, height=b * u.arcsec,
-                               width=a * u.arcsec, angle=pa * u.deg)
+        # region angles go from West to North, so the height axis is at `pa`
+        # North of East
+        reg = EllipseSkyRegion(center=center_sky, height=a * u.arcsec,
+                               width=b * u.arcsec, angle=pa * u.deg)
         regs.append(reg)
 
     reglist = Regions(regs)
-- 
2.43.0


From fca104d80e21c71fd01a4c761d3f5cb82e516e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:18 +0000
Subject: [PATCH 61/94] fix: catalogs keep source identifiers larger than 32
 bits

---
 forcepho/postprocess.py | 2 +-
 forcepho/superscene.py  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 752a8eb..f4194fe 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -289,7 +289,7 @@ def postsample_catalog(root, catname=None, patches=None):
     s = Samples(f"{root}/patches/patch{patches[0]}_samples.h5")
     bands, shapes, n_sample = list(s.bands), list(s.shape_cols), s.n_sample
     params = bands + shapes
-    icols = [("id", "<i4"), ("source_index", "<i4"), ("patch_id", "<i4"),
+    icols = [("id", "<i8"), ("source_index", "<i4"), ("patch_id", "<i4"),
              ("wall", "<f4"), ("lnp", "<f8", n_sample)]
     new = np.dtype(icols + [(c, float, n_sample) for c in params])
 
diff --git a/forcepho/superscene.py b/forcepho/superscene.py
index 9ad2084..cc0c937 100644
--- a/forcepho/superscene.py
+++ b/forcepho/superscene.py
@@ -785,10 +785,11 @@ def sourcecat_dtype(source_type=np.float64, bands=[]):
     """Get a numpy.dtype object that describes the structured array
     that will hold the source parameters
     """
-    tags = ["id", "source_index", "is_active", "is_valid",
+    tags = ["source_index", "is_active", "is_valid",
             "n_iter", "n_patch"]
 
-    dt = [(t, np.int32) for t in tags]
+    dt = [("id", np.int64)]
+    dt += [(t, np.int32) for t in tags]
     dt += [("roi", np.float32)]
     dt += [(c, source_type)
            for c in Galaxy.SHAPE_COLS]
-- 
2.43.0


From f77598b039e852c441059d695cc49d7e7beb82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 62/94] fix: all forms of command line options override the
 configuration file

---
 forcepho/config.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index e641006..e1510ea 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -1,6 +1,6 @@
 # -*- coding: utf-8 -*-
 
-import os, argparse
+import os, argparse, copy
 from argparse import Namespace, ArgumentParser
 import numpy as np
 
@@ -266,13 +266,12 @@ def rectify_config(config):
 
 
 def new_args(parser, argv):
-    nconf = Namespace()
-    oconf = parser.parse_args(argv)
-    for k, v in vars(oconf).items():
-        #if v == parset.get_default(k):
-        if f"--{k}" not in argv:  # Ugly HACK
-            continue
-        setattr(nconf, k, v)
+    # Parse the arguments with a copy of the parser that has no default values
+    bare = copy.deepcopy(parser)
+    bare._defaults.clear()
+    for action in bare._actions:
+        action.default = argparse.SUPPRESS
+    nconf = bare.parse_args(argv)
     return nconf
 
 
-- 
2.43.0


From 8ed47d0b35b4cd4e993710260673a8ba3d62d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 63/94] fix: configuration can be given as a dictionary

---
 forcepho/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index e1510ea..f324f4e 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -210,7 +210,7 @@ def yaml_to_namespace(config_file):
         with open(config_file) as f:
             config_dict = yaml.load(f, Loader=yaml.Loader)
     elif type(config_file) is dict:
-        config_dict = yaml.load(config_file, Loader=yaml.Loader)
+        config_dict = config_file
 
     config = Namespace(**config_dict)
 
-- 
2.43.0


From 170d2fa98054e85511af4f7b49f315838f81c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 64/94] fix: write the default configuration

---
 forcepho/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forcepho/config.py b/forcepho/config.py
index f324f4e..148d007 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -137,13 +137,13 @@ def preprocess_config_parser():
 
 def default_config_file(filename="", **kwargs):
     parser = main_config_parser(**kwargs)
-    config = parser.parse_args()
+    config = parser.parse_args([])
     import yaml
-    configtext = yaml.dumps(vars(config))
+    configtext = yaml.dump(vars(config))
     if filename:
         with open(filename, "w") as cfile:
-            cfile.write(ctext)
-    return cfile
+            cfile.write(configtext)
+    return configtext
 
 
 def parse_all(parser, argv):
-- 
2.43.0


From 14439c2423f63397b07aa19eef44e3831e4fb8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 65/94] fix: stores that are not named do not stop a
 configuration from being read

---
 forcepho/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forcepho/config.py b/forcepho/config.py
index 148d007..7d19c74 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -241,6 +241,8 @@ def rectify_config(config):
             try:
                 attr = "{}storefile".format(store)
                 n = getattr(config, attr)
+                if not n:
+                    continue
                 new = os.path.join(config.store_directory, n)
                 setattr(config, attr, new)
             except(AttributeError):
-- 
2.43.0


From ac3ef43689606ce41759ed2dc1eef5263eb95a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:32 +0000
Subject: [PATCH 66/94] fix: expand shell variables in lists of configuration
 values

---
 forcepho/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/config.py b/forcepho/config.py
index 7d19c74..9c768e2 100644
--- a/forcepho/config.py
+++ b/forcepho/config.py
@@ -257,6 +257,7 @@ def rectify_config(config):
             pass
         # turn lists into arrays
         if type(v) is list:
+            v = [os.path.expandvars(x) if type(x) is str else x for x in v]
             setattr(config, k, np.array(v))
         # turn dtype strings into dtypes
         if "dtype" in k:
-- 
2.43.0


From f5672a876131517205753e8dcd273432c3e0daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:01 +0000
Subject: [PATCH 67/94] fix: results store configurations that include arrays

---
 forcepho/utils/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/utils/io.py b/forcepho/utils/io.py
index 278c846..caf1434 100644
--- a/forcepho/utils/io.py
+++ b/forcepho/utils/io.py
@@ -37,7 +37,8 @@ def write_to_disk(out, outroot, model, config, residual=None):
     # --- write the chain and meta-data for this task ---
     outfile = f"{outroot}_samples.h5"
     try:
-        out.config = json.dumps(vars(config))
+        from . import NumpyEncoder
+        out.config = json.dumps(vars(config), cls=NumpyEncoder)
     except(TypeError):
         pass
     out.dump_to_h5(outfile)
-- 
2.43.0


From b4fe78aa1fe25882f183dd124f3d8a56a6b8655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 68/94] fix: the dispatcher can be imported and run

---
 forcepho/dispatcher.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 2c7a088..96f5bfa 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -18,13 +18,15 @@ import numpy as np
 from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
-from .utils import read_config
+from .config import read_config
 #from .child import sampling_task, optimization_task
 
 
 __all__ = ["MPIQueue",
            "do_child", "do_parent"]
 
+logger = logging.getLogger('dispatcher')
+
 
 class MPIQueue:
     """Simple implementation of an MPI queue.  Work can be submitted to the queue
@@ -79,6 +81,8 @@ class MPIQueue:
         result : object
             The result generated and passed by the child.
         """
+        from mpi4py import MPI
+
         if blocking == 'all' and not self.irecv_handles:
             return []
 
@@ -115,6 +119,8 @@ class MPIQueue:
         child process at the top of the (idle) queue. If no children are idle,
         an error is raised.
         """
+        from mpi4py import MPI
+
         if tag == 'any':
             tag = MPI.ANY_TAG
 
@@ -247,6 +253,8 @@ def do_parent(comm, config=None):
 
 
 def do_child(comm, config=None):
+    from mpi4py import MPI
+
     rank = comm.Get_rank()
     logger = logging.getLogger(f'child-{rank}')
     parent = 0
@@ -319,6 +327,7 @@ def dummy_work(patcher, task, config, logger):
 
 def main(config=None):
     # Demo usage of the queue
+    from mpi4py import MPI
 
     # MPI communicator
     comm = MPI.COMM_WORLD
@@ -342,9 +351,6 @@ class ArgParseFormatter(argparse.RawDescriptionHelpFormatter, argparse.ArgumentD
 
 
 if __name__ == "__main__":
-    # Hide this MPI import in __main__ so one can import this module without MPI
-    from mpi4py import MPI
-
     parser = argparse.ArgumentParser(description='MPI dispatcher interface',
                                      formatter_class=ArgParseFormatter)
     # Any command line arguments can be added here
-- 
2.43.0


From 195e78290bc6b946f9964d237d405bdb43f23437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 69/94] fix: collecting results when nothing is outstanding

---
 forcepho/dispatcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 96f5bfa..1720920 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -83,7 +83,7 @@ class MPIQueue:
         """
         from mpi4py import MPI
 
-        if blocking == 'all' and not self.irecv_handles:
+        if blocking in (False, 'all') and not self.irecv_handles:
             return []
 
         if blocking and not self.irecv_handles:
-- 
2.43.0


From 47e1091dbf1115650b27bea49074373185aa1f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 70/94] fix: tasks can be submitted without a tag

---
 forcepho/dispatcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 1720920..3ed3b4e 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -121,8 +121,8 @@ class MPIQueue:
         """
         from mpi4py import MPI
 
-        if tag == 'any':
-            tag = MPI.ANY_TAG
+        # messages have to be sent with a definite tag
+        send_tag, recv_tag = (0, MPI.ANY_TAG) if tag == 'any' else (tag, tag)
 
         # Why make this an error rather than queue it up for later?
         # Because we want to generate tasks with the freshest SuperScene info
@@ -137,10 +137,10 @@ class MPIQueue:
         logger.info(f'Sending task {tag} to child {child}')
         if child in self.busy:
             raise ValueError(f'About to send task to child {child} that is already busy!')
-        self.comm.send(task, dest=child, tag=tag)
+        self.comm.send(task, dest=child, tag=send_tag)
         # Queue up the eventual receive of the result
         irecv_bufsize = int(10e6)  # TODO: have to specify a max recv size. Better way to do this? The Jades demo payload is 50 KB.
-        rreq = self.comm.irecv(irecv_bufsize, source=child, tag=tag)
+        rreq = self.comm.irecv(irecv_bufsize, source=child, tag=recv_tag)
         self.irecv_handles += [rreq]
         self.busy += [child]
         return child
-- 
2.43.0


From 5b0446ea2cbd69fe5c552b74ec0ae0782c79ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 71/94] fix: children do the task that was configured

---
 forcepho/dispatcher.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index 3ed3b4e..f925ce2 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -19,7 +19,7 @@ from astropy.io import fits
 
 from .superscene import SuperScene, LinkedSuperScene, rectify_catalog
 from .config import read_config
-#from .child import sampling_task, optimization_task
+from .tasks import optimize, sample
 
 
 __all__ = ["MPIQueue",
@@ -268,12 +268,13 @@ def do_child(comm, config=None):
                          return_residual=True)
 
     # --- What are we doing? ---
-    #if config.mode == "optimization":
-    #    work = optimize
-    #elif config.mode == "sampling":
-    #    work = sample
-    #else:
-    work = dummy_work
+    mode = getattr(config, "mode", None)
+    if mode == "optimization":
+        work = optimize
+    elif mode == "sampling":
+        work = sample
+    else:
+        work = dummy_work
 
     # --- Event Loop ---
     while True:
-- 
2.43.0


From 74e8f4e46ad141727e0a0aa91ee8576fdf4667c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 72/94] fix: results are logged with the patch they belong to

---
 forcepho/dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index f925ce2..a14aae1 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -233,7 +233,7 @@ def do_parent(comm, config=None):
                 sceneDB.checkin_region(result['final'], result['out'].fixed,
                                        config.sampling_draws,
                                        block_covs=result['covs'],
-                                       taskID=taskid)
+                                       taskID=result['out'].patchID)
 
         # Receive any stragglers
         results = queue.collect(blocking='all')
@@ -295,7 +295,7 @@ def do_child(comm, config=None):
         region, active, fixed, bounds = scene
         out, step, stats = fit
         final, covs = out.fill(region, active, fixed, model, bounds=bounds,
-                               step=step, stats=stats, patchID=0)
+                               step=step, stats=stats, patchID=status.tag)
 
         # --- write to disk? ---
 
-- 
2.43.0


From 5b92dafc7683703ffabd7e9fdc286a0465f915a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:35 +0000
Subject: [PATCH 73/94] fix: results that arrive last are checked in

---
 forcepho/dispatcher.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/forcepho/dispatcher.py b/forcepho/dispatcher.py
index a14aae1..60712b5 100644
--- a/forcepho/dispatcher.py
+++ b/forcepho/dispatcher.py
@@ -238,10 +238,11 @@ def do_parent(comm, config=None):
         # Receive any stragglers
         results = queue.collect(blocking='all')
         logger.info(f'Collected {len(results)} straggler result(s)')
-        # TODO: finalize the checkin args, then update this
-        #for result in results:
-        #    sceneDB.checkin_region(result.active, result.fixed,
-        #                           result.niter, mass_matrix=None)
+        for result in results:
+            sceneDB.checkin_region(result['final'], result['out'].fixed,
+                                   config.sampling_draws,
+                                   block_covs=result['covs'],
+                                   taskID=result['out'].patchID)
 
         ttotal = timer() - tstart
         logger.info(f"Finished in {ttotal:.1f}s")
-- 
2.43.0


From 6360280d7b76fd361cc403a6dabc4a689559bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:47 +0000
Subject: [PATCH 74/94] fix: pixel coordinates of the pixel store do not wrap

They were stored as 16 bit integers, so images with a side of more than 32768
pixels got negative coordinates.
---
 forcepho/patches/storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index b0f3306..a76adbd 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -148,8 +148,8 @@ class PixelStore:
         # NOTE: the order swap here for x, y
         yy, xx = np.meshgrid(np.arange(imsize[1]), np.arange(imsize[0]))
         packed = self.superpixelize(xx, yy)
-        xpix = packed[:, :, :self.super_pixel_size**2].astype(np.int16)
-        ypix = packed[:, :, self.super_pixel_size**2:].astype(np.int16)
+        xpix = packed[:, :, :self.super_pixel_size**2].astype(np.int32)
+        ypix = packed[:, :, self.super_pixel_size**2:].astype(np.int32)
         return xpix, ypix
 
     def add_exposure(self, imset, bitmask=None, do_fluxcal=False):
-- 
2.43.0


From b2c6d92582a6200ed90f665031148adc37f53d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:33 +0000
Subject: [PATCH 75/94] fix: gradients of a rendered subset of sources

---
 forcepho/slow/likelihood.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index 21395b2..239990a 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -102,7 +102,12 @@ def make_image(scene, stamp, Theta=None, use_sources=slice(None),
     plan.reset()
     plan.process_pixels()
     im = -plan.residual[use_sources].sum(axis=0).reshape(plan.stamp.nx, plan.stamp.ny)
-    grad = plan.gradients[use_sources].reshape(-1, stamp.npix)[grad_inds, :]
+    # `grad_inds` are indices into the gradients of *all* active sources; the
+    # sources that are not used do not contribute
+    used = np.zeros(plan.nactive + plan.nfixed)
+    used[use_sources] = 1
+    gradients = plan.gradients * used[:plan.nactive, None, None]
+    grad = gradients.reshape(-1, stamp.npix)[grad_inds, :]
 
     return im, grad
 
-- 
2.43.0


From 9e4673b104c54c76cf344b33174f0c34a97be6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 76/94] fix: least squares fits of PSF mixtures

fit_mvn_mix(method_opt='scipy_ls') always raised TypeError, because create_ans
was called without its second argument, and scipy refused the initial guess
(ValueError) whenever the random center was off the edge of a small image.
---
 forcepho/mixtures/psf_mix_em.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forcepho/mixtures/psf_mix_em.py b/forcepho/mixtures/psf_mix_em.py
index 35537b9..9abacda 100644
--- a/forcepho/mixtures/psf_mix_em.py
+++ b/forcepho/mixtures/psf_mix_em.py
@@ -123,11 +123,11 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
                 return (image_data.flatten() -
                         mvn_pdf_2d_mix_fn(num_mix,x_max,y_max)(params).flatten())
 
-            res = least_squares(chivec, all_init,
-                                bounds=([-np.inf, 0, 0, 0, 0, -1]*num_mix,
-                                        [np.inf, x_max-1, y_max-1, np.inf, np.inf, 1]*num_mix)
-                                )
-            ans_repeat.append(create_ans(res.x))
+            bounds = (np.array([-np.inf, 0, 0, 0, 0, -1]*num_mix),
+                      np.array([np.inf, x_max-1, y_max-1, np.inf, np.inf, 1]*num_mix))
+            # the starting point has to lie within the bounds
+            res = least_squares(chivec, np.clip(all_init, *bounds), bounds=bounds)
+            ans_repeat.append(create_ans(res.x, {}))
         elif method_opt == 'em':
             def log_likelihood(params):
                 return np.sum(image_data * np.log(mvn_pdf_2d_mix_fn(num_mix, x_max, y_max)(params)))
-- 
2.43.0


From 94b7599e6c9da1cbdfc36a1e147a4fc96c621c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 77/94] fix: EM answers hold the parameters and likelihood they
 describe

When the likelihood became NaN at the first step the fitted parameters in the
answer were the work array of initial values, which the next repeat overwrites,
and the likelihood was NaN instead of that of the parameters in the answer.
---
 forcepho/mixtures/psf_mix_em.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/mixtures/psf_mix_em.py b/forcepho/mixtures/psf_mix_em.py
index 9abacda..c200c8f 100644
--- a/forcepho/mixtures/psf_mix_em.py
+++ b/forcepho/mixtures/psf_mix_em.py
@@ -131,7 +131,7 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
         elif method_opt == 'em':
             def log_likelihood(params):
                 return np.sum(image_data * np.log(mvn_pdf_2d_mix_fn(num_mix, x_max, y_max)(params)))
-            curr_params = all_init
+            curr_params = all_init.copy()
             curr_log_likelihood = log_likelihood(curr_params)
             # weights = 3-dim array x,y,k - weights[x,y,k] propto N(x,y|param_k) and sum over k = 1
             # param_k is param[6*k:(6*k+6)]
@@ -181,7 +181,7 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
                     print('new params', new_params.reshape([num_mix,6]))
                     # create answer with the param right before log likelihood is nan
                     ans_repeat.append(create_ans(curr_params,
-                            {'loop_count':loop_count, 'final_log_likelihood':new_log_likelihood}))
+                            {'loop_count':loop_count, 'final_log_likelihood':curr_log_likelihood}))
                     break
                 if printint and (loop_count+1) % 5000 == 0:
                     print('loop count', loop_count)
-- 
2.43.0


From 5b5373b368555aedacc2c65016146abb2b7800d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 78/94] fix: EM fits that do not converge give an answer

A run that reached the largest number of loops was dropped, so that there were
fewer answers than repeats (none at all with one repeat, where
returnfull=False then raised), and psf_mixture stored rows of zeros.
---
 forcepho/mixtures/psf_mix_em.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/forcepho/mixtures/psf_mix_em.py b/forcepho/mixtures/psf_mix_em.py
index c200c8f..645dbed 100644
--- a/forcepho/mixtures/psf_mix_em.py
+++ b/forcepho/mixtures/psf_mix_em.py
@@ -201,6 +201,10 @@ def fit_mvn_mix(image_data, num_mix, method_opt, method_init,
                 curr_params = new_params
                 curr_log_likelihood = new_log_likelihood
                 loop_count += 1
+            else:
+                # no convergence within the allowed number of loops
+                ans_repeat.append(create_ans(curr_params,
+                        {'loop_count':loop_count, 'final_log_likelihood':curr_log_likelihood}))
     if returnfull:
         return ans_repeat
     else:
-- 
2.43.0


From 842d2cf764fff85b23d152c2804224052aea8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 79/94] fix: PSF images of integers can be fitted

The in-place normalisation raised UFuncTypeError for integer FITS images.
---
 forcepho/mixtures/utils_em.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/mixtures/utils_em.py b/forcepho/mixtures/utils_em.py
index 27e0b90..77d78e2 100644
--- a/forcepho/mixtures/utils_em.py
+++ b/forcepho/mixtures/utils_em.py
@@ -78,7 +78,7 @@ def psf_mixture(psfimname, band, nmix, nrepeat=5,
         stop = size
     data = data[start[0]:stop[0], start[1]:stop[1]]
     fractional_flux = data.sum() * 1.0 / total_flux
-    data /= data.sum()
+    data = data / data.sum()
 
     try:
         from astropy.wcs import WCS
-- 
2.43.0


From c6e0ca140af1dbfca28fdadf9baf91b30542792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 80/94] fix: centers of the mixtures of PSF images that are not
 square

params_to_gauss flips the fitted centers to x, y but psf_mixture gave it the
image center and the start of the cutout in row, column order.
---
 forcepho/mixtures/utils_em.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forcepho/mixtures/utils_em.py b/forcepho/mixtures/utils_em.py
index 77d78e2..d29378d 100644
--- a/forcepho/mixtures/utils_em.py
+++ b/forcepho/mixtures/utils_em.py
@@ -106,7 +106,9 @@ def psf_mixture(psfimname, band, nmix, nrepeat=5,
     for i, r in enumerate(results):
         # Note this flips the x and y axes from what is in `result`
         # It also makes sure x and y are relative to the center in the full image
-        pars = params_to_gauss(r, oversample=oversample, start=start, center=center_full)
+        # `start` and `center_full` are in the (row, column) order of the image.
+        pars = params_to_gauss(r, oversample=oversample,
+                               start=start[::-1], center=center_full[::-1])
         x, y, vx, vy, vxy, amp = pars
         for j in range(nmix):
             parameters[i, j] = (x[j], y[j], vx[j], vy[j], vxy[j], amp[j])
-- 
2.43.0


From bcc48736f5f484dc3f734bc89b2c1b9baff0dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 81/94] fix: profile mixtures with free radii

chisq (and fit_gaussians) without radii raised TypeError in Python 3, from
slicing with len(params)/2.
---
 forcepho/mixtures/sersic_mix_oned.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/mixtures/sersic_mix_oned.py b/forcepho/mixtures/sersic_mix_oned.py
index 8d20526..aba5e07 100644
--- a/forcepho/mixtures/sersic_mix_oned.py
+++ b/forcepho/mixtures/sersic_mix_oned.py
@@ -97,8 +97,8 @@ def chisq(params, x=None, target=None, radii=None,
         disps = np.exp(radii)
         amps = np.exp(params[:len(radii)])
     else:
-        amps = np.exp(params[:len(params)/2])
-        disps = np.exp(params[len(params)/2:])
+        amps = np.exp(params[:len(params)//2])
+        disps = np.exp(params[len(params)//2:])
     # this is to account for two-d normalization and smoothing
     disps = np.hypot(disps, smoothing)
     amps /= disps * np.sqrt(2 * np.pi)
-- 
2.43.0


From dd332f05a584a213d77ded254589d632718ea6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 82/94] fix: ellipses of HMC mixtures are drawn along their own
 axes

draw_ellipses exchanged the widths in x and y of each gaussian, but not its
center, so that elongated gaussians were drawn rotated by 90 degrees with
respect to the image.
---
 forcepho/mixtures/utils_hmc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/forcepho/mixtures/utils_hmc.py b/forcepho/mixtures/utils_hmc.py
index d15ec3f..f7a4b40 100644
--- a/forcepho/mixtures/utils_hmc.py
+++ b/forcepho/mixtures/utils_hmc.py
@@ -222,13 +222,12 @@ def draw_ellipses(best, ax, cmap=None):
 
     ngauss = len(best["x"])
     for i in range(ngauss):
-        # need to swap axes here, not sure why
         mu = np.array([best["x"][i], best["y"][i]])
-        sy = best["sx"][i]
+        sx = best["sx"][i]
         if "sy" in best:
-            sx = (best["sy"][i])
+            sy = best["sy"][i]
         elif "q" in best:
-            sx = best["sx"][i] * best["q"][i]
+            sy = best["sx"][i] * best["q"][i]
         sxy = best["rho"][i] * sx * sy
         # construct covar matrix and get eigenvalues
         S = np.array([[sx**2, sxy],[sxy, sy**2]])
-- 
2.43.0


From b4c19eddbefa8095d469cb09624068157e785e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 83/94] fix: show_exp without axes returns the image

It raised UnboundLocalError unless axes were given.
---
 forcepho/mixtures/utils_hmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forcepho/mixtures/utils_hmc.py b/forcepho/mixtures/utils_hmc.py
index f7a4b40..5d178ac 100644
--- a/forcepho/mixtures/utils_hmc.py
+++ b/forcepho/mixtures/utils_hmc.py
@@ -98,6 +98,7 @@ def show_exp(xpix, ypix, value, ax=None, **imshow_kwargs):
     # This is the correct ordering of xpix, ypix subscripts
     im[x, y] = value
 
+    cb = None
     if ax is not None:
         # note transpose and origin to 'properly' display x-axis as leading dimension
         cb = ax.imshow(im.T, origin="lower",
-- 
2.43.0


From 1d4f8f095c4ed0edef937c26aa1c653257ea15b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 84/94] fix: shear parameters of the Sersic mixture model

With gmax > 0 the model raised NameError (the argument was called maxg).
---
 forcepho/mixtures/sersic_mix_twod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/mixtures/sersic_mix_twod.py b/forcepho/mixtures/sersic_mix_twod.py
index 898920f..3fd821b 100644
--- a/forcepho/mixtures/sersic_mix_twod.py
+++ b/forcepho/mixtures/sersic_mix_twod.py
@@ -102,8 +102,8 @@ def sersic_model(data=None, xpix=None, ypix=None, unc=1,
 
     # Fix g?
     if gmax > 0:
-        g1 = numpyro.sample("g1", dist.Uniform(-maxg, maxg))
-        g2 = numpyro.sample("g2", dist.Uniform(-maxg, maxg))
+        g1 = numpyro.sample("g1", dist.Uniform(-gmax, gmax))
+        g2 = numpyro.sample("g2", dist.Uniform(-gmax, gmax))
     else:
         g1 = 0
         g2 = 0
-- 
2.43.0


From 0214e9377e922a3772ca6d1a0bdca514cab5155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:24 +0000
Subject: [PATCH 85/94] fix: the largest width of negative gaussians can be
 chosen

psf_model overwrote its argument smax_neg with the default.
---
 forcepho/mixtures/psf_mix_hmc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/forcepho/mixtures/psf_mix_hmc.py b/forcepho/mixtures/psf_mix_hmc.py
index 7e1763a..e14bf3a 100644
--- a/forcepho/mixtures/psf_mix_hmc.py
+++ b/forcepho/mixtures/psf_mix_hmc.py
@@ -150,7 +150,6 @@ def psf_model(image=None, xpix=None, ypix=None, unc=1,
     # --- add negative gaussians? ---
     if ngauss_neg > 0:
         ng = ngauss_neg
-        smax_neg = 10#np.max(smax) / 4.0
         mmin = amax / 1.5
         wm = numpyro.sample("weight_m", dist.Uniform(0, jnp.ones(ng) * mmin))
         xm = numpyro.sample("x_m", dist.Normal(xcen * jnp.ones(ng), dcen))
-- 
2.43.0


From dc6c5e81eb31463c574bb50d849431877b6160c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:10 +0000
Subject: [PATCH 86/94] fix: replacing an exposure in the meta store drops its
 cached wcs

---
 forcepho/patches/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forcepho/patches/storage.py b/forcepho/patches/storage.py
index a76adbd..5d41d52 100644
--- a/forcepho/patches/storage.py
+++ b/forcepho/patches/storage.py
@@ -368,6 +368,9 @@ class MetaStore:
         if band not in self.headers:
             self.headers[band] = {}
         self.headers[band][expID] = hdr
+        # a cached wcs might belong to a header that was just replaced
+        if band in self.wcs:
+            self.wcs[band].pop(expID, None)
         if hasattr(imset, "gwcs"):
             if band not in self.tree:
                 self.tree[band] = {}
-- 
2.43.0


From 74fc332ea046e2f33733605d73730480ccef5e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:45 +0000
Subject: [PATCH 87/94] fix: image of a work plan has the sign of the model

---
 forcepho/slow/likelihood.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/slow/likelihood.py b/forcepho/slow/likelihood.py
index 239990a..16a6b9c 100644
--- a/forcepho/slow/likelihood.py
+++ b/forcepho/slow/likelihood.py
@@ -267,7 +267,8 @@ class WorkPlan(object):
     def make_image(self, use_sources=slice(None)):
         self.reset()
         self.process_pixels()
-        return self.residual[use_sources, ...].sum(axis=0).reshape(self.stamp.nx, self.stamp.ny)
+        # the residual of each source is minus its model
+        return -self.residual[use_sources, ...].sum(axis=0).reshape(self.stamp.nx, self.stamp.ny)
 
     @property
     def nactive(self):
-- 
2.43.0


From c5ae2d536f840f1e4f6ac0b37f2519bd8f443fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:58 +0000
Subject: [PATCH 88/94] fix: options for marking sources do not stay for later
 calls

---
 forcepho/postprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index f4194fe..e143b66 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -83,7 +83,7 @@ class Residuals:
 
         apix = self.sky_to_pix(ra, dec, e, exp)
 
-        plot_kwargs.update(extras)
+        plot_kwargs = dict(plot_kwargs, **extras)
         axes = np.atleast_1d(axes)
         [ax.plot(apix[:, 0], apix[:, 1], **plot_kwargs) for ax in axes]
 
-- 
2.43.0


From d8dd5502230e4f6582e0eea4836a9d94d21a5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:58 +0000
Subject: [PATCH 89/94] fix: residuals of every patch are shown in the pdf

---
 forcepho/postprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index e143b66..5e70922 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -526,11 +526,11 @@ def residual_pdf(root="opt_all_v0.5_full", n=3, e=3):
     """
     npatch = len(glob.glob(f"{root}/patches/*samples*h5"))
     patches = range(npatch)
-    J = npatch // n
+    J = -(-npatch // n)
 
     pdf = PdfPages(f"{root}/{os.path.basename(root)}_residuals_{e}.pdf")
     for j in range(J):
-        fig, ax = pl.subplots(n, 3, sharex="row", sharey="row")
+        fig, ax = pl.subplots(n, 3, sharex="row", sharey="row", squeeze=False)
         for i, p in enumerate(patches[n*j:n*(j+1)]):
             residuals = Residuals(f"{root}/patches/patch{p}_residuals.h5")
             samples = Samples(f"{root}/patches/patch{p}_samples.h5")
-- 
2.43.0


From 0ffb0a08fbc98b487b0f71d335b9887e9aabad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:21 +0000
Subject: [PATCH 90/94] fix: chains can be shown without bounds, tuning draws
 or a second band

---
 forcepho/fitting.py     | 3 ++-
 forcepho/postprocess.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/forcepho/fitting.py b/forcepho/fitting.py
index cf217e3..9974776 100644
--- a/forcepho/fitting.py
+++ b/forcepho/fitting.py
@@ -237,11 +237,12 @@ class Result(object):
         if show_shapes:
             cols = cols + self.shape_cols
         q = 100 * np.array([0.5 - 0.5 * span, 0.5 + 0.5 * span])
+        ax = None
         for i, col in enumerate(cols):
             ax = axes.flat[i]
             xx = self.chaincat[source_idx][col]
             lim = np.percentile(xx, list(q))
-            if self.bounds is not None:
+            if getattr(self, "bounds", None) is not None:
                 lim = self.bounds[source_idx][col]
 
             ax.plot(xx, **post_kwargs)
diff --git a/forcepho/postprocess.py b/forcepho/postprocess.py
index 5e70922..4825254 100644
--- a/forcepho/postprocess.py
+++ b/forcepho/postprocess.py
@@ -563,7 +563,7 @@ def chain_pdf(samples, fn="./chain.pdf", dh=1.0):
     nb = len(samples.bands)
     pdf = PdfPages(fn)
     for i in range(ns):
-        tuning = max(np.where(samples.stats["tune"])[0])
+        tuning = max(np.where(samples.stats["tune"])[0], default=0)
         act = samples.active[i]
         ncol, nrow = 2, max(7, nb-1)
         fs = (nrow * dh * 7./5., nrow * dh)
-- 
2.43.0


From d9e65ac6f1057625845554ee893adf749c67275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:30 +0000
Subject: [PATCH 91/94] fix: the GPU refuses scenes that do not fit the buffers
 of its kernel

---
 forcepho/proposal.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/forcepho/proposal.py b/forcepho/proposal.py
index 1afdcb0..d2ac4d7 100644
--- a/forcepho/proposal.py
+++ b/forcepho/proposal.py
@@ -14,7 +14,7 @@ import os.path
 import numpy as np
 
 from . import source_dir
-from .kernel_limits import MAXBANDS, MAXRADII, MAXSOURCES, NPARAMS
+from .kernel_limits import MAXBANDS, MAXRADII, MAXSOURCES, NPARAMS, NUMACCUMS
 
 try:
     import pycuda
@@ -119,6 +119,15 @@ class GPUProposer(ProposerBase):
             patch = self.patch
 
         n_bands, n_sources = patch.n_bands, patch.n_sources
+        if n_sources > MAXSOURCES:
+            # the kernel accumulates derivatives in buffers of size MAXSOURCES
+            raise ValueError(f"Cannot evaluate {n_sources} sources at once; the limit is {MAXSOURCES}")
+        # shared memory holds the accumulators and 21 floats for every image gaussian
+        n_shared = (NUMACCUMS * (8 + 4 * NPARAMS * MAXSOURCES) +
+                    4 * 21 * n_sources * int(np.max(patch.n_psf_per_source)))
+        if n_shared > self.shared_size:
+            raise ValueError(f"Cannot evaluate {n_sources} sources at once; they need {n_shared} bytes "
+                             f"of shared memory and there are {self.shared_size}")
         self.grid = (n_bands, 1)
 
         chi_out = np.empty(n_bands, dtype=self.chi_dtype)
-- 
2.43.0


From d780a87f86b9f21a38c170e6e11a8ee707ea2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:30 +0000
Subject: [PATCH 92/94] fix: the test of the patch struct includes the file
 that defines it

---
 forcepho/patches/device_patch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/device_patch.py b/forcepho/patches/device_patch.py
index 375e753..da2abec 100644
--- a/forcepho/patches/device_patch.py
+++ b/forcepho/patches/device_patch.py
@@ -420,7 +420,8 @@ class GPUPatchMixin(DevicePatchMixin):
         mod = SourceModule(
             """
             #include <limits.h>
-            #include "patch.cu"
+            #include <stdint.h>
+            #include "patch.cc"
 
             __global__ void check_patch_struct(Patch *patch){{
                 printf("Kernel sees: sizeof(Patch) = %d (Numpy size: {sz})\\n", sizeof(Patch));
-- 
2.43.0


From a41ec001a4301e975d64e5ef24a3ee065c95d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:57 +0000
Subject: [PATCH 93/94] fix: freeing a patch releases its device arrays

---
 forcepho/patches/patch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forcepho/patches/patch.py b/forcepho/patches/patch.py
index 42d4f27..91b3685 100644
--- a/forcepho/patches/patch.py
+++ b/forcepho/patches/patch.py
@@ -112,7 +112,10 @@ class PatchBase:
                 pass
 
     def free(self):
-        pass
+        # the device mix-ins come after this class; let them release their arrays
+        release = getattr(super(), "free", None)
+        if release is not None:
+            release()
 
     def __del__(self):
         self.free()  # do we want to do this?
-- 
2.43.0


From ac682af1ac8cddc4183a42799c237d9467c972f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:07 +0000
Subject: [PATCH 94/94] fix: the CUDA kernel handles exposures that do not fill
 whole warps

---
 forcepho/src/compute_gaussians_kernel.cu | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/forcepho/src/compute_gaussians_kernel.cu b/forcepho/src/compute_gaussians_kernel.cu
index 647fc97..c8a7bd0 100644
--- a/forcepho/src/compute_gaussians_kernel.cu
+++ b/forcepho/src/compute_gaussians_kernel.cu
@@ -259,18 +259,23 @@ __global__ void EvaluateProposal(void *_patch, void *_proposal,
 
         __syncthreads();
 
-        for (int p = threadIdx.x ; p < patch->exposure_N[exposure]; p += blockDim.x) {
-            int pix = patch->exposure_start[exposure] + p;
+        // The sums over a warp need all of its threads, so whole warps go through
+        // the loop; threads beyond the last pixel have a pixel without weight.
+        int n_pix = patch->exposure_N[exposure];
+        int n_loop = (n_pix + warpSize - 1) / warpSize * warpSize;
+        for (int p = threadIdx.x ; p < n_loop; p += blockDim.x) {
+            bool valid = p < n_pix;
+            int pix = patch->exposure_start[exposure] + (valid ? p : 0);
 
             // Get the data and compute the model for this one pixel
             float xp = patch->xpix[pix];
             float yp = patch->ypix[pix];
             PixFloat data = patch->data[pix];
-            PixFloat ierr = patch->ierr[pix];
+            PixFloat ierr = valid ? patch->ierr[pix] : 0.0f;
             PixFloat residual = ComputeResidualImage(xp, yp, data, imageGauss, n_gauss_total);
 
             // Did the CPU ask that we output the residual image?
-            if(patch->residual != NULL)
+            if(valid && patch->residual != NULL)
                 patch->residual[pix] = residual;
 
             // Compute chi2 and accumulate it
-- 
2.43.0

