From 9c9b29abea0078c67dabf2649be23848fa304c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 1/3] fix: unpack bands by their configured integers, not their
 position in the mapping

SkyMapDimensionPacker.pack uses the integer the bands mapping gives for a band,
but unpack used that integer as a position in the mapping, so the round trip
returned a different band (or raised) unless the mapping enumerated its bands
as 0, 1, 2, ... in order.
---
 python/lsst/skymap/packers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 3b17326..769c73e 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -270,7 +270,9 @@ class SkyMapDimensionPacker(DimensionPacker):
         if self._n_bands:
             index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
             if self._bands_list is None:
-                self._bands_list = list(self._bands)
+                # Bands may be mapped to integers in any order, and need not
+                # use all of them.
+                self._bands_list = {i: band for band, i in self._bands.items()}
             d["band"] = self._bands_list[index]
         d["tract"], d["patch"] = divmod(packedId, self._n_patches)
         return DataCoordinate.standardize(d, dimensions=self.dimensions)
-- 
2.43.0


From b5d306406543e644abe0e4c2c720dd1e10aabaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 2/3] fix: reject negative patch, tract and band indices when
 packing

A negative patch or tract ID (or a band mapped to a negative integer) was
accepted and packed into an integer that belongs to another data ID, or into a
negative one.
---
 python/lsst/skymap/packers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 769c73e..8884ed5 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -245,9 +245,9 @@ class SkyMapDimensionPacker(DimensionPacker):
 
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DataIdPacker.pack
-        if dataId["patch"] >= self._n_patches:
+        if not 0 <= dataId["patch"] < self._n_patches:
             raise ValueError(f"Patch ID {dataId['patch']} is out of bounds; expected <{self._n_patches}.")
-        if dataId["tract"] >= self._n_tracts:
+        if not 0 <= dataId["tract"] < self._n_tracts:
             raise ValueError(f"Tract ID {dataId['tract']} is out of bounds; expected <{self._n_tracts}.")
         packed = dataId["patch"] + self._n_patches * dataId["tract"]
         if self._n_bands:
@@ -256,7 +256,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                     f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                     f"configuration; expected one of {list(self._bands)}."
                 )
-            if band_index >= self._n_bands:
+            if not 0 <= band_index < self._n_bands:
                 raise ValueError(
                     f"Band index {band_index} for {dataId['band']!r} is out of bounds; "
                     f"expected <{self._n_bands}."
-- 
2.43.0


From 824fba07c5005633cd6af442b5645f5befb3ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 3/3] fix: give each tract its own tract builder

BaseSkyMap shares one tract builder among all of its tracts, and setupPatches
stores the number of patches and the bounding box of the tract being set up in
it.  The patch information of a tract therefore depended on which tract was
generated last, which is wrong as soon as tracts have different numbers of
patches (DiscreteSkyMap with different radii, DodecaSkyMap, RingsSkyMap).
---
 python/lsst/skymap/tractInfo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index ddde703..a24436d 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -22,6 +22,8 @@
 
 __all__ = ["TractInfo"]
 
+import copy
+
 import numpy as np
 from deprecated.sphinx import deprecated
 
@@ -89,7 +91,9 @@ class TractInfo:
         self._ctrCoord = ctrCoord
         self._vertexCoordList = tuple(vertexCoordList)
         self._tractOverlap = tractOverlap
-        self._tractBuilder = tractBuilder
+        # setupPatches stores the geometry of this tract in the builder, so
+        # each tract needs its own: sky maps pass the same one to all tracts.
+        self._tractBuilder = copy.copy(tractBuilder)
         self._innerBoxCorners = innerBoxCorners
 
         minBBox = self._minimumBoundingBox(wcs)
-- 
2.43.0

