From 918deba03428ace5aa5853a98382318bb869879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:16 +0000
Subject: [PATCH 01/24] fix: line integral of an edge in line with the station

When the station lies on the line through an edge (or on an edge or a
corner of the body), the integral was taken with an absolute test on a
cancelled difference. Depending on rounding it gave ZeroDivisionError,
nan, or a wrong gradient. Use the symmetric form of the same integral,
log((r1+r2+l)/(r1+r2-l)), which needs no special case outside the edge.
---
 geec/polyhedron.py | 72 +++++++++-------------------------------------
 1 file changed, 14 insertions(+), 58 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3c2dc67..981a5d9 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -141,52 +141,29 @@ class Edge:
     @staticmethod
     @jit(nopython=True)
     def _line_integral_along_edge(
-        cj: float,
         Lj: np.ndarray,
         lj: float,
-        Rj: np.ndarray,
-        rj: float,
-        b2: float,
-        bj: float,
+        R1: np.ndarray,
+        r1: float,
+        R2: np.ndarray,
+        r2: float,
         gradient: bool = False,
     ) -> tuple[np.ndarray, np.ndarray]:
         """Line integral along edge"""
         Ll = Lj / lj
-        if abs(cj) > epsilon:  # cj != 0
-            # observation point and edge are not in line
-            l2 = lj * lj
-            r2 = rj * rj
-            _sqrt = sqrt(l2 + bj + r2)
 
-            t = (_sqrt + lj + b2) / cj
+        u = r1 + r2 + lj
+        # v == 0: observation point is on the edge, and so in the plane of both faces
+        # sharing the edge. Keep the integral finite, those faces cancel it.
+        v = max(r1 + r2 - lj, epsilon * u)
 
-            integral = log(t)
-
-        else:
-            # observation point and edge are in line
-            t = abs(lj - rj) / rj
-
-            integral = log(t)
-
-        pqr = integral * Ll
+        pqr = log(u / v) * Ll
 
         if gradient:
-            Rr = Rj / rj
-
-            if abs(cj) > epsilon:  # cj != 0
-                u = t * cj
-                v = cj
-                DU = -((Lj + Rj) / _sqrt + Ll)
-                DV = -(Rr + Ll)
-
-            else:
-                u = abs(lj - rj)
-                v = rj
-                DU = ((lj - rj) / u) * Rr
-                DV = -Rr
+            # derivative of u, and v (same for both)
+            D = -(R1 / r1 + R2 / r2)
 
-            DT = (v * DU - u * DV) / (v * v)
-            DPQR = Ll * (DT / t)[:, np.newaxis]
+            DPQR = Ll * (D / u - D / v)[:, np.newaxis]
         else:
             DPQR = None
 
@@ -204,32 +181,11 @@ class Edge:
             R1, R2 = (self.points[0] - obs, self.points[1] - obs)
             r1, r2 = (np.linalg.norm(R1), np.linalg.norm(R2))
 
-            chsgn = 1  # if origin,p1 & p2 are on a st line
-            if r1 > r2 and np.dot(R1, R2) / (r1 * r2) == 1:  # p1 farther than p2
-                R1 = R2  # interchange p1,p2
-                r1 = r2
-                chsgn = -1
-
-            Lj = self.vector
-            lj = self.length
-
-            # bj = 2 Rj.Lj
-            bj = 2 * np.dot(R1, Lj)
-            b2 = bj / lj / 2
-            if abs(r1 + b2) < epsilon:  # r1 + b2 == 0
-                # observation point and edge are in line
-                Lj, bj = -Lj, -bj
-                b2 = bj / lj / 2
-
-            # cj = R1 + bj/(2*lj)
-            cj = r1 + b2
-
             (pqr, dpqr) = self._line_integral_along_edge(
-                cj, Lj, lj, R1, r1, b2, bj, gradient
+                self.vector, self.length, R1, r1, R2, r2, gradient
             )
 
-            # change sign of I if p1,p2 were interchanged
-            self._pqr = pqr * chsgn
+            self._pqr = pqr
             self._dpqr = dpqr
             # assign twin value
             self._set_twin_pqr()
-- 
2.43.0


From 76ef5afd321a15449644b70764368f7fe1979ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:02 +0000
Subject: [PATCH 02/24] fix: solid angle of a face whose plane holds the
 station

Rounding error put the cosine out of [-1,1] (math domain error), gave the
corners of one face different sides, and was taken for a true distance
when coordinates are large, so that gradients were wrong for stations in
the plane of a face. Judge the distance relative to the coordinates, use
one side for the whole face and keep the cosine in range.
---
 geec/polyhedron.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 981a5d9..f0e51d9 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -364,9 +364,10 @@ class Face:
 
         self._omega = 0
         self._domega = np.zeros(3)
-        if abs(self._dp1) > epsilon:
+        # distance to the face's plane, below which it is only rounding error
+        tol = 8 * epsilon * max(np.abs(self.points).max(), np.abs(obs).max())
+        if abs(self._dp1) > tol:
             points = self.points - obs  # [p1,p2,p3]
-            dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
                 for i in range(self.npoints)
@@ -388,7 +389,8 @@ class Face:
             w = 0
             dw = 0
             for i in range(self.npoints):
-                inout = dots[i]
+                # all the points are in the same plane
+                inout = self._dp1
                 (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
                 perp = self._get_perp(i, inout, self.npoints, points, A1)
                 b = self._get_b(A1, A2)
@@ -447,7 +449,8 @@ class Face:
     @staticmethod
     # @jit(nopython=True)
     def _get_b(A1: np.ndarray, A2: np.ndarray) -> float:
-        return np.dot(A1, A2)
+        # rounding error must not push cosine out of [-1,1]
+        return max(-1.0, min(1.0, np.dot(A1, A2)))
 
     @staticmethod
     # @jit(nopython=True)
-- 
2.43.0


From 991e66dfef396eaab515c27c59c753a0bf34d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:02 +0000
Subject: [PATCH 03/24] fix: do not reuse intermediate values of a call which
 failed

When get_gravity() was interrupted (exception, Ctrl-C), faces and edges
kept the values of that station, and the next station silently used them.
---
 geec/polyhedron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index f0e51d9..4225f52 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -949,6 +949,9 @@ class Polyhedron:
         gradient: optionaly compue gradient gravity fields
         """
 
+        # intermediate variables may be left from a previous call which failed
+        self.reset(coord)
+
         # setup G array, and shift back origin
         G = np.zeros(3)
         # self.set_origin(coord)
-- 
2.43.0


From 1d34d9f77efc85fd27c467522f0e80d268d749c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 04/24] fix: load a geoid grid only when a vertical datum needs
 it

All the grids were opened when geec.crs is imported, so that every command,
even --version or a run in cartesian coordinates, failed as soon as one
grid file is not installed.
---
 geec/crs.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index cefde8e..3f96d01 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -9,6 +9,7 @@
 import importlib.resources as resources
 from dataclasses import dataclass, field
 from enum import Enum, StrEnum
+from functools import cache
 
 # import from other lib
 import confuse
@@ -238,9 +239,24 @@ def wrap180(points: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
 
 
 data_path = resources.files("geec.data")
-egm08geoid = pgeo.GeoidKarney(data_path / "geoids/egm2008-2_5.pgm")
-egm96geoid = pgeo.GeoidKarney(data_path / "geoids/egm96-5.pgm")
-egm84geoid = pgeo.GeoidKarney(data_path / "geoids/egm84-15.pgm")
+
+
+@cache
+def _load_geoid(filename: str) -> pgeo.GeoidKarney:
+    """Load geoid grid, only when it is needed"""
+    return pgeo.GeoidKarney(data_path / "geoids" / filename)
+
+
+def egm08geoid(x: list[pgeo.ellipsoidalKarney.LatLon]):
+    return _load_geoid("egm2008-2_5.pgm")(x)
+
+
+def egm96geoid(x: list[pgeo.ellipsoidalKarney.LatLon]):
+    return _load_geoid("egm96-5.pgm")(x)
+
+
+def egm84geoid(x: list[pgeo.ellipsoidalKarney.LatLon]):
+    return _load_geoid("egm84-15.pgm")(x)
 
 
 def ellpsgeoid(x: pgeo.ellipsoidalKarney.LatLon):
-- 
2.43.0


From 68aa06bf3cdb41348050bab96be30cbcf8fb0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 05/24] fix: accept the documented vertical datum 'egm2008'

Configuration is checked against the names of the enumerator, which has
EGM08 only, so that the documented value 'egm2008' was refused.
---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index 3f96d01..9c3f1d6 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -36,6 +36,7 @@ class VDatumEnum(StrEnum):
     EGM84 = "egm84"
     EGM96 = "egm96"
     EGM08 = "egm2008"
+    EGM2008 = "egm2008"  # alias: name to be used in the configuration file
 
 
 EllModelEnum = Enum("EllModelEnum", pm.Ellipsoid.models)
-- 
2.43.0


From fa6f81a71165133b05686a7624cde617df103147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 06/24] fix: wrap any longitude to -180..180

Longitudes below -180, or above 540, were left out of -180..180.
---
 geec/crs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/crs.py b/geec/crs.py
index 9c3f1d6..cbc6bd2 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -234,7 +234,9 @@ def get_crs(config: Subview) -> CRS:
 def wrap180(points: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
     """wrap longitude coordinates to -180..180"""
     logger.info("Convert points longitude to -180..180")
-    result = (x - 360 if x > 180 else x for x in points[:, 0])
+    result = (
+        x - 360 * np.ceil((x - 180) / 360) if abs(x) > 180 else x for x in points[:, 0]
+    )
     points[:, 0] = list(result)
     return points
 
-- 
2.43.0


From 7d05303cb8236ededb9e0c537ebb801ffa704737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 07/24] fix: do not take ENU coordinates for longitude and
 latitude

East coordinates above 180 m were shifted by 360 m, and East/North
coordinates were used as longitude/latitude to look for geoid height
(RangeError beyond 180/90 m). ENU origin is above the ellipsoid already.
---
 geec/dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index ea20e8c..11b508c 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -41,10 +41,10 @@ class Dataset:
         """Convert longitude to -180°..180°,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ENU or ECEF coordinate system, do nothing.
         """
         CRS_LON180 = {
-            geec.crs.CRSEnum.ENU: geec.crs.wrap180,
+            geec.crs.CRSEnum.ENU: lambda x: x,
             geec.crs.CRSEnum.ELLPS: geec.crs.wrap180,
             geec.crs.CRSEnum.ECEF: lambda x: x,
             geec.crs.CRSEnum.CART: lambda x: x,
@@ -56,10 +56,10 @@ class Dataset:
         """Convert altitude to ellipsoid height,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ENU or ECEF coordinate system, do nothing.
         """
         CRS_ELLPSH = {
-            geec.crs.CRSEnum.ENU: geec.crs.ellipsoid_height,
+            geec.crs.CRSEnum.ENU: lambda x, y: (x, y),
             geec.crs.CRSEnum.ELLPS: geec.crs.ellipsoid_height,
             geec.crs.CRSEnum.ECEF: lambda x, y: (x, y),
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
-- 
2.43.0


From 5da02abcab6eabc8cf65322fe00b9921b1a4b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 08/24] fix: read coordinates as float

With whole numbers only, coordinates were integers, and adding geoid
height to them raised UFuncTypeError.
---
 geec/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 11b508c..03b9252 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -120,12 +120,12 @@ class Dataset:
 def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
     if config["points"]:
         coords = config["points"].get()
-        return np.array(coords)
+        return np.array(coords, dtype=np.float64)
     elif config["file_path"]:
         file_path = Path(str(config["file_path"].get(str)))
         if file_path.is_file():
             df = pd.read_csv(file_path, sep=",", header=None)
-            return df.values
+            return df.values.astype(np.float64)
         else:
             msg = f"File {file_path} not found"
             logger.error(msg)
-- 
2.43.0


From 47f807dfe212f2c4bcf9300062c4e202b1f4518f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 09/24] fix: use density and gravity constant of each mass body

Those of the first mass body were used for all of them.
---
 geec/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index df90a73..00d0a6d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -65,9 +65,6 @@ def run(
     # assess Polyhedron of each mass bodies
     p = [Polyhedron(mass.dataset.coords) for mass in masses]
 
-    density = masses[0].density
-    Gc = masses[0].gravity_constant
-
     # observation points
     observer = geec.observer.get_observer(config)
     observer.to_wgs84()
@@ -78,7 +75,10 @@ def run(
 
     def add_gravity(row):
         s = Station(np.array(row))
-        s.compute_gravity(p, density, Gc, gradient=gradient)
+        for mass, poly in zip(masses, p, strict=True):
+            s.compute_gravity(
+                poly, mass.density, mass.gravity_constant, gradient=gradient
+            )
         listG = s.G
         listT = s.T.flatten()[
             [0, 1, 2, 4, 5, 8]
-- 
2.43.0


From a3d12d3deba6612e3667574e2eb2b2ce7a6d1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 10/24] fix: compute gravity at the position of the observation
 points

Mass bodies are in ECEF coordinates [m], but longitude, latitude [degree]
and altitude of the observation points were used as x, y, z.
---
 geec/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geec/cli.py b/geec/cli.py
index 00d0a6d..93b3f9d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -4,6 +4,7 @@ Command Line Interface
 
 # --- import -----------------------------------
 # import from standard lib
+from copy import deepcopy
 from pathlib import Path
 from typing import Annotated
 
@@ -67,6 +68,9 @@ def run(
 
     # observation points
     observer = geec.observer.get_observer(config)
+    # stations in the same frame as mass bodies
+    stations = deepcopy(observer.dataset)
+    stations.to_ecef()
     observer.to_wgs84()
 
     obs_points = observer.dataset.coords
@@ -85,7 +89,7 @@ def run(
         ]  # "txx", "txy", "txz", "tyy", "tyz", "tzz"
         return np.concatenate([listG, listT])
 
-    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_points)
+    listGT = np.apply_along_axis(add_gravity, axis=1, arr=stations.coords)
     G_name = ["Gx", "Gy", "Gz"]
     G_unit = ["(mGal)", "(mGal)", "(mGal)"]
     T_name = ["txx", "txy", "txz", "tyy", "tyz", "tzz"]
-- 
2.43.0


From 6915ad4c7291bc97be9c7e5be9304fcab6d62fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 11/24] fix: convert points to WGS84 before ENU coordinates

Points relative to another ellipsoid were taken as WGS84 ones.
---
 geec/crs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/crs.py b/geec/crs.py
index cbc6bd2..2740a6a 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -441,6 +441,9 @@ def wgs84_to_enu(
     #     logger.error(msg)
     #     raise ValueError(msg)
 
+    # points may be relative to another ellipsoid
+    points, crs = ellps_to_wgs84(points, crs)
+
     logger.info("Convert points from WGS84 ellipsoid to ENU coorindates.")
     lon, lat, alt = points.T
     e, n, u = pm.geodetic2enu(lat, lon, alt, lat0, lon0, alt0)
-- 
2.43.0


From f7499005b7dfc97ca9acb973ebf758057f363249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 12/24] fix: convert any ECEF point to WGS84 ellipsoid

The conversion moved points which are not near the surface of the WGS84
ellipsoid (9 mm at 1000 km height, 85 km for the surface of the Moon), and
failed when one of several points is on the Earth's axis.
---
 geec/crs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index 2740a6a..9caca27 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -82,6 +82,8 @@ class Ellipsoid(pm.Ellipsoid):
 
 # default ellipsoid
 _WGS84_ = Ellipsoid()
+# conversion from ECEF to default ellipsoid
+_WGS84_ECEF_ = pgeo.EcefKarney(pgeo.Datums.WGS84)
 
 
 # Set up data classes CRS, ENU
@@ -351,10 +353,9 @@ def ecef_to_wgs84(
     #     raise ValueError(msg)
 
     logger.info("Convert points cooridnates from ECEF to WGS84 ellipsoid")
-    x, y, z = points.T
-    lat, lon, alt = pm.ecef2geodetic(x, y, z)  # by default to 'wgs84'
-
-    points = np.array([lon, lat, alt]).T
+    # Note: pm.ecef2geodetic is accurate only near the surface of the ellipsoid
+    geodetic = (_WGS84_ECEF_.reverse(x, y, z) for x, y, z in points)
+    points = np.array([[g.lon, g.lat, g.height] for g in geodetic], dtype=np.float64)
 
     # update coordinates reference system
     crs.name = CRSEnum.ELLPS
-- 
2.43.0


From 582a38a39e42e75d9f15a38fb8fb7ac111525efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 13/24] fix: no reflex angle in the solid angle of a triangular
 face

The sign of the triple product used to detect reflex angles is only rounding
error for a station near the plane of a face but far from it (or for a thin
face), which added multiples of 2 pi to the solid angle. Faces are triangles,
their angles never exceed pi.
---
 geec/polyhedron.py | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 4225f52..a359297 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -392,17 +392,15 @@ class Face:
                 # all the points are in the same plane
                 inout = self._dp1
                 (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
-                perp = self._get_perp(i, inout, self.npoints, points, A1)
                 b = self._get_b(A1, A2)
 
-                angle = self._get_angle(i, inout, b, perp)
+                angle = self._get_angle(i, inout, b)
                 w += angle
                 if gradient:
                     dangle = self._get_dangle(
                         i,
                         inout,
                         b,
-                        perp,
                         A1,
                         A2,
                         self.npoints,
@@ -428,24 +426,6 @@ class Face:
             A1, A2 = A2, A1
         return (A1, A2)
 
-    @staticmethod
-    # @jit(nopython=True)
-    def _get_perp(
-        i: int, inout: float, npoints: int, points: np.ndarray, A1: np.ndarray
-    ) -> float:
-        """ """
-        # Check if face is seen from inside
-        if inout == 0:
-            return 1
-        else:
-            p3 = points[(i + 2) % npoints]  # p3
-            # if inout>0: face seen from inside
-            if inout > 0:
-                p3 = points[i]  # p1
-
-            # sign of perp is negative if points are clockwise
-            return np.dot(p3, A1)
-
     @staticmethod
     # @jit(nopython=True)
     def _get_b(A1: np.ndarray, A2: np.ndarray) -> float:
@@ -454,13 +434,12 @@ class Face:
 
     @staticmethod
     # @jit(nopython=True)
-    def _get_angle(i: int, inout: float, b: float, perp: float) -> float:
+    def _get_angle(i: int, inout: float, b: float) -> float:
         if inout == 0:
             angle = 0
         else:
+            # Note: faces are triangles, their angles never exceed pi
             angle = acos(b)
-            if perp < 0:
-                angle = 2 * np.pi - angle
         return angle
 
     @staticmethod
@@ -469,7 +448,6 @@ class Face:
         i: int,
         inout: float,
         b: float,
-        perp: float,
         A1: np.ndarray,
         A2: np.ndarray,
         npoints: int,
@@ -512,8 +490,6 @@ class Face:
 
         if denom != 0:
             dangle = -DB / denom
-            if perp < 0:
-                dangle = -dangle
 
         return dangle
 
-- 
2.43.0


From ef3f6b3150baa044b64474b56ded2a6d380db7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:38 +0000
Subject: [PATCH 14/24] fix: in-plane tolerance of the solid angle for thin
 faces

The normal of a thin face is less accurate, so that a station in line with one
of its edges, or in its plane, was not recognised and got a meaningless solid
angle (wrong gradient).
---
 geec/polyhedron.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index a359297..e6a19ac 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -365,7 +365,14 @@ class Face:
         self._omega = 0
         self._domega = np.zeros(3)
         # distance to the face's plane, below which it is only rounding error
-        tol = 8 * epsilon * max(np.abs(self.points).max(), np.abs(obs).max())
+        # (of the coordinates, and of the normal vector, less accurate for thin faces)
+        length = max(edge.length for edge in self.edges)
+        area = np.linalg.norm(cross_product(self.edges[0].vector, self.edges[1].vector))
+        tol = (8 * epsilon) * max(
+            np.abs(self.points).max(),
+            np.abs(obs).max(),
+            np.linalg.norm(self.points[0] - obs) * length**2 / area,
+        )
         if abs(self._dp1) > tol:
             points = self.points - obs  # [p1,p2,p3]
             cross = [
-- 
2.43.0


From c3897160276e7a354c72e0cd23526caa3b9167e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:47 +0000
Subject: [PATCH 15/24] fix: solid angle of a face with an edge seen end-on

The cross product of such an edge vanishes; the resulting not-a-number was taken
for a cosine of 1, which shifted the solid angle by pi.
---
 geec/polyhedron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index e6a19ac..8621fa2 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -380,6 +380,9 @@ class Face:
                 for i in range(self.npoints)
             ]  # [p1xp2, p2xp3, p3xp1]
             norm = np.linalg.norm(cross, axis=1)
+            if not norm.all():
+                # an edge is seen end-on: observation point is in the face's plane
+                return
             # unit cross vector
             unitv = cross / norm[:, np.newaxis]  # [A1, A2, A3]
 
-- 
2.43.0


From 75500197ee747c6502a8bd1afaa332b5efbae64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:35 +0000
Subject: [PATCH 16/24] fix: orientation of very thin faces

---
 geec/polyhedron.py | 47 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 8621fa2..0cd687c 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -779,9 +779,9 @@ class Polyhedron:
         centroid = np.mean(self.points[hull.vertices, :], axis=0)
         npdot = np.dot
 
-        faces = []
-        # check simplex points are in counterclockwise
-        for s, n in zip(hull.simplices, hull.neighbors, strict=True):
+        crosses = []
+        dots = []
+        for s in hull.simplices:
             # get 3 first points of simplex
             A, B, C = hull.points[s][0:3]
             AB = B - A
@@ -811,10 +811,18 @@ class Polyhedron:
                 if _niter > 10:
                     raise RuntimeError("Too many iteration to find point inside hull")
 
-            # dot > 0: A,B,C are not counterclockwise
-            # dot < 0: A,B,C are already counterclockwise
-            ccw = not dot > 0
+            crosses.append(cross)
+            dots.append(dot)
 
+        faces = []
+        # check simplex points are in counterclockwise
+        for s, n, cross, ccw in zip(
+            hull.simplices,
+            hull.neighbors,
+            crosses,
+            self._get_ccw(hull, dots),
+            strict=True,
+        ):
             # compute unit outward vector
             norm = np.linalg.norm(cross)
             if ccw:
@@ -842,6 +850,33 @@ class Polyhedron:
 
         return faces
 
+    def _get_ccw(self, hull: ConvexHull, dots: list[float]) -> list[bool]:
+        """check if points of each simplex are in counterclockwise
+
+        dots: scalar product of the normal to the simplex (A,B,C) and vector AD,
+              where D is a point inside the hull
+          dot > 0: A,B,C are not counterclockwise
+          dot < 0: A,B,C are already counterclockwise
+
+        Note: sign of 'dot' is only rounding error for very thin simplices.
+        So start from the largest one, then go from neighbor to neighbor: counterclockwise
+        neighbors run along their common edge in opposite directions.
+        """
+        first = int(np.argmax(np.abs(dots)))
+        ccw = {first: not dots[first] > 0}
+        todo = [first]
+        while todo:
+            k = todo.pop()
+            for n in hull.neighbors[k].tolist():
+                if n not in ccw:
+                    s, t = hull.simplices[k].tolist(), hull.simplices[n].tolist()
+                    a, b = (p for p in s if p in t)
+                    same = (s.index(b) - s.index(a)) % 3 == (t.index(b) - t.index(a)) % 3
+                    ccw[n] = ccw[k] != same
+                    todo.append(n)
+
+        return [ccw[k] for k in range(len(dots))]
+
     def _in_hull(self, points, x) -> bool:
         """
         check if point 'x' in inside the convex hull of 'points'
-- 
2.43.0


From ba47e1a20d288c3c7fbd7c9420b7db77b4326c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:24 +0000
Subject: [PATCH 17/24] fix: grid of whole numbers as float

---
 geec/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 03b9252..73f716f 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -138,7 +138,7 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
         z_start, z_end, z_step = grid["zstart_zend_zstep"].get(list)
 
         g = np.mgrid[x_start:x_end:x_step, y_start:y_end:y_step, z_start:z_end:z_step]
-        return np.transpose(g.reshape(len(g), -1))
+        return np.transpose(g.reshape(len(g), -1)).astype(np.float64)
     else:
         msg = "Points must be a list of points or a file"
         logger.error(msg)
-- 
2.43.0


From ef9b70f580d488ad7ce2f3cd2df260d397916906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:36 +0000
Subject: [PATCH 18/24] fix: read the coordinates of a file at full precision

---
 geec/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 73f716f..a9f72a9 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -124,7 +124,9 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
     elif config["file_path"]:
         file_path = Path(str(config["file_path"].get(str)))
         if file_path.is_file():
-            df = pd.read_csv(file_path, sep=",", header=None)
+            df = pd.read_csv(
+                file_path, sep=",", header=None, float_precision="round_trip"
+            )
             return df.values.astype(np.float64)
         else:
             msg = f"File {file_path} not found"
-- 
2.43.0


From 1c09004fe39e017649dbf9cc5ba3c0aad7124f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:07 +0000
Subject: [PATCH 19/24] fix: wrap longitudes exactly

---
 geec/crs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index 9caca27..d6cbe26 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -10,6 +10,7 @@ import importlib.resources as resources
 from dataclasses import dataclass, field
 from enum import Enum, StrEnum
 from functools import cache
+from math import remainder
 
 # import from other lib
 import confuse
@@ -236,9 +237,7 @@ def get_crs(config: Subview) -> CRS:
 def wrap180(points: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
     """wrap longitude coordinates to -180..180"""
     logger.info("Convert points longitude to -180..180")
-    result = (
-        x - 360 * np.ceil((x - 180) / 360) if abs(x) > 180 else x for x in points[:, 0]
-    )
+    result = (remainder(x, 360) if abs(x) > 180 else x for x in points[:, 0])
     points[:, 0] = list(result)
     return points
 
-- 
2.43.0


From 786deae295104301db3156c477280ba84ad592e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:23 +0000
Subject: [PATCH 20/24] fix: datasets created with the same crs or coordinates
 no longer change each other

---
 geec/dataset.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geec/dataset.py b/geec/dataset.py
index a9f72a9..fca862a 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -6,6 +6,7 @@
 
 # --- import -----------------------------------
 # import from standard lib
+from copy import copy
 from dataclasses import dataclass
 from pathlib import Path
 
@@ -25,6 +26,11 @@ class Dataset:
     coords: npt.NDArray[np.float64]
     crs: geec.crs.CRS  # Coordinate Reference System
 
+    def __post_init__(self):
+        # conversions overwrite coordinates and crs, do not share them between datasets
+        self.coords = np.array(self.coords)
+        self.crs = copy(self.crs)
+
     @property
     def lon(self):
         return self.coords.T[0]
-- 
2.43.0


From 4852e8350d23379575098744bbba0d3a30213d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:13 +0000
Subject: [PATCH 21/24] fix: ENU data made from ECEF record the ellipsoid of
 their origin

ecef_to_enu left the ellipsoid recorded with ECEF data, which is then used
to convert the points back although their origin is relative to WGS84.
---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index d6cbe26..82cfcbf 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -415,6 +415,7 @@ def ecef_to_enu(
 
     # update coordinates reference system
     crs.name = CRSEnum.ENU
+    crs.ellps = _WGS84_
     crs.enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
-- 
2.43.0


From 211f1f88f9d902037b3f6e6219b35ddf0ee0035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 22/24] fix: do not share a geoid grid between conversions

---
 geec/crs.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index 82cfcbf..15fa35e 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -9,7 +9,6 @@
 import importlib.resources as resources
 from dataclasses import dataclass, field
 from enum import Enum, StrEnum
-from functools import cache
 from math import remainder
 
 # import from other lib
@@ -245,22 +244,26 @@ def wrap180(points: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
 data_path = resources.files("geec.data")
 
 
-@cache
-def _load_geoid(filename: str) -> pgeo.GeoidKarney:
-    """Load geoid grid, only when it is needed"""
-    return pgeo.GeoidKarney(data_path / "geoids" / filename)
+def _geoid_height(filename: str, x: list[pgeo.ellipsoidalKarney.LatLon]):
+    """Read geoid heights from grid
+
+    Note: the grid holds a position in the file and the last values read. It is not
+    shared between calls, which may run at the same time, fail or be interrupted.
+    """
+    with pgeo.GeoidKarney(data_path / "geoids" / filename) as geoid:
+        return geoid(x)
 
 
 def egm08geoid(x: list[pgeo.ellipsoidalKarney.LatLon]):
-    return _load_geoid("egm2008-2_5.pgm")(x)
+    return _geoid_height("egm2008-2_5.pgm", x)
 
 
 def egm96geoid(x: list[pgeo.ellipsoidalKarney.LatLon]):
-    return _load_geoid("egm96-5.pgm")(x)
+    return _geoid_height("egm96-5.pgm", x)
 
 
 def egm84geoid(x: list[pgeo.ellipsoidalKarney.LatLon]):
-    return _load_geoid("egm84-15.pgm")(x)
+    return _geoid_height("egm84-15.pgm", x)
 
 
 def ellpsgeoid(x: pgeo.ellipsoidalKarney.LatLon):
-- 
2.43.0


From c8b6a8f3055aae296a86126afb201d2d9f9e8262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 23/24] fix: a conversion which fails leaves the dataset
 unchanged

---
 geec/dataset.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index fca862a..9bc0229 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -71,7 +71,9 @@ class Dataset:
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
         }
 
-        self.coords, self.crs = CRS_ELLPSH[self.crs.name](self.coords, self.crs)
+        self.coords, self.crs = CRS_ELLPSH[self.crs.name](
+            self.coords.copy(), copy(self.crs)
+        )
 
     def to_ecef(self):
         """Convert points to cartesian coordinates system,
@@ -86,7 +88,9 @@ class Dataset:
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
         }
 
-        self.coords, self.crs = CRS_TOECEF[self.crs.name](self.coords, self.crs)
+        self.coords, self.crs = CRS_TOECEF[self.crs.name](
+            self.coords.copy(), copy(self.crs)
+        )
 
     def to_wgs84(self):
         """Convert points to wgs84 ellipsoid,
@@ -101,7 +105,9 @@ class Dataset:
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
         }
 
-        self.coords, self.crs = CRS_TOWGS84[self.crs.name](self.coords, self.crs)
+        self.coords, self.crs = CRS_TOWGS84[self.crs.name](
+            self.coords.copy(), copy(self.crs)
+        )
 
     def to_enu(self, lon0, lat0, alt0) -> None:
         """Convert points from WGS84 ellipsoid to ENU coordinate system,
@@ -119,7 +125,7 @@ class Dataset:
         }
 
         self.coords, self.crs = CRS_TOENU[self.crs.name](
-            self.coords, self.crs, lon0, lat0, alt0
+            self.coords.copy(), copy(self.crs), lon0, lat0, alt0
         )
 
 
-- 
2.43.0


From a896865d6ceb82b2f536bb1b87694168012b007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 24/24] fix: a computation which fails adds nothing to the
 station

---
 geec/station.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geec/station.py b/geec/station.py
index 5af9376..0677097 100644
--- a/geec/station.py
+++ b/geec/station.py
@@ -78,8 +78,11 @@ class Station:
         if not all(isinstance(x, Polyhedron) for x in polyhedrons):
             raise TypeError("polyhedrons should be of type Polyhedron")
 
-        for poly in polyhedrons:
-            (G, T) = poly.get_gravity(self.coord, density, Gc, gradient)
+        # compute all fields before adding any: a call which fails adds nothing
+        fields = [
+            poly.get_gravity(self.coord, density, Gc, gradient) for poly in polyhedrons
+        ]
+        for G, T in fields:
             self.G += G
             self.T += T
 
-- 
2.43.0

