From 6e75f33ff53a5da3c4a9012825847b9c3fa1067d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:48 +0000
Subject: [PATCH 01/16] fix: line integral of an edge seen in line with the
 observation point

Use the expression symmetric in both ends of the edge. The former one lost all
its digits (or gave NaN/inf) when the observation point was on the line carrying
the edge, or very close to it, and gave the wrong gravity gradient there; at a
vertex of the body it raised ZeroDivisionError.
---
 geec/polyhedron.py | 81 ++++++++++++----------------------------------
 1 file changed, 21 insertions(+), 60 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 3c2dc67..d394d73 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -141,52 +141,36 @@ class Edge:
     @staticmethod
     @jit(nopython=True)
     def _line_integral_along_edge(
-        cj: float,
         Lj: np.ndarray,
         lj: float,
-        Rj: np.ndarray,
-        rj: float,
-        b2: float,
-        bj: float,
+        R1: np.ndarray,
+        r1: float,
+        R2: np.ndarray,
+        r2: float,
         gradient: bool = False,
     ) -> tuple[np.ndarray, np.ndarray]:
-        """Line integral along edge"""
-        Ll = Lj / lj
-        if abs(cj) > epsilon:  # cj != 0
-            # observation point and edge are not in line
-            l2 = lj * lj
-            r2 = rj * rj
-            _sqrt = sqrt(l2 + bj + r2)
+        """Line integral along edge
 
-            t = (_sqrt + lj + b2) / cj
+        Note: written symmetrically in both ends of the edge, so that it also holds
+        when the observation point is in line with the edge.
+        """
+        Ll = Lj / lj
+        u = r1 + r2 + lj
+        v = r1 + r2 - lj
 
-            integral = log(t)
+        # observation point on the edge: the integral diverges, but as the point is in
+        # the plane of both faces of the edge, it does not contribute to gravity
+        on_edge = v <= 0
 
-        else:
-            # observation point and edge are in line
-            t = abs(lj - rj) / rj
-
-            integral = log(t)
+        integral = 0.0 if on_edge else log(u / v)
 
         pqr = integral * Ll
 
         if gradient:
-            Rr = Rj / rj
-
-            if abs(cj) > epsilon:  # cj != 0
-                u = t * cj
-                v = cj
-                DU = -((Lj + Rj) / _sqrt + Ll)
-                DV = -(Rr + Ll)
-
-            else:
-                u = abs(lj - rj)
-                v = rj
-                DU = ((lj - rj) / u) * Rr
-                DV = -Rr
-
-            DT = (v * DU - u * DV) / (v * v)
-            DPQR = Ll * (DT / t)[:, np.newaxis]
+            DT = np.zeros(3)
+            if not on_edge:
+                DT = (2 * lj / (u * v)) * (R1 / r1 + R2 / r2)
+            DPQR = Ll * DT[:, np.newaxis]
         else:
             DPQR = None
 
@@ -204,33 +188,10 @@ class Edge:
             R1, R2 = (self.points[0] - obs, self.points[1] - obs)
             r1, r2 = (np.linalg.norm(R1), np.linalg.norm(R2))
 
-            chsgn = 1  # if origin,p1 & p2 are on a st line
-            if r1 > r2 and np.dot(R1, R2) / (r1 * r2) == 1:  # p1 farther than p2
-                R1 = R2  # interchange p1,p2
-                r1 = r2
-                chsgn = -1
-
-            Lj = self.vector
-            lj = self.length
-
-            # bj = 2 Rj.Lj
-            bj = 2 * np.dot(R1, Lj)
-            b2 = bj / lj / 2
-            if abs(r1 + b2) < epsilon:  # r1 + b2 == 0
-                # observation point and edge are in line
-                Lj, bj = -Lj, -bj
-                b2 = bj / lj / 2
-
-            # cj = R1 + bj/(2*lj)
-            cj = r1 + b2
-
-            (pqr, dpqr) = self._line_integral_along_edge(
-                cj, Lj, lj, R1, r1, b2, bj, gradient
+            (self._pqr, self._dpqr) = self._line_integral_along_edge(
+                self.vector, self.length, R1, r1, R2, r2, gradient
             )
 
-            # change sign of I if p1,p2 were interchanged
-            self._pqr = pqr * chsgn
-            self._dpqr = dpqr
             # assign twin value
             self._set_twin_pqr()
 
-- 
2.43.0


From 876d0a2ae4d451ec8639c8b023721a1dbdd5c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:14 +0000
Subject: [PATCH 02/16] fix: solid angle of a face seen (almost) edge-on

When the observation point is in the plane of a face up to rounding errors, but
not exactly, acos() was called out of its domain (ValueError), or a rounding
error in the sign of 'perp' added 2*pi to the solid angle, giving a wrong gravity
gradient, or the cross product of two vertices vanished, giving NaN.

Get the angle from both its sine and cosine, and do not look for reflex angles:
faces are triangles.
---
 geec/polyhedron.py | 49 +++++++++++-----------------------------------
 1 file changed, 11 insertions(+), 38 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index d394d73..8e6f56c 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -18,7 +18,7 @@
 # --- import -----------------------------------
 # import from standard lib
 from itertools import pairwise
-from math import acos, log, sqrt
+from math import atan2, log
 
 # import from other lib
 import numpy as np
@@ -371,12 +371,13 @@ class Face:
         self._domega = np.zeros(3)
         if abs(self._dp1) > epsilon:
             points = self.points - obs  # [p1,p2,p3]
-            dots = np.dot(self.un, points.T)  # [un.p1, un.p2, un.p3]
             cross = [
                 cross_product(points[i], points[(i + 1) % self.npoints])
                 for i in range(self.npoints)
             ]  # [p1xp2, p2xp3, p3xp1]
             norm = np.linalg.norm(cross, axis=1)
+            if not np.all(norm):  # in line with an edge: face is seen edge-on
+                return
             # unit cross vector
             unitv = cross / norm[:, np.newaxis]  # [A1, A2, A3]
 
@@ -393,19 +394,19 @@ class Face:
             w = 0
             dw = 0
             for i in range(self.npoints):
-                inout = dots[i]
+                inout = self._dp1
                 (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
-                perp = self._get_perp(i, inout, self.npoints, points, A1)
                 b = self._get_b(A1, A2)
+                # |A1xA2|: sine of the angle, accurate even if the angle is close to 0 or pi
+                sinb = np.linalg.norm(cross_product(A1, A2))
 
-                angle = self._get_angle(i, inout, b, perp)
+                angle = self._get_angle(b, sinb)
                 w += angle
                 if gradient:
                     dangle = self._get_dangle(
                         i,
                         inout,
-                        b,
-                        perp,
+                        sinb,
                         A1,
                         A2,
                         self.npoints,
@@ -431,24 +432,6 @@ class Face:
             A1, A2 = A2, A1
         return (A1, A2)
 
-    @staticmethod
-    # @jit(nopython=True)
-    def _get_perp(
-        i: int, inout: float, npoints: int, points: np.ndarray, A1: np.ndarray
-    ) -> float:
-        """ """
-        # Check if face is seen from inside
-        if inout == 0:
-            return 1
-        else:
-            p3 = points[(i + 2) % npoints]  # p3
-            # if inout>0: face seen from inside
-            if inout > 0:
-                p3 = points[i]  # p1
-
-            # sign of perp is negative if points are clockwise
-            return np.dot(p3, A1)
-
     @staticmethod
     # @jit(nopython=True)
     def _get_b(A1: np.ndarray, A2: np.ndarray) -> float:
@@ -456,22 +439,15 @@ class Face:
 
     @staticmethod
     # @jit(nopython=True)
-    def _get_angle(i: int, inout: float, b: float, perp: float) -> float:
-        if inout == 0:
-            angle = 0
-        else:
-            angle = acos(b)
-            if perp < 0:
-                angle = 2 * np.pi - angle
-        return angle
+    def _get_angle(b: float, sinb: float) -> float:
+        return atan2(sinb, b)
 
     @staticmethod
     # @jit(nopython=True)
     def _get_dangle(
         i: int,
         inout: float,
-        b: float,
-        perp: float,
+        denom: float,
         A1: np.ndarray,
         A2: np.ndarray,
         npoints: int,
@@ -510,12 +486,9 @@ class Face:
         DA2 = (dV2 * v2 - V2 * dv2[:, np.newaxis]) / (v2 * v2)
 
         DB = npdot(DA1, A2) + npdot(DA2, A1)
-        denom = sqrt(1 - b * b)
 
         if denom != 0:
             dangle = -DB / denom
-            if perp < 0:
-                dangle = -dangle
 
         return dangle
 
-- 
2.43.0


From 03676e9a0b310b9257ab04290b9d9fcfbaba36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 03/16] fix: a failed or interrupted gravity computation
 spoiled the next one

get_gravity only reset the intermediate variables of faces and edges once done:
after an exception (or Ctrl-C), the next call silently reused values computed
for another observation point.
---
 geec/polyhedron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 8e6f56c..aa6bde9 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -924,6 +924,9 @@ class Polyhedron:
         gradient: optionaly compue gradient gravity fields
         """
 
+        # forget intermediate variables of a former, interrupted, computation
+        self.reset(coord)
+
         # setup G array, and shift back origin
         G = np.zeros(3)
         # self.set_origin(coord)
-- 
2.43.0


From 2ba5284cd7fcd243161d67b9308ec63ad9b70bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 04/16] fix: use density and gravity constant of each mass body

'geec run' used those of the first mass body for all of them.
---
 geec/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/cli.py b/geec/cli.py
index df90a73..00d0a6d 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -65,9 +65,6 @@ def run(
     # assess Polyhedron of each mass bodies
     p = [Polyhedron(mass.dataset.coords) for mass in masses]
 
-    density = masses[0].density
-    Gc = masses[0].gravity_constant
-
     # observation points
     observer = geec.observer.get_observer(config)
     observer.to_wgs84()
@@ -78,7 +75,10 @@ def run(
 
     def add_gravity(row):
         s = Station(np.array(row))
-        s.compute_gravity(p, density, Gc, gradient=gradient)
+        for mass, poly in zip(masses, p, strict=True):
+            s.compute_gravity(
+                poly, mass.density, mass.gravity_constant, gradient=gradient
+            )
         listG = s.G
         listT = s.T.flatten()[
             [0, 1, 2, 4, 5, 8]
-- 
2.43.0


From 2e94062e24a8514781ca1769896f368b5225e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 05/16] fix: compute gravity at the ECEF position of the
 observation points

'geec run' converts mass bodies to ECEF, but used the longitude, latitude and
altitude of the observation points as if they were ECEF coordinates.
---
 geec/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geec/cli.py b/geec/cli.py
index 00d0a6d..e761d2b 100644
--- a/geec/cli.py
+++ b/geec/cli.py
@@ -73,6 +73,10 @@ def run(
     obs_name = observer.coords_name
     obs_unit = observer.coords_unit
 
+    # mass bodies are in ECEF: compute gravity in the same coordinates system
+    observer.to_ecef()
+    obs_ecef = observer.dataset.coords
+
     def add_gravity(row):
         s = Station(np.array(row))
         for mass, poly in zip(masses, p, strict=True):
@@ -85,7 +89,7 @@ def run(
         ]  # "txx", "txy", "txz", "tyy", "tyz", "tzz"
         return np.concatenate([listG, listT])
 
-    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_points)
+    listGT = np.apply_along_axis(add_gravity, axis=1, arr=obs_ecef)
     G_name = ["Gx", "Gy", "Gz"]
     G_unit = ["(mGal)", "(mGal)", "(mGal)"]
     T_name = ["txx", "txy", "txz", "tyy", "tyz", "tzz"]
-- 
2.43.0


From 9f5f3983e26540780e9a42bce1afd0d28e070ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 06/16] fix: do not handle local ENU coordinates as longitude
 and latitude

to_lon180 subtracted 360 m to any easting above 180 m, and to_ellipsoid_height
looked for the geoid height at longitude=easting, latitude=northing (and failed
for any northing above 90 m, even without any geoid).
---
 geec/dataset.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index ea20e8c..44ac1ec 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -41,10 +41,10 @@ class Dataset:
         """Convert longitude to -180°..180°,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ECEF or local ENU coordinate system, do nothing.
         """
         CRS_LON180 = {
-            geec.crs.CRSEnum.ENU: geec.crs.wrap180,
+            geec.crs.CRSEnum.ENU: lambda x: x,
             geec.crs.CRSEnum.ELLPS: geec.crs.wrap180,
             geec.crs.CRSEnum.ECEF: lambda x: x,
             geec.crs.CRSEnum.CART: lambda x: x,
@@ -56,10 +56,10 @@ class Dataset:
         """Convert altitude to ellipsoid height,
         depending on coordinates reference system.
 
-        Note: for Cartesian or ECEF coordinate system, do nothing.
+        Note: for Cartesian, ECEF or local ENU coordinate system, do nothing.
         """
         CRS_ELLPSH = {
-            geec.crs.CRSEnum.ENU: geec.crs.ellipsoid_height,
+            geec.crs.CRSEnum.ENU: lambda x, y: (x, y),
             geec.crs.CRSEnum.ELLPS: geec.crs.ellipsoid_height,
             geec.crs.CRSEnum.ECEF: lambda x, y: (x, y),
             geec.crs.CRSEnum.CART: lambda x, y: (x, y),
-- 
2.43.0


From dcdd7d4f707b750e480c6714268bcddaac5836fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 07/16] fix: accept vdatum egm2008, as documented in the
 configuration file

---
 geec/crs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geec/crs.py b/geec/crs.py
index cefde8e..812ab07 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -35,6 +35,7 @@ class VDatumEnum(StrEnum):
     EGM84 = "egm84"
     EGM96 = "egm96"
     EGM08 = "egm2008"
+    EGM2008 = "egm2008"  # alias, name used in configuration file
 
 
 EllModelEnum = Enum("EllModelEnum", pm.Ellipsoid.models)
-- 
2.43.0


From 292e8e1c0cde0a84342d98672d39d60ffc1deb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 08/16] fix: read points coordinates as float

With integers only in the configuration or csv file, coordinates were an array
of integers, to which the geoid height could not be added.
---
 geec/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 44ac1ec..771d663 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -120,12 +120,12 @@ class Dataset:
 def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
     if config["points"]:
         coords = config["points"].get()
-        return np.array(coords)
+        return np.array(coords, dtype=np.float64)
     elif config["file_path"]:
         file_path = Path(str(config["file_path"].get(str)))
         if file_path.is_file():
             df = pd.read_csv(file_path, sep=",", header=None)
-            return df.values
+            return df.to_numpy(dtype=np.float64)
         else:
             msg = f"File {file_path} not found"
             logger.error(msg)
-- 
2.43.0


From 2de5777577cab3dc302ba4e8b01ba318979141fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:33 +0000
Subject: [PATCH 09/16] fix: to_enu from another ellipsoid than WGS84, or from
 another ENU origin

Coordinates on any ellipsoid were handled as if they were on WGS84, ENU
coordinates were kept relative to their former origin, and the resulting crs
did not fulfil the CRS requirement of a single reference ellipsoid.
---
 geec/crs.py     | 24 ++++++++++++++++++++++++
 geec/dataset.py |  6 +++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/geec/crs.py b/geec/crs.py
index 812ab07..3b3859a 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -397,6 +397,7 @@ def ecef_to_enu(
 
     # update coordinates reference system
     crs.name = CRSEnum.ENU
+    crs.ellps = _WGS84_
     crs.enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
@@ -431,6 +432,7 @@ def wgs84_to_enu(
 
     # update coordinates reference system
     crs.name = CRSEnum.ENU
+    crs.ellps = _WGS84_
     crs.enu = ENU(
         ellps=_WGS84_,
         longitude_origin=lon0,
@@ -439,3 +441,25 @@ def wgs84_to_enu(
     )
 
     return points, crs
+
+
+def ellps_to_enu(
+    points: npt.NDArray[np.float64], crs: CRS, lon0: float, lat0: float, alt0: float
+) -> tuple[npt.NDArray[np.float64], CRS]:
+    """Transform and overwrite points from any ellipsoid to ENU coordinates.
+
+    ENU origin: lon0, lat0, alt0
+    """
+    points, crs = ellps_to_wgs84(points, crs)
+    return wgs84_to_enu(points, crs, lon0, lat0, alt0)
+
+
+def enu_to_enu(
+    points: npt.NDArray[np.float64], crs: CRS, lon0: float, lat0: float, alt0: float
+) -> tuple[npt.NDArray[np.float64], CRS]:
+    """Transform and overwrite points from ENU coordinates to another ENU origin.
+
+    ENU origin: lon0, lat0, alt0
+    """
+    points, crs = enu_to_ecef(points, crs)
+    return ecef_to_enu(points, crs, lon0, lat0, alt0)
diff --git a/geec/dataset.py b/geec/dataset.py
index 771d663..21ac62b 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -98,7 +98,7 @@ class Dataset:
         self.coords, self.crs = CRS_TOWGS84[self.crs.name](self.coords, self.crs)
 
     def to_enu(self, lon0, lat0, alt0) -> None:
-        """Convert points from WGS84 ellipsoid to ENU coordinate system,
+        """Convert points to ENU coordinate system (on WGS84 ellipsoid),
         depending on coordinates reference system.
 
         ENU origin: lat0, lon0, alt0
@@ -106,8 +106,8 @@ class Dataset:
         Note: for Cartesian coordinates reference system, do nothing.
         """
         CRS_TOENU = {
-            geec.crs.CRSEnum.ENU: lambda x, y, *args: (x, y),
-            geec.crs.CRSEnum.ELLPS: geec.crs.wgs84_to_enu,
+            geec.crs.CRSEnum.ENU: geec.crs.enu_to_enu,
+            geec.crs.CRSEnum.ELLPS: geec.crs.ellps_to_enu,
             geec.crs.CRSEnum.ECEF: geec.crs.ecef_to_enu,
             geec.crs.CRSEnum.CART: lambda x, y, *args: (x, y),
         }
-- 
2.43.0


From a8704efc85c4f91fa5ea256d5eb379aec573cba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:11 +0000
Subject: [PATCH 10/16] fix: gravity gradient seen from the plane of a face, up
 to rounding errors

When the observation point is in the plane of a face up to rounding errors, angles
between the planes O-p1-p2, O-p2-p3, and O-p3-p1 are undefined if it is also in line
with an edge, and their derivatives are divided by a rounding error: gravity
gradients could be wrong by several orders of magnitude.

Do not use those angles then, nor their derivatives (Van Oosterom and Strackee,
1983).
---
 geec/polyhedron.py | 129 ++++++++++++---------------------------------
 1 file changed, 35 insertions(+), 94 deletions(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index aa6bde9..2efa510 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -33,7 +33,6 @@ from scipy.spatial import ConvexHull
 from geec.utils import (
     cross_product,
     epsilon,
-    minus_identity,
 )
 
 
@@ -375,51 +374,43 @@ class Face:
                 cross_product(points[i], points[(i + 1) % self.npoints])
                 for i in range(self.npoints)
             ]  # [p1xp2, p2xp3, p3xp1]
-            norm = np.linalg.norm(cross, axis=1)
-            if not np.all(norm):  # in line with an edge: face is seen edge-on
-                return
-            # unit cross vector
-            unitv = cross / norm[:, np.newaxis]  # [A1, A2, A3]
+            dots = [
+                np.dot(points[i], points[(i + 1) % self.npoints])
+                for i in range(self.npoints)
+            ]  # [p1.p2, p2.p3, p3.p1]
+            r1, r2, r3 = r = np.linalg.norm(points, axis=1)
+
+            num = abs(np.dot(points[0], cross[1]))  # |p1.(p2xp3)|
+            if num > 1e-3 * r1 * r2 * r3:
+                # unit cross vector
+                unitv = cross / np.linalg.norm(cross, axis=1)[:, np.newaxis]
+
+                w = 0
+                for i in range(self.npoints):
+                    (A1, A2) = self._get_A1A2(i, self._dp1, self.npoints, unitv)
+                    b = self._get_b(A1, A2)
+                    # |A1xA2|: sine of the angle
+                    sinb = np.linalg.norm(cross_product(A1, A2))
+                    w += self._get_angle(b, sinb)
+
+                w -= (self.npoints - 2) * np.pi
+            else:
+                # face is seen (almost) edge-on: angles between planes O-p1-p2, O-p2-p3
+                # and O-p3-p1 are spoiled by rounding errors
+                denom = r1 * r2 * r3 + r3 * dots[0] + r1 * dots[1] + r2 * dots[2]
+                w = 2 * atan2(num, denom)
 
-            if gradient:
-                # [[p1 x dpx, p1 x dpy, p1 x dpz],[p2 x dpx,...],...]
-                cross_dp = cross_product(points, minus_identity)
-                # cross_dp = np.array(
-                #     [
-                #         [cross_product(points[i], minus_identity[j]) for j in range(3)]
-                #         for i in range(3)
-                #     ]
-                # )
-
-            w = 0
-            dw = 0
-            for i in range(self.npoints):
-                inout = self._dp1
-                (A1, A2) = self._get_A1A2(i, inout, self.npoints, unitv)
-                b = self._get_b(A1, A2)
-                # |A1xA2|: sine of the angle, accurate even if the angle is close to 0 or pi
-                sinb = np.linalg.norm(cross_product(A1, A2))
-
-                angle = self._get_angle(b, sinb)
-                w += angle
-                if gradient:
-                    dangle = self._get_dangle(
-                        i,
-                        inout,
-                        sinb,
-                        A1,
-                        A2,
-                        self.npoints,
-                        cross_dp,
-                        cross,
-                        norm,
-                        unitv,
-                    )
-                    dw += dangle
-
-            w -= (self.npoints - 2) * np.pi
             self._omega = -self._sign * w
-            self._domega = -self._sign * dw
+
+            if gradient:
+                for i in range(self.npoints):
+                    r1, r2 = r[i], r[(i + 1) % self.npoints]
+                    if dots[i] > 0:
+                        denom = r1 * r2 + dots[i]
+                    else:  # same value, without loss of accuracy close to the edge
+                        denom = np.dot(cross[i], cross[i]) / (r1 * r2 - dots[i])
+                    if denom > 0:  # not on the edge
+                        self._domega -= (1 / r1 + 1 / r2) / denom * cross[i]
 
     @staticmethod
     # @jit(nopython=True)
@@ -442,56 +433,6 @@ class Face:
     def _get_angle(b: float, sinb: float) -> float:
         return atan2(sinb, b)
 
-    @staticmethod
-    # @jit(nopython=True)
-    def _get_dangle(
-        i: int,
-        inout: float,
-        denom: float,
-        A1: np.ndarray,
-        A2: np.ndarray,
-        npoints: int,
-        cross_dp: np.ndarray,
-        cross: list[np.ndarray],
-        norm: np.ndarray,
-        unitv: np.ndarray,
-    ) -> float:
-        dangle = np.zeros(3)
-        # local variables are access much more efficiently
-        npdot = np.dot
-
-        cdp1 = -cross_dp[i]
-        cdp2 = cross_dp[(i + 1) % npoints]
-        cdp3 = -cross_dp[(i + 2) % npoints]
-
-        V1, V2 = -cross[i], cross[(i + 1) % npoints]
-        v1, v2 = norm[i], norm[(i + 1) % npoints]
-        uV1, uV2 = -unitv[i], unitv[(i + 1) % npoints]
-
-        if inout > 0:
-            cdp1, cdp3 = cdp3, cdp1
-            V1, V2 = V2, V1
-            v1, v2 = v2, v1
-            uV1, uV2 = uV2, uV1
-
-        dV1 = cdp1 + cdp2
-        dV2 = cdp3 + cdp2
-
-        dv1 = npdot(dV1, uV1)
-        dv2 = npdot(dV2, uV2)
-        # dv1 = np.dot(dV1, V1) / v1
-        # dv2 = np.dot(dV2, V2) / v2
-
-        DA1 = (dV1 * v1 - V1 * dv1[:, np.newaxis]) / (v1 * v1)
-        DA2 = (dV2 * v2 - V2 * dv2[:, np.newaxis]) / (v2 * v2)
-
-        DB = npdot(DA1, A2) + npdot(DA2, A1)
-
-        if denom != 0:
-            dangle = -DB / denom
-
-        return dangle
-
     # def _get_omega(self, obs: np.ndarray, gradient: bool = False) -> None:
     #     """compute solid angle 'omega' subtended by the face at the observation point
 
-- 
2.43.0


From 1b4881e9b54c844f2f94d98b232d7d48f4ba24a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 11/16] fix: check shape of polyhedron points

Any other shape than (N,3) crashed the interpreter (1 column), or failed later with
an unrelated error message.
---
 geec/polyhedron.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 2efa510..8f0c18b 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -677,9 +677,10 @@ class Polyhedron:
         """
         logger.trace("initialise Polyhedron")
         # check points list of coordinates
-        # TODO: check np.ndarray shape (N,3)
         if not isinstance(points, np.ndarray):
             raise KeyError("'points' must be a numpy array")
+        elif points.ndim != 2 or points.shape[1] != 3:
+            raise ValueError("'points' must be an array of shape (N,3)")
         else:
             self.points = points
 
-- 
2.43.0


From 7d222936c817d0d8bad8536051dd038acdf2c4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:41 +0000
Subject: [PATCH 12/16] fix: conversion to WGS84 of points on the polar axis

---
 geec/crs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geec/crs.py b/geec/crs.py
index 3b3859a..20d56a7 100644
--- a/geec/crs.py
+++ b/geec/crs.py
@@ -334,6 +334,8 @@ def ecef_to_wgs84(
 
     logger.info("Convert points cooridnates from ECEF to WGS84 ellipsoid")
     x, y, z = points.T
+    # ecef2geodetic fails on arrays with points on the polar axis: move those by 1 nm
+    x = np.where(np.hypot(x, y) < 1e-9, 1e-9, x)
     lat, lon, alt = pm.ecef2geodetic(x, y, z)  # by default to 'wgs84'
 
     points = np.array([lon, lat, alt]).T
-- 
2.43.0


From 8d2ab4a441f58bb165c8121b3b355c491f5d751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:59 +0000
Subject: [PATCH 13/16] fix: make grid coordinates float, whatever the bounds
 are

---
 geec/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 21ac62b..6628593 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -138,7 +138,7 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
         z_start, z_end, z_step = grid["zstart_zend_zstep"].get(list)
 
         g = np.mgrid[x_start:x_end:x_step, y_start:y_end:y_step, z_start:z_end:z_step]
-        return np.transpose(g.reshape(len(g), -1))
+        return np.transpose(g.reshape(len(g), -1)).astype(np.float64)
     else:
         msg = "Points must be a list of points or a file"
         logger.error(msg)
-- 
2.43.0


From 380cc24893e5fe3dafa2710c10f232c8528c98f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:48 +0000
Subject: [PATCH 14/16] fix: refuse observation points that have not three
 coordinates

---
 geec/polyhedron.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 8f0c18b..4ddee6b 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -865,6 +865,9 @@ class Polyhedron:
         Gc: Gravitational constant []
         gradient: optionaly compue gradient gravity fields
         """
+        # other shapes could silently be broadcast
+        if np.shape(coord) != (3,):
+            raise ValueError("'coord' must be an array of shape (3,)")
 
         # forget intermediate variables of a former, interrupted, computation
         self.reset(coord)
-- 
2.43.0


From 054982879b26d0a2344df1b0975fc9281cdce8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:37 +0000
Subject: [PATCH 15/16] fix: loss of accuracy of the gravity gradient close to
 an edge

---
 geec/polyhedron.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geec/polyhedron.py b/geec/polyhedron.py
index 4ddee6b..0e019b5 100644
--- a/geec/polyhedron.py
+++ b/geec/polyhedron.py
@@ -155,7 +155,13 @@ class Edge:
         """
         Ll = Lj / lj
         u = r1 + r2 + lj
-        v = r1 + r2 - lj
+        # r1 + r2 - lj, without loss of accuracy close to the edge
+        dot = np.dot(R1, R2)
+        if dot >= 0:
+            v = 2 * (r1 * r2 + dot) / u
+        else:
+            R1xR2 = np.cross(R1, R2)
+            v = 2 * np.dot(R1xR2, R1xR2) / ((r1 * r2 - dot) * u)
 
         # observation point on the edge: the integral diverges, but as the point is in
         # the plane of both faces of the edge, it does not contribute to gravity
-- 
2.43.0


From 4137b2140c74f17f373b4a14bf3db37d34fe2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:44 +0000
Subject: [PATCH 16/16] fix: read coordinates from file to the last digit

---
 geec/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geec/dataset.py b/geec/dataset.py
index 6628593..09514a8 100644
--- a/geec/dataset.py
+++ b/geec/dataset.py
@@ -124,7 +124,9 @@ def _read_coords(config: Subview) -> npt.NDArray[np.float64]:
     elif config["file_path"]:
         file_path = Path(str(config["file_path"].get(str)))
         if file_path.is_file():
-            df = pd.read_csv(file_path, sep=",", header=None)
+            df = pd.read_csv(
+                file_path, sep=",", header=None, float_precision="round_trip"
+            )
             return df.to_numpy(dtype=np.float64)
         else:
             msg = f"File {file_path} not found"
-- 
2.43.0

