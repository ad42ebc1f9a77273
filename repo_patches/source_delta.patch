From bcf450fd0a91b207ba7d01d054702c2b2692e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:25 +0000
Subject: [PATCH 01/32] fix: azimuthal part of spherical_to_cartesian vector
 transform

The y component of the azimuthal unit vector is cos(phi), not cos(theta).
---
 geoana/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 01e1f03..ff7402d 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -303,7 +303,7 @@ def spherical_to_cartesian(grid, vec=None):
 
     y = (
         vec[..., 0] * np.sin(theta) * np.sin(phi) +
-        vec[..., 1] * np.cos(theta) +
+        vec[..., 1] * np.cos(phi) +
         vec[..., 2] * np.cos(theta) * np.sin(phi)
     )
 
-- 
2.43.0


From 8e6a220070a9a9bded7a91605fbce5493667340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:40 +0000
Subject: [PATCH 02/32] fix: cartesian_to_spherical vector transform overwrote
 phi before use

The polar component was computed with the azimuthal component in place of
the azimuth angle.
---
 geoana/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index ff7402d..1424855 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -397,15 +397,15 @@ def cartesian_to_spherical(grid, vec=None):
         vec[..., 2] * np.cos(theta)
     )
 
-    phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
+    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
 
-    theta = (
+    v_theta = (
         vec[..., 0] * np.cos(theta) * np.cos(phi) +
         vec[..., 1] * np.cos(theta) * np.sin(phi) -
         vec[..., 2] * np.sin(theta)
     )
 
-    return np.stack([r, phi, theta], axis=-1)
+    return np.stack([r, v_phi, v_theta], axis=-1)
 
 
 def vector_magnitude(v):
-- 
2.43.0


From cbf689f542f7af60e2bf0a262e9ba455c130991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:40 +0000
Subject: [PATCH 03/32] fix: rotation_matrix_from_normals for nearly
 anti-parallel vectors

When the normals are anti-parallel only up to rounding the cross product is
round off noise, and the matrix did not map v0 to v1 at all.
---
 geoana/spatial.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 1424855..fc1de7e 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -602,8 +602,11 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
 
     v0dotv1 = v0.dot(v1)
 
-    # define the rotation axis, which is the cross product of the two vectors
-    rotation_axis = np.cross(v0, v1)
+    # define the rotation axis, which is parallel to the cross product of the two
+    # vectors. Written with their sum and difference, cross(v0 - v1, v0 + v1) is
+    # 2*cross(v0, v1) without the cancellation for nearly anti-parallel vectors.
+    v_sum = v0 + v1
+    rotation_axis = np.cross(v0 - v1, v_sum)
 
     if np.linalg.norm(rotation_axis) < tol:
         # check if vectors were anti-parallel.
@@ -624,7 +627,8 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
                 return Rotation.from_matrix(mat)
 
 
-    w = 1 + v0dotv1
+    # 2 * (1 + v0dotv1)
+    w = v_sum.dot(v_sum)
     rot = Rotation.from_quat(np.r_[rotation_axis, w])
 
     if as_matrix:
-- 
2.43.0


From dd3125574d64ccc43b67674d4e28f06e2b593975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 04/32] fix: field outside of the electrostatic and
 magnetostatic spheres

The dipole part must be R^3 / r^5: as written it did not have the units of the
primary field, was not minus the gradient of the potential and left the normal
current (flux) discontinuous on the sphere.
---
 geoana/em/static/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 1e2182a..d926076 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -335,7 +335,7 @@ class ElectrostaticSphere:
 
         # total field outside the sphere
         Et[ind0] = E0 * (1. - sig_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Et[~ind0] = 3. * sig0 / (sig1 + 2. * sig0) * E0
@@ -835,7 +835,7 @@ class MagnetostaticSphere:
 
         # total field outside the sphere
         Ht[ind0] = H0 * (1. - mu_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Ht[~ind0] = 3. * mu0 / (mu1 + 2. * mu0) * H0
-- 
2.43.0


From 8a1114755ef8fcc58c7c5110bcee3b6b617010e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 05/32] fix: EarthquakeInterferogram.local_rigidity could not
 be read back

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 109d92e..65d7d06 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -399,7 +399,7 @@ class EarthquakeInterferogram:
         except:
             raise TypeError("local_rigidity must be a float")
 
-        self._rigidity = var
+        self._local_rigidity = var
 
     @property
     def processed_by(self):
-- 
2.43.0


From a26d376e1b899e482df787de2d06a2acc2ffe66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 06/32] fix: EarthquakeInterferogram.event_date returned the
 processed date

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 65d7d06..d6b7492 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -645,7 +645,7 @@ class EarthquakeInterferogram:
         datetime.datetime
             The date and time
         """
-        return self._processed_date
+        return self._event_date
 
     @event_date.setter
     def event_date(self, date_time):
-- 
2.43.0


From eb64dbbb81abb73e05e14344d69b905e6ae2631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 07/32] fix: Oksar.V raised AttributeError

The simulation grid, and so every displacement, depends on it.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index d6b7492..78875e9 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1001,7 +1001,7 @@ class Oksar:
             V direction of the simulation domain
 
         """
-        return self._location
+        return self._V
 
     @V.setter
     def V(self, var):
-- 
2.43.0


From 2bfedb415f556a070785a52e6a0e201c493ff1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:13 +0000
Subject: [PATCH 08/32] fix: Oksar.displacement_vector picked grid points
 instead of components

_dc3d3 returns the components along the first axis; indexing the last one gave
a (3, 3) array made of the first three grid points.
---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 78875e9..6020ee0 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1346,9 +1346,9 @@ class Oksar:
 
         u = self._dc3d3(alpha, X, Y, -dip, al1, al2, aw1, aw2, us, ud)
 
-        UX = ct*u[...,0] + st*u[...,1]
-        UY = -st*u[...,0] + ct*u[...,1]
-        UZ = u[..., 2]
+        UX = ct*u[0] + st*u[1]
+        UY = -st*u[0] + ct*u[1]
+        UZ = u[2]
 
         return np.stack([UX, UY, UZ], axis=-1)
 
-- 
2.43.0


From 79def9d37051ce2e5841ecdb850f6f38f2d77f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:13 +0000
Subject: [PATCH 09/32] fix: Oksar.simulation_grid for U and V that are not
 along the axes

The grid is O + s*U + t*V; the directions have to be the columns of the matrix.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 6020ee0..af36f4e 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1284,7 +1284,7 @@ class Oksar:
         """
         shape = self.shape
         origin = self.O
-        R = np.stack([self.U, self.V])
+        R = np.stack([self.U, self.V], axis=-1)
         square = np.meshgrid(
             np.linspace(0, 1, shape[0]),
             np.linspace(0, 1, shape[1])
-- 
2.43.0


From 01a1accc652f78a514d7c6571e4b3b35599fc6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:13 +0000
Subject: [PATCH 10/32] fix: Oksar displacement of a point depended on the rest
 of the grid

The coordinates are zeroed relative to the largest one of the same point, as in
dc3d, not relative to the largest one of the whole grid.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index af36f4e..ac8a4db 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1407,7 +1407,7 @@ class Oksar:
                 # %%dccon2 subroutine
                 # % calculates station geometry constants for finite source
 
-                dc_max = np.max(np.abs(np.c_[xi, et, q]))
+                dc_max = np.max(np.abs(np.c_[xi, et, q]), axis=-1)
 
                 # dc_max = max(np.abs(xi),max(np.abs(et),np.abs(q)))
 
-- 
2.43.0


From cda8bfee26fdee2c0a77174462d86e4d049eba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:13 +0000
Subject: [PATCH 11/32] fix: Oksar raised for points that it handles right
 afterwards

Points in line with the end of the fault (xi = q = 0, eta < 0) have a limit of
their own, which the check for tiny r + eta never let them reach.
---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index ac8a4db..1a3eeb4 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1434,8 +1434,10 @@ class Oksar:
                 c2_x11 = F1/(c2_r*rxi)
                 c2_x11[(dc_xi < F0) & (dc_q == F0) & (dc_et == F0)] = F0
 
+                ind = (dc_et < F0) & (dc_q == F0) & (dc_xi == F0)
+
                 ret = c2_r + dc_et
-                if np.any(ret < 1e-14):
+                if np.any(ret[~ind] < 1e-14):
                     raise Exception('dccon2 b %f %f %f %f %f' % (
                         ret, c2_r, dc_et, dc_q, dc_xi
                     ))
@@ -1443,8 +1445,6 @@ class Oksar:
                 c2_ale = np.log(ret)
                 c2_y11 = F1/(c2_r*ret)
 
-                ind = (dc_et < F0) & (dc_q == F0) & (dc_xi == F0)
-
                 # if((c2_r-dc_et) < 1e-14):
                 #     raise Exception('dccon2 a %f %f %f %f %f' % (
                 #         c2_3-dc_et, c2_r, dc_et, dc_q, dc_xi)
-- 
2.43.0


From 5e5d9b21575b1b00c415650c2376c03d84e0a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:13 +0000
Subject: [PATCH 12/32] fix: Oksar.plot_displacement with an interferogram, and
 its orientation

The grid was handed over as if it was one location, and the grid starts at the
bottom left corner, so flipping it drew the displacement upside down.
---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 1a3eeb4..e4f9443 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1581,9 +1581,9 @@ class Oksar:
         if eq is None:
             LOS = np.array([0, 0, 1])
         else:
-            LOS = eq.get_LOS_vector(grid)
-        data = DIR.dot(LOS)
-        data = np.flipud(data.reshape(self.shape, order='F').T)
+            LOS = eq.get_LOS_vector(list(grid)).T
+        data = np.sum(DIR * LOS, axis=-1)
+        data = data.reshape(self.shape, order='F').T
         # data[data == 0] = np.nan
         # data *= self.scaling
 
-- 
2.43.0


From d0b9c706d8d0079dd46a51347b173c92ffb227f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:26 +0000
Subject: [PATCH 13/32] fix: plot2Ddata removed vmin and vmax from the caller's
 contourOpts

---
 geoana/plotting_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 4307747..3ab56f1 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -111,6 +111,9 @@ def plot2Ddata(
 
     """
 
+    # leave the dictionary of the caller (and the default one) alone
+    contourOpts = dict(contourOpts)
+
     # Error checking and set vmin, vmax
     vlimits = [None, None]
 
-- 
2.43.0


From 5b6977f63a709daf78f1fcf36537bfccd11eedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:26 +0000
Subject: [PATCH 14/32] fix: plot2Ddata with vec and level raised TypeError

levels and zorder are already among the options.
---
 geoana/plotting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 3ab56f1..71910c5 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -233,7 +233,7 @@ def plot2Ddata(
 
         if level:
             levelOpts = {"levels": levels, "zorder": 3, **levelOpts}
-            CS = ax.contour(X, Y, DATA, levels=levels, zorder=3, **levelOpts)
+            CS = ax.contour(X, Y, DATA, **levelOpts)
 
     if shade:
 
-- 
2.43.0


From af10def289ac7201bf209ec92fb90693d6041517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:26 +0000
Subject: [PATCH 15/32] fix: plot2Ddata with both ax and figname raised
 NameError

---
 geoana/plotting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 71910c5..f2363b7 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -273,7 +273,7 @@ def plot2Ddata(
     ax.set_aspect("equal", adjustable="box")
     if figname:
         plt.axis("off")
-        fig.savefig(figname, dpi=200)
+        ax.figure.savefig(figname, dpi=200)
     if level:
         return cont, ax, CS
     else:
-- 
2.43.0


From 7c7429083eb76fed51e6a353cad3bd26abaae33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:42 +0000
Subject: [PATCH 16/32] fix: setters kept, and normalised in place, the
 caller's array

Assigning an orientation changed the array that was passed in, and later changes
to an array that had been assigned changed the object without validation. All
objects created with the default location shared one array.
---
 geoana/earthquake/oksar.py    | 16 ++++++++--------
 geoana/em/base.py             |  6 +++---
 geoana/em/fdem/base.py        |  2 +-
 geoana/em/fdem/wholespace.py  |  2 +-
 geoana/em/static/freespace.py |  2 +-
 geoana/em/tdem/base.py        |  2 +-
 geoana/em/tdem/wholespace.py  |  2 +-
 geoana/gravity.py             |  2 +-
 geoana/shapes.py              |  4 ++--
 9 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index e4f9443..c031b3b 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -104,7 +104,7 @@ class EarthquakeInterferogram:
     @data.setter
     def data(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("Location must be a array_like of float")
 
@@ -145,7 +145,7 @@ class EarthquakeInterferogram:
     @location.setter
     def location(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "Location must be array_like of float"
@@ -219,7 +219,7 @@ class EarthquakeInterferogram:
     @pixel_size.setter
     def pixel_size(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("pixel_size must be array_like of float")
         var = np.squeeze(var)
@@ -243,7 +243,7 @@ class EarthquakeInterferogram:
     @ref.setter
     def ref(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "ref must be a array_like of float"
@@ -958,7 +958,7 @@ class Oksar:
     @O.setter
     def O(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("O must be array_like of float")
         var = np.squeeze(var)
@@ -981,7 +981,7 @@ class Oksar:
     @U.setter
     def U(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "U must be a array_like of float"
@@ -1006,7 +1006,7 @@ class Oksar:
     @V.setter
     def V(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("V must be array_like of float")
         var = np.squeeze(var)
@@ -1030,7 +1030,7 @@ class Oksar:
     @center.setter
     def center(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("center must be array_like of float")
         var = np.squeeze(var)
diff --git a/geoana/em/base.py b/geoana/em/base.py
index 4a5792b..0dbb34a 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -171,7 +171,7 @@ class BaseDipole:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
         vec = np.squeeze(vec)
@@ -207,7 +207,7 @@ class BaseDipole:
                 raise ValueError("Orientation must be one of {'X','Y','Z'}")
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
@@ -475,7 +475,7 @@ class BaseLineCurrent:
     def nodes(self, xyz):
 
         try:
-            xyz = np.asarray(xyz, dtype=np.float64)
+            xyz = np.array(xyz, dtype=np.float64)
         except:
             raise TypeError(f"nodes must be array_like, got {type(xyz)}")
         xyz = np.atleast_2d(xyz)
diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 8c575f7..9f197ca 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -207,7 +207,7 @@ class BaseFDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"frequencies are not a valid type")
         # Enforce positivity and dimensions
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index 851156e..a1dcaf3 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -982,7 +982,7 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[0., 1., 0.]
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
diff --git a/geoana/em/static/freespace.py b/geoana/em/static/freespace.py
index 810efea..f9d8dec 100644
--- a/geoana/em/static/freespace.py
+++ b/geoana/em/static/freespace.py
@@ -50,7 +50,7 @@ class MagneticPrism(BasePrism):
     @magnetization.setter
     def magnetization(self, vec):
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/em/tdem/base.py b/geoana/em/tdem/base.py
index e5b918b..998132e 100644
--- a/geoana/em/tdem/base.py
+++ b/geoana/em/tdem/base.py
@@ -165,7 +165,7 @@ class BaseTDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"times are not a valid type")
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 8a56ba2..a6aa842 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -659,7 +659,7 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[0., 1., 0.]
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
diff --git a/geoana/gravity.py b/geoana/gravity.py
index 5441f5b..7f27586 100644
--- a/geoana/gravity.py
+++ b/geoana/gravity.py
@@ -87,7 +87,7 @@ class PointMass:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/shapes.py b/geoana/shapes.py
index 0fda9ec..f761617 100644
--- a/geoana/shapes.py
+++ b/geoana/shapes.py
@@ -57,7 +57,7 @@ class BasePrism:
     def min_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
@@ -84,7 +84,7 @@ class BasePrism:
     def max_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
-- 
2.43.0


From d4e4f2311eae8bfb2430241a5c42414b925b281b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:42 +0000
Subject: [PATCH 17/32] fix: plane waves accepted any string as an orientation

A string other than 'X' or 'Y' was stored as it is and only failed, or not,
when a field was computed.
---
 geoana/em/fdem/wholespace.py | 2 ++
 geoana/em/tdem/wholespace.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index a1dcaf3..953e7b6 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -980,6 +980,8 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.array(var, dtype=float)
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index a6aa842..210dc10 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -657,6 +657,8 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.array(var, dtype=float)
-- 
2.43.0


From fa63efd5137320c84f5883825d423ebf48d18b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:42 +0000
Subject: [PATCH 18/32] fix: PointCurrentWholeSpace.location assigned through
 the nodes array

Writing into the array in place also wrote into any array it was taken from and
skipped the validation of the nodes.
---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 5c6058b..efbcf6f 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1122,7 +1122,7 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
             raise ValueError(
                 f"location must be array_like with shape (3,), got {len(vec)}"
             )
-        self.nodes[0] = vec
+        self.nodes = vec
 
     def potential(self, xyz):
         """Electric potential for a point current in a wholespace.
-- 
2.43.0


From ccefec062ab49cfb7110e61d699bec90cabb86e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:07 +0000
Subject: [PATCH 19/32] fix: vector potential of the circular loop close to its
 axis

The third order term of the expansion is multiplied, not divided, by
(a^2 - 4 z^2): it blew up (nan on the axis) around z = a / 2.
---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index efbcf6f..33fcb23 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -606,7 +606,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
                 # A(rho=0) = 0
                 rho[small_rho] * a**2 / (4 * temp**3) +  # rho * A'(rho=0)
                 # A''(rho=0) = 0
-                rho[small_rho]**3 * 3 * a**2 / ( a ** 2 - 4 * z[small_rho]**2) / (
+                rho[small_rho]**3 * 3 * a**2 * (a**2 - 4 * z[small_rho]**2) / (
                     32 * np.sqrt(a**2 + z[small_rho]**2)**7
                 )
         )
-- 
2.43.0


From 356a17f58f3fcc81641885e681fac6b60667c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:07 +0000
Subject: [PATCH 20/32] fix: fdem MagneticDipoleHalfSpace with a single
 frequency

A scalar frequency is accepted, but magnetic_field raised IndexError for it.
---
 geoana/em/fdem/halfspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index dce8a39..ba7dcdb 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -3,6 +3,7 @@ from scipy.constants import mu_0
 from scipy.special import iv, kv
 from geoana.em.base import BaseMagneticDipole
 from geoana.em.fdem.base import BaseFDEM
+from geoana.utils import append_ndim
 
 __all__ = [
     "MagneticDipoleHalfSpace",
@@ -94,8 +95,7 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         x = dxy[..., 0]
         y = dxy[..., 1]
 
-        for dim in range(r.ndim):
-            k = k[:, None]
+        k = append_ndim(k, r.ndim)
 
         em_x = em_y = em_z = 0
         src_x, src_y, src_z = self.orientation
-- 
2.43.0


From 8e8a839d36c345cc062f2e2009d7ccdb4b25a607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:07 +0000
Subject: [PATCH 21/32] fix: fdem MagneticDipoleHalfSpace was nan for large
 induction numbers

iv overflows where kv vanishes; their product is perfectly fine.
---
 geoana/em/fdem/halfspace.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index ba7dcdb..8f87595 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -1,6 +1,6 @@
 import numpy as np
 from scipy.constants import mu_0
-from scipy.special import iv, kv
+from scipy.special import iv, ive, kv, kve
 from geoana.em.base import BaseMagneticDipole
 from geoana.em.fdem.base import BaseFDEM
 from geoana.utils import append_ndim
@@ -103,6 +103,12 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         alpha = 1j*k*r/2.  # (n_freq, ...) * (...)
         IK1 = iv(1, alpha)*kv(1, alpha)
         IK2 = iv(2, alpha)*kv(2, alpha)
+        # iv overflows for large alpha, but not its product with kv
+        large = np.abs(alpha.real) > 300
+        if np.any(large):
+            scale = np.exp(-1j*alpha.imag)
+            IK1 = np.where(large, ive(1, alpha)*kve(1, alpha)*scale, IK1)
+            IK2 = np.where(large, ive(2, alpha)*kve(2, alpha)*scale, IK2)
 
         if src_z != 0.0:
             # Z component of source
-- 
2.43.0


From c0811d45681068328862e339a88b1119eb5ec82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:56 +0000
Subject: [PATCH 22/32] fix: LineCurrentWholeSpace was nan for a wire with a
 repeated node

---
 geoana/em/static/wholespace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 33fcb23..25b134c 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -864,6 +864,9 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
         for p0, p1 in zip(self.nodes[:-1], self.nodes[1:]):
             l_vec = p1 - p0
             l = np.linalg.norm(l_vec)
+            if l == 0.0:
+                # a repeated node does not carry any current
+                continue
             l_hat = l_vec / l
 
             # find the rotation from the line segments orientation
@@ -997,6 +1000,9 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
         for p0, p1 in zip(self.nodes[:-1], self.nodes[1:]):
             l_vec = p1 - p0
             l = np.linalg.norm(l_vec)
+            if l == 0.0:
+                # a repeated node does not carry any current
+                continue
             l_hat = l_vec / l
 
             # find the rotation from the line segments orientation
-- 
2.43.0


From 47bbb509131edd86a087973726087e2339d19589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:56 +0000
Subject: [PATCH 23/32] fix: magnetic field of a line current in line with a
 segment

The field vanishes there, but it was nan, or round off divided by round off if
the segment is not along an axis.
---
 geoana/em/static/wholespace.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 25b134c..82cb222 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1021,7 +1021,18 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
 
             cyl_points = cartesian_to_cylindrical(r0_vec[..., 1:])
 
-            temp_storage[..., 1] = (r1_hat[..., 0] - r0_hat[..., 0])/cyl_points[..., 0]
+            # (cos_1 - cos_0) / rho, where both cosines have the same sign (points
+            # beyond the ends of the segment) in the form that does not cancel.
+            x0, x1, rho = r0_vec[..., 0], r1_vec[..., 0], cyl_points[..., 0]
+            beyond = x0 * x1 > 0
+            cos_0, cos_1 = r0_hat[..., 0], r1_hat[..., 0]
+            temp_storage[..., 1] = np.where(
+                beyond,
+                -l * rho * (x0 + x1) / (
+                    (r0 * r1)[..., 0]**2 * np.where(beyond, cos_0 + cos_1, 1.0)
+                ),
+                (cos_1 - cos_0) / np.where(beyond, 1.0, rho)
+            )
             temp_storage[..., 1:] = cylindrical_to_cartesian(cyl_points, temp_storage)
 
             # the undo the local rotation...
-- 
2.43.0


From c4994a9b2b8874c4f439860df4dce7118293a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:06 +0000
Subject: [PATCH 24/32] fix: prism_fzx and prism_fzy close to the extension of
 an edge

---
 geoana/kernels/_extensions/potential_field_prism.pyx | 12 ++++++++++--
 geoana/kernels/potential_field_prism.py              |  6 ++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/geoana/kernels/_extensions/potential_field_prism.pyx b/geoana/kernels/_extensions/potential_field_prism.pyx
index ff6a4dd..b29bf13 100644
--- a/geoana/kernels/_extensions/potential_field_prism.pyx
+++ b/geoana/kernels/_extensions/potential_field_prism.pyx
@@ -135,7 +135,11 @@ cdef api double prism_fzx(double x, double y, double z) nogil:
         double v = 0.0
         double r
     r = sqrt(x * x + y * y + z * z)
-    v = y + r
+    if y < 0:
+        # y + r, without the cancellation
+        v = (x * x + z * z) / (r - y)
+    else:
+        v = y + r
     if v == 0.0:
         if y < 0:
             v = log(-2 * y)
@@ -168,7 +172,11 @@ cdef api double prism_fzy(double x, double y, double z) nogil:
         double v = 0.0
         double r, temp
     r = sqrt(x * x + y * y + z * z)
-    v = x + r
+    if x < 0:
+        # x + r, without the cancellation
+        v = (y * y + z * z) / (r - x)
+    else:
+        v = x + r
     if v == 0.0:
         if x < 0:
             v = log(-2 * x)
diff --git a/geoana/kernels/potential_field_prism.py b/geoana/kernels/potential_field_prism.py
index 40d8ce6..5ad35cd 100644
--- a/geoana/kernels/potential_field_prism.py
+++ b/geoana/kernels/potential_field_prism.py
@@ -139,7 +139,8 @@ def _prism_fzx(x, y, z):
     r = np.sqrt(x * x + y * y + z * z)
 
     out = np.zeros_like(r)
-    v = y + r
+    # y + r, without the cancellation for negative y
+    v = np.where(y < 0, (x * x + z * z) / np.where(y < 0, r - y, 1.0), y + r)
 
     nz = (v == 0) & (y < 0)
     out[nz] = np.log(-2 * y[nz])
@@ -171,7 +172,8 @@ def _prism_fzy(x, y, z):
     r = np.sqrt(x * x + y * y + z * z)
 
     out = np.zeros_like(r)
-    v = x + r
+    # x + r, without the cancellation for negative x
+    v = np.where(x < 0, (y * y + z * z) / np.where(x < 0, r - x, 1.0), x + r)
 
     nz = (v == 0) & (x < 0)
     out[nz] = np.log(-2 * x[nz])
-- 
2.43.0


From 07a16b18bd0124e09cf148c1b347da3881cdcb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:40 +0000
Subject: [PATCH 25/32] fix: compiled rTE kernels used another value of mu_0
 than the rest of geoana

4e-7 pi is 1.3e-10 off the value in scipy.constants, which leaves a spurious
reflection from a non-conductive earth, and a difference to the NumPy version.
---
 geoana/kernels/_extensions/_rTE.cpp |  8 ++++----
 geoana/kernels/_extensions/_rTE.h   |  6 ++++--
 geoana/kernels/_extensions/rTE.pyx  | 14 ++++++++++----
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/geoana/kernels/_extensions/_rTE.cpp b/geoana/kernels/_extensions/_rTE.cpp
index e3d77f2..ed949fb 100644
--- a/geoana/kernels/_extensions/_rTE.cpp
+++ b/geoana/kernels/_extensions/_rTE.cpp
@@ -13,9 +13,9 @@ void funcs::rTE(
     double * h,
     size_t n_frequency,
     size_t n_filter,
-    size_t n_layers
+    size_t n_layers,
+    double mu_0
 ) noexcept(true){
-    double mu_0 = 4.0E-7*M_PI;
     complex_t j(0.0, 1.0);
 
     complex_t k2, u, Yh, Y, tanhuh, Y0;
@@ -60,9 +60,9 @@ void funcs::rTEgrad(
     double * h,
     size_t n_frequency,
     size_t n_filter,
-    size_t n_layers
+    size_t n_layers,
+    double mu_0
 ) noexcept(true){
-    double mu_0 = 4.0E-7*M_PI;
     complex_t j(0.0, 1.0);
 
     //complex_t k2, u, Yh, Y, tanhuh, Y0;
diff --git a/geoana/kernels/_extensions/_rTE.h b/geoana/kernels/_extensions/_rTE.h
index 3211f44..b9cda71 100644
--- a/geoana/kernels/_extensions/_rTE.h
+++ b/geoana/kernels/_extensions/_rTE.h
@@ -18,7 +18,8 @@ namespace funcs {
         double *depths,
         size_t n_frequency,
         size_t n_filter,
-        size_t n_layers
+        size_t n_layers,
+        double mu_0
     ) noexcept(true);
 
     void rTEgrad(
@@ -32,7 +33,8 @@ namespace funcs {
         double * h,
         size_t n_frequency,
         size_t n_filter,
-        size_t n_layers
+        size_t n_layers,
+        double mu_0
     ) noexcept(true);
 }
 
diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 5024aca..87c8555 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -7,6 +7,7 @@ cimport numpy as np
 cimport cython
 from libcpp.complex cimport complex, sqrt, exp
 from libcpp cimport bool
+from scipy.constants import mu_0
 
 ctypedef np.float64_t REAL_t
 ctypedef np.intp_t SIZE_t
@@ -23,7 +24,8 @@ cdef extern from "_rTE.h" namespace "funcs":
         double *thicks,
         SIZE_t n_frequency,
         SIZE_t n_filter,
-        SIZE_t n_layers
+        SIZE_t n_layers,
+        double vacuum_mu
         ) noexcept nogil
 
     void rTEgrad(
@@ -37,9 +39,13 @@ cdef extern from "_rTE.h" namespace "funcs":
         double * h,
         SIZE_t n_frequency,
         SIZE_t n_filter,
-        SIZE_t n_layers
+        SIZE_t n_layers,
+        double vacuum_mu
     ) noexcept nogil
 
+# the same value as everywhere else in geoana
+cdef double c_mu_0 = mu_0
+
 def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
     """Compute reflection coefficients for Transverse Electric (TE) mode.
 
@@ -116,7 +122,7 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
 
     with nogil:
         rTE(out_p, &f[0], &lam[0], sig_p, mu_p, h_p,
-            n_frequency, n_filter, n_layers)
+            n_frequency, n_filter, n_layers, c_mu_0)
 
     return np.array(out)
 
@@ -206,6 +212,6 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
 
     with nogil:
         rTEgrad(gsig_p, gmu_p, gh_p, &f[0], &lam[0], sig_p, mu_p, h_p,
-            n_frequency, n_filter, n_layers)
+            n_frequency, n_filter, n_layers, c_mu_0)
 
     return np.array(gsig), np.array(gh), np.array(gmu)
-- 
2.43.0


From 5f68a21c5c8706a7ab55ffc2eac62947204daba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:54 +0000
Subject: [PATCH 26/32] fix: compiled rTE kernels rejected read-only arrays

---
 geoana/kernels/_extensions/rTE.pyx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 87c8555..fa9d43c 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -72,13 +72,13 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
         Reflection coefficients, shape = (n_frequency, n_filter)
     """
     # Sigma and mu must be fortran contiguous
-    sigma = np.require(sigma, dtype=np.complex128, requirements="F")
-    mu = np.require(mu, dtype=np.complex128, requirements="F")
+    sigma = np.require(sigma, dtype=np.complex128, requirements="FW")
+    mu = np.require(mu, dtype=np.complex128, requirements="FW")
 
     # These just must be contiguous
-    lamb = np.require(lamb, dtype=np.float64, requirements="C")
-    frequencies = np.require(frequencies, dtype=np.float64, requirements="C")
-    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="C")
+    lamb = np.require(lamb, dtype=np.float64, requirements="CW")
+    frequencies = np.require(frequencies, dtype=np.float64, requirements="CW")
+    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="CW")
 
     # Dimension checking
     if frequencies.shape[0] != sigma.shape[1]:
@@ -159,11 +159,11 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
         shape = (n_layer, n_frequency, n_filter)
     """
     # Require that they are all the same ordering as sigma
-    sigma = np.require(sigma, dtype=np.complex128, requirements="F")
-    mu = np.require(mu, dtype=np.complex128, requirements="F")
-    lamb = np.require(lamb, dtype=np.float64, requirements="C")
-    frequencies = np.require(frequencies, dtype=np.float64, requirements="C")
-    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="C")
+    sigma = np.require(sigma, dtype=np.complex128, requirements="FW")
+    mu = np.require(mu, dtype=np.complex128, requirements="FW")
+    lamb = np.require(lamb, dtype=np.float64, requirements="CW")
+    frequencies = np.require(frequencies, dtype=np.float64, requirements="CW")
+    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="CW")
 
     # Dimension checking
     if frequencies.shape[0] != sigma.shape[1]:
-- 
2.43.0


From 160c6cad8e50c8ee2c3f74fe95f7ca42fe2dcef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:32 +0000
Subject: [PATCH 27/32] fix: compiled rTE kernels read misaligned arrays in
 place (undefined behaviour)

---
 geoana/kernels/_extensions/rTE.pyx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index fa9d43c..7ff69da 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -72,13 +72,13 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
         Reflection coefficients, shape = (n_frequency, n_filter)
     """
     # Sigma and mu must be fortran contiguous
-    sigma = np.require(sigma, dtype=np.complex128, requirements="FW")
-    mu = np.require(mu, dtype=np.complex128, requirements="FW")
+    sigma = np.require(sigma, dtype=np.complex128, requirements="FAW")
+    mu = np.require(mu, dtype=np.complex128, requirements="FAW")
 
     # These just must be contiguous
-    lamb = np.require(lamb, dtype=np.float64, requirements="CW")
-    frequencies = np.require(frequencies, dtype=np.float64, requirements="CW")
-    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="CW")
+    lamb = np.require(lamb, dtype=np.float64, requirements="CAW")
+    frequencies = np.require(frequencies, dtype=np.float64, requirements="CAW")
+    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="CAW")
 
     # Dimension checking
     if frequencies.shape[0] != sigma.shape[1]:
@@ -159,11 +159,11 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
         shape = (n_layer, n_frequency, n_filter)
     """
     # Require that they are all the same ordering as sigma
-    sigma = np.require(sigma, dtype=np.complex128, requirements="FW")
-    mu = np.require(mu, dtype=np.complex128, requirements="FW")
-    lamb = np.require(lamb, dtype=np.float64, requirements="CW")
-    frequencies = np.require(frequencies, dtype=np.float64, requirements="CW")
-    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="CW")
+    sigma = np.require(sigma, dtype=np.complex128, requirements="FAW")
+    mu = np.require(mu, dtype=np.complex128, requirements="FAW")
+    lamb = np.require(lamb, dtype=np.float64, requirements="CAW")
+    frequencies = np.require(frequencies, dtype=np.float64, requirements="CAW")
+    thicknesses = np.require(thicknesses, dtype=np.float64, requirements="CAW")
 
     # Dimension checking
     if frequencies.shape[0] != sigma.shape[1]:
-- 
2.43.0


From 9094ad94c930462b5211f137b62dadd3bf377c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 28/32] fix: BaseEM.rho = 0 raised ZeroDivisionError instead of
 ValueError

---
 geoana/em/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 0dbb34a..cb62d09 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -82,6 +82,9 @@ class BaseEM:
         except:
             raise TypeError(f"resistivity must be a number, got {type(value)}")
 
+        if value <= 0.0:
+            raise ValueError("resistivity must be greater than 0")
+
         self.sigma = 1/value
 
     @property
-- 
2.43.0


From c10e832aaf976781ce8e56aa3d3785d45f0e312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 29/32] fix: PointCurrentWholeSpace did not validate rho on
 construction

---
 geoana/em/static/wholespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 82cb222..8995e32 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1114,7 +1114,8 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def __init__(self, rho, current=1.0, location=None):
         if location is None:
             location = np.r_[0, 0, 0]
-        super().__init__(sigma=1/rho, nodes=location, current=current)
+        super().__init__(nodes=location, current=current)
+        self.rho = rho
 
     @property
     def location(self):
-- 
2.43.0


From a5f41763afefab8d253cd6d0a3be07847ae6d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:33 +0000
Subject: [PATCH 30/32] fix: Oksar.displacement_vector raised ValueError for
 most grids, and for no slip

---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index c031b3b..aa28321 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1359,8 +1359,8 @@ class Oksar:
         PI2 = 6.283185307179586
         EPS = 1.0E-6
 
-        u = np.array([F0, F0, F0])
-        dub = np.array([F0, F0, F0])
+        u = np.zeros((3, *X.shape))
+        dub = np.zeros_like(u)
 
         #  %%dccon0 subroutine
         #  Calculates medium and fault dip constants
@@ -1509,7 +1509,7 @@ class Oksar:
                     du2 = np.array([du2x, du2y, du2z])
                     dub = du2 * (disl1 / PI2)
                 else:
-                    dub = np.zeros(3)
+                    dub = np.zeros_like(u)
 
                 # dip-slip contribution
                 if(disl2 != F0):
-- 
2.43.0


From 818c95a295d92abe00781f76802277523f2c536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:48 +0000
Subject: [PATCH 31/32] fix: Oksar treated small coordinates differently from
 corner to corner

---
 geoana/earthquake/oksar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index aa28321..4764953 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1389,6 +1389,10 @@ class Oksar:
         jxi = ((X - al1) * (X - al2)) <= F0  # BOOLEAN
         jet = ((p - aw1) * (p - aw2)) <= F0  # BOOLEAN
 
+        # one scale for all corners: a coordinate that is negligible at one
+        # corner and not at another would spoil the sum over the corners
+        dc_max = np.max(np.abs(np.c_[X-al1, X-al2, p-aw1, p-aw2, q]), axis=-1)
+
         for k in [1., 2.]:
             et = 0.0
             if(k == 1):
@@ -1407,10 +1411,6 @@ class Oksar:
                 # %%dccon2 subroutine
                 # % calculates station geometry constants for finite source
 
-                dc_max = np.max(np.abs(np.c_[xi, et, q]), axis=-1)
-
-                # dc_max = max(np.abs(xi),max(np.abs(et),np.abs(q)))
-
                 xi[(np.abs(xi/dc_max) < EPS) | (np.abs(xi) < EPS)] = F0
 
                 et[(np.abs(et/dc_max) < EPS) | (np.abs(et) < EPS)] = F0
-- 
2.43.0


From 272d210ac6addc80d2e49438c91e0ab3073bd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:02 +0000
Subject: [PATCH 32/32] fix: plot2Ddata with figname hid the axes of another
 plot than its own

---
 geoana/plotting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index f2363b7..67de855 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -272,7 +272,7 @@ def plot2Ddata(
         ax.plot(xyz[:, 0], xyz[:, 1], "k.", ms=2)
     ax.set_aspect("equal", adjustable="box")
     if figname:
-        plt.axis("off")
+        ax.axis("off")
         ax.figure.savefig(figname, dpi=200)
     if level:
         return cont, ax, CS
-- 
2.43.0

