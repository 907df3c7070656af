From 231304a498354ec254396041b3eff324193e34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 01/61] fix: MirroredCoil puts the lower coil at -Z and keeps
 current and control

Both coils were placed at +Z, and the Circuit was created without the
current and control arguments, so both were silently reset to defaults.
---
 freegs/machine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 807ab4f..1290377 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -307,10 +307,12 @@ def MirroredCoil(
             ),
             (
                 "L",
-                Coil(R, Z, current=current, turns=turns, control=control, area=area),
+                Coil(R, -Z, current=current, turns=turns, control=control, area=area),
                 1.0 if symmetric else -1.0,
             ),
-        ]
+        ],
+        current=current,
+        control=control,
     )
 
 
-- 
2.43.0


From bf5887060213975565777006ff9b11054e578969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 02/61] fix: MultiCoil field of a point coil includes its turns

The documented total current is current * turns, but turns was ignored
by controlPsi, controlBr and controlBz.
---
 freegs/multi_coil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 6614ac6..92c2ffb 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -157,7 +157,7 @@ class MultiCoil(Coil):
         if self.mirror:
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += Greens(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def controlBr(self, R, Z):
         """
@@ -170,7 +170,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBr(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def controlBz(self, R, Z):
         """
@@ -183,7 +183,7 @@ class MultiCoil(Coil):
         if self.mirror:  # Mirror coil(s) in Z, creating circuit
             for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
-        return result
+        return result * self.turns / len(self.Rfil)
 
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
-- 
2.43.0


From d694a1d06e088e0c0a27648969741ab82339a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 03/61] fix: MultiCoil does not modify the caller's filament
 lists when moved

Two coils made from the same lists moved each other; tuples failed.
---
 freegs/multi_coil.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 92c2ffb..180694f 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -126,8 +126,9 @@ class MultiCoil(Coil):
         # Store locations as an internal list
         if hasattr(R, "__len__"):
             assert len(R) == len(Z)
-            self.Rfil = R
-            self.Zfil = Z
+            # Copy, since moving the coil modifies the filament locations
+            self.Rfil = list(R)
+            self.Zfil = list(Z)
             self.turns = len(R)
         else:
             # Assume a single R, Z. Turn into a list
-- 
2.43.0


From 26097ad621cbb90643589cdf256ab3ada02ed799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 04/61] fix: MultiCoil.from_numpy_array reads the mirror field

The dtype has no npoints field, so reading a MultiCoil always failed.
---
 freegs/multi_coil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 180694f..2053e18 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -249,7 +249,7 @@ class MultiCoil(Coil):
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-        mirror = value["npoints"]
+        mirror = value["mirror"]
         polarity = value["polarity"]
 
         return MultiCoil(
-- 
2.43.0


From 4987312bfb221da443cbd9e6261956e2b2284342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 05/61] fix: PreCalcCoil response includes its turns

The maps are per Ampere-turn and the documented total current is
current * turns, but turns was ignored.
---
 freegs/pre_calc_coil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/pre_calc_coil.py b/freegs/pre_calc_coil.py
index 7b6952b..86b207e 100644
--- a/freegs/pre_calc_coil.py
+++ b/freegs/pre_calc_coil.py
@@ -128,7 +128,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cPsi(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def controlBr(self, R, Z):
         """
@@ -140,7 +140,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBr(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def controlBz(self, R, Z):
         """
@@ -152,7 +152,7 @@ class PreCalcCoil(Coil):
         else:
             result = self.cBz(R, Z, grid=False)
 
-        return result
+        return result * self.turns
 
     def __repr__(self):
         return "PreCalcCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From 0426707d169415e6fd15c74f0fd8501e699e01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 06/61] fix: moving a ShapedCoil moves its outline

The outline is used by inShape, plotting and the HDF5 output, which all
kept the original position after R or Z was set.
---
 freegs/shaped_coil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index ba876b8..f5a56a3 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -145,6 +145,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self._points = [(r + Rshift, z, w) for r, z, w in self._points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -159,6 +160,7 @@ class ShapedCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self._points = [(r, z + Zshift, w) for r, z, w in self._points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From 34bfa84def82b1ab3584d45ab471b8ca466a2ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:55 +0000
Subject: [PATCH 07/61] fix: moving a FilamentCoil moves its outline

---
 freegs/filament_coil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 2df7d1e..1453185 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -326,6 +326,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Rshift = Rnew - self._R_centre
         self.points = [(r + Rshift, z) for r, z in self.points]
+        self.shape = [(r + Rshift, z) for r, z in self.shape]
         self._R_centre = Rnew
 
     @property
@@ -340,6 +341,7 @@ class FilamentCoil(Coil):
         # Need to shift all points
         Zshift = Znew - self._Z_centre
         self.points = [(r, z + Zshift) for r, z in self.points]
+        self.shape = [(r, z + Zshift) for r, z in self.shape]
         self._Z_centre = Znew
 
     @property
-- 
2.43.0


From 20b1f4e36a25486ab51acdec1e11d4efc3bf5ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:22 +0000
Subject: [PATCH 08/61] fix: Picard iteration does not converge on a stale
 boundary change

When an iteration has no plasma boundary, bndry_change kept the value of an
earlier iteration, so the loop could stop although the intended dummy
condition says that there is no boundary convergence without a boundary.
---
 freegs/picard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freegs/picard.py b/freegs/picard.py
index 8b40609..c44e6ff 100644
--- a/freegs/picard.py
+++ b/freegs/picard.py
@@ -181,6 +181,7 @@ def solve(
             # convergence when there is no boundary
             # ie set the change to > rtol
             bndry_relchange = 2.0 * rtol
+            bndry_change = np.inf
 
         # Get the new psi, including coils
         psi = eq.psi()
-- 
2.43.0


From 775b7b7f41af1b50cbdf8d26699ec4c2a07ad58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:15 +0000
Subject: [PATCH 09/61] fix: flux at the limiter points is not evaluated with R
 and Z exchanged

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6a534b4..1155fe7 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -558,8 +558,7 @@ class Equilibrium:
                 R = np.asarray(self.R[:, 0])
                 Z = np.asarray(self.Z[0, :])
 
-                # psi is transposed due to how FreeGS meshgrids R,Z
-                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi.T)
+                psi_2d = interpolate.RectBivariateSpline(x=R, y=Z, z=psi)
 
                 # Get psi at the limit points
                 psi_limit_points = np.zeros(len(Rlimit))
-- 
2.43.0


From 6b53b284eaa541d8d46b919f525bfea51c7dfdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:41 +0000
Subject: [PATCH 10/61] fix: limiter contact is found for either sign of the
 plasma current

---
 freegs/equilibrium.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 1155fe7..eb5728d 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -565,14 +565,15 @@ class Equilibrium:
                 for i in range(len(Rlimit)):
                     psi_limit_points[i] = psi_2d(Rlimit[i], Zlimit[i])[0]
 
-                # Get index of maximum psi value
-                indMax = np.argmax(psi_limit_points)
+                # Get index of the psi value closest to the magnetic axis
+                # (the maximum, or the minimum if psi is smallest on the axis)
+                indMax = np.argmin(abs(psi_limit_points - self.psi_axis))
 
                 # Extract R,Z of the contact point
                 self.Rlim = Rlimit[indMax]
                 self.Zlim = Zlimit[indMax]
 
-                # Obtain maximum psi
+                # Obtain psi at the contact point
                 self.psi_limit = psi_limit_points[indMax]
 
                 # Check if any xpoints are present
@@ -581,7 +582,11 @@ class Equilibrium:
                     self.psi_xpt = xpt[0][2]
 
                     # Choose between diverted or limited flux
-                    self.psi_bndry = max(self.psi_xpt, self.psi_limit)
+                    self.psi_bndry = min(
+                        self.psi_limit,
+                        self.psi_xpt,
+                        key=lambda psival: abs(psival - self.psi_axis),
+                    )
 
                     if self.psi_bndry == self.psi_limit:
                         self.is_limited = True
-- 
2.43.0


From 01e29a7b73846ed057e2faf317a5b95dd2d81e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:49 +0000
Subject: [PATCH 11/61] fix: limit points cover the closing segment of the wall

---
 freegs/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1290377..0339959 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -689,6 +689,9 @@ class Machine:
         # Make an interpolator for point location as function of normalised distance
         # along the wall
         points = np.array([self.wall.R, self.wall.Z]).T
+        if not np.array_equal(points[0], points[-1]):
+            # Close the wall
+            points = np.concatenate([points, points[:1]])
         distance = np.cumsum(np.sqrt(np.sum(np.diff(points, axis=0) ** 2, axis=1)))
         distance = np.insert(distance, 0, 0) / distance[-1]
 
-- 
2.43.0


From dc65cead4a15737b84925164e3a990c303f887e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:04 +0000
Subject: [PATCH 12/61] fix: Profile.pressure accepts lists, as fpol does

---
 freegs/jtor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 2e35bb8..08c2063 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -45,13 +45,14 @@ class Profile(abc.ABC):
         integrating pprime
         """
 
-        if not hasattr(psinorm, "shape"):
+        if not hasattr(psinorm, "__len__"):
             # Assume  a single value
             val, _ = quad(self.pprime, psinorm, 1.0)
             # Convert from integral in normalised psi to integral in psi
             return val * (self.psi_axis - self.psi_bndry)
 
-        # Assume a NumPy array
+        # Assume it's a NumPy array, or can be converted to one
+        psinorm = np.array(psinorm)
 
         if out is None:
             out = zeros(psinorm.shape)
-- 
2.43.0


From 92e441b77ae291089d096fa98b732d6df2e532d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:04 +0000
Subject: [PATCH 13/61] fix: f = R*Bt keeps the sign of the vacuum field

---
 freegs/jtor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/jtor.py b/freegs/jtor.py
index 08c2063..5866c0d 100644
--- a/freegs/jtor.py
+++ b/freegs/jtor.py
@@ -86,7 +86,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            return sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the sign of fvac
+            return np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         # Assume it's a NumPy array, or can be converted to one
         psinorm = np.array(psinorm)
@@ -106,7 +107,8 @@ class Profile(abc.ABC):
 
             # ffprime = 0.5*d/dpsi(f^2)
             # Apply boundary condition at psinorm=1 val = fvac**2
-            ovals[i] = sqrt(2.0 * val + self.fvac() ** 2)
+            # f has the sign of fvac
+            ovals[i] = np.copysign(sqrt(2.0 * val + self.fvac() ** 2), self.fvac())
 
         return reshape(ovals, psinorm.shape)
 
-- 
2.43.0


From 4a898bcae7b3264bb79ee996a28a9b1430c58aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:10 +0000
Subject: [PATCH 14/61] fix: ConstrainPsi2D accepts a single weight, as
 documented

---
 freegs/control.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index e3e5dcd..ee391bc 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -226,7 +226,9 @@ class ConstrainPsi2D(object):
 
         """
         if weights is None:
-            weights = np.full(target_psi.shape, 1.0)
+            weights = 1.0
+        # A single value applies to every point
+        weights = np.broadcast_to(weights, target_psi.shape)
 
         # Remove the average so constant offsets are ignored
         self.target_psi = target_psi - np.average(target_psi, weights=weights)
-- 
2.43.0


From c557c9a31777e1fbfdd203ba7f5d16d0bb304a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:10 +0000
Subject: [PATCH 15/61] fix: Psi2D and PsiNorm2D fits with current limits work
 without limits

---
 freegs/control.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/control.py b/freegs/control.py
index ee391bc..8dbcf2c 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -368,6 +368,8 @@ class ConstrainPsi2DAdvanced(object):
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
         for i in range(ncontrols):
+            if self.current_lims is None:
+                break
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
@@ -463,6 +465,8 @@ class ConstrainPsiNorm2DAdvanced(object):
         # In order for the optimisation to work, the initial guess must be within the
         # bounds supplied. Hence, check start_currents and adjust accordingly to be within bounds
         for i in range(ncontrols):
+            if self.current_lims is None:
+                break
             bnd_upper = max(self.current_lims[i])
             bnd_lower = min(self.current_lims[i])
             sc = start_currents[i]
-- 
2.43.0


From 1a1018936fd4e0e8e2a62c3e0aa36be67b9d11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:10 +0000
Subject: [PATCH 16/61] fix: ConstrainPsi2DAdvanced works with its default
 weights

---
 freegs/control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/control.py b/freegs/control.py
index 8dbcf2c..082937a 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -354,7 +354,8 @@ class ConstrainPsi2DAdvanced(object):
 
         self.current_lims = current_lims
         self.target_psi = target_psi
-        self.weights = weights
+        # A single value applies to every point
+        self.weights = np.broadcast_to(weights, np.shape(target_psi))
 
     def __call__(self, eq):
         """
-- 
2.43.0


From 543d619759c5647ca13e57b80d5b1e90a21d4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:52 +0000
Subject: [PATCH 17/61] fix: current limits do not stop the control system from
 improving the fit

---
 freegs/control.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index 082937a..c4de0e7 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -180,11 +180,22 @@ class constrain(object):
         # Use the analytical current change as the initial guess
         if self.current_change.shape[0] > 0:
             x0 = self.current_change
+            # The optimiser's tolerances are absolute, so solve in units
+            # in which the currents and the objective are of order one
+            xscale = max(np.amax(abs(x0)), 1.0)
+            fscale = norm(b2) ** 2 or 1.0
+            for con in cons:
+                con["fun"] = lambda y, fun=con["fun"]: fun(xscale * y) / xscale
             sol = optimize.minimize(
-                objective, x0, method="SLSQP", bounds=current_change_bnds, constraints=cons
+                lambda y: objective(xscale * y) / fscale,
+                x0 / xscale,
+                method="SLSQP",
+                bounds=current_change_bnds / xscale,
+                constraints=cons,
+                options={"ftol": 1e-10, "maxiter": 500},
             )
 
-            self.current_change = sol.x
+            self.current_change = xscale * sol.x
             tokamak.controlAdjust(self.current_change)
 
         # Store info for user
-- 
2.43.0


From 1136430698ddb7414d9a3a3effabe7e5b4cd46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:30 +0000
Subject: [PATCH 18/61] fix: Rogowski sensors count the turns of the coils they
 enclose

---
 freegs/coil.py          | 5 ++++-
 freegs/filament_coil.py | 5 ++++-
 freegs/shaped_coil.py   | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/freegs/coil.py b/freegs/coil.py
index 963dcb1..10cf4f3 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -208,8 +208,11 @@ class Coil:
         )  # Jphi x Br = - Fz
 
     def inShape(self, polygon):
+        """
+        Total current (Amp-turns) inside the polygon, per Amp of coil current
+        """
         if polygon.contains(Point(self.R, self.Z)):
-            return 1
+            return self.turns
         else:
             return 0
 
diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 1453185..dbc9d4d 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -303,11 +303,14 @@ class FilamentCoil(Coil):
         return result
 
     def inShape(self,polygon):
+        """
+        Total current (Amp-turns) inside the polygon, per Amp of coil current
+        """
         counter = 0
         for r, z in self.points:
             if polygon.contains(geometry.Point(r, z)):
                 counter += 1 / self.npoints
-        return counter
+        return counter * self.turns
 
     def __repr__(self):
         return "FilamentCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
diff --git a/freegs/shaped_coil.py b/freegs/shaped_coil.py
index f5a56a3..8e1810e 100644
--- a/freegs/shaped_coil.py
+++ b/freegs/shaped_coil.py
@@ -125,8 +125,11 @@ class ShapedCoil(Coil):
         return result * self.turns
 
     def inShape(self,polygon):
+        """
+        Total current (Amp-turns) inside the polygon, per Amp of coil current
+        """
         Shaped_Coil = Polygon([shape for shape in self.shape])
-        return (polygon.intersection(Shaped_Coil).area) / (self._area)
+        return (polygon.intersection(Shaped_Coil).area) / (self._area) * self.turns
 
     def __repr__(self):
         return "ShapedCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
-- 
2.43.0


From c6a16ddc9a25657babaa546330637e855a831748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:46 +0000
Subject: [PATCH 19/61] fix: Rogowski sensors work with solenoids and
 multi-filament coils

---
 freegs/machine.py    |  9 +++++++++
 freegs/multi_coil.py | 14 ++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/freegs/machine.py b/freegs/machine.py
index 0339959..1cbfab7 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -417,6 +417,15 @@ class Solenoid:
             result += GreensBz(self.Rs, Zs, R, Z)
         return result
 
+    def inShape(self, polygon):
+        """
+        Total current (Amp-turns) inside the polygon, per Amp of coil current
+        """
+        return sum(
+            polygon.contains(Point(self.Rs, Zs))
+            for Zs in np.linspace(self.Zsmin, self.Zsmax, self.Ns)
+        )
+
     def getForces(self, equilibrium):
         """
         Calculate forces on the solenoid.
diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index 2053e18..d928fd1 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -23,6 +23,7 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 """
 
 import numpy as np
+from shapely.geometry import Point
 from .coil import Coil, AreaCurrentLimit
 from .gradshafranov import Greens, GreensBr, GreensBz
 
@@ -186,6 +187,19 @@ class MultiCoil(Coil):
                 result += GreensBz(R_fil, -Z_fil, R, Z) * self.polarity[1]
         return result * self.turns / len(self.Rfil)
 
+    def inShape(self, polygon):
+        """
+        Total current (Amp-turns) inside the polygon, per Amp of coil current
+        """
+        result = 0.0
+        for R_fil, Z_fil in zip(self.Rfil, self.Zfil):
+            if polygon.contains(Point(R_fil, Z_fil)):
+                result += self.polarity[0]
+
+            if self.mirror and polygon.contains(Point(R_fil, -Z_fil)):
+                result += self.polarity[1]
+        return result * self.turns / len(self.Rfil)
+
     def __repr__(self):
         return "MultiCoil(R={0}, Z={1}, current={2:.1f}, turns={3}, control={4}, mirror={5}, polarity={6})".format(
             self.Rfil,
-- 
2.43.0


From 0b93db69cc694a8b71a157072bf1bcf2dd846dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:53 +0000
Subject: [PATCH 20/61] fix: sensors created switched off have a measurement
 attribute

---
 freegs/machine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 1cbfab7..b41397c 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -508,9 +508,7 @@ class Sensor:
         self.name = name
         self.weight = weight
 
-        if self.status:
-            self.measurement = measurement
-
+        self.measurement = measurement
 
     def __repr__(self):
         return "R={R}, Z={Z}".format(R=self.R, Z=self.Z)
-- 
2.43.0


From 496a0813d9f78c434df33d3837c84c3040735d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:27 +0000
Subject: [PATCH 21/61] fix: FilamentCoil can be written to and read from file

---
 freegs/filament_coil.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index dbc9d4d..349e4bf 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -312,6 +312,40 @@ class FilamentCoil(Coil):
                 counter += 1 / self.npoints
         return counter * self.turns
 
+    def to_numpy_array(self):
+        """
+        Helper method for writing output
+        """
+        RZlen = self.npoints
+        assert RZlen <= 500
+        R = np.zeros(500)
+        Z = np.zeros(500)
+        R[:RZlen] = [r for r, z in self.points]
+        Z[:RZlen] = [z for r, z in self.points]
+
+        return np.array(
+            (RZlen, R, Z, self.current, self.turns, self.control, self.npoints),
+            dtype=self.dtype,
+        )
+
+    @classmethod
+    def from_numpy_array(cls, value):
+        if value.dtype != cls.dtype:
+            raise ValueError(
+                "Can't create {this} from dtype: {got} (expected: {dtype})".format(
+                    this=type(cls), got=value.dtype, dtype=cls.dtype
+                )
+            )
+        RZlen = value["RZlen"]
+
+        return FilamentCoil(
+            value["R"][:RZlen],
+            value["Z"][:RZlen],
+            current=value["current"],
+            turns=value["turns"],
+            control=value["control"],
+        )
+
     def __repr__(self):
         return "FilamentCoil({0}, current={1:.1f}, turns={2}, control={3})".format(
             self.points, self.current, self.turns, self.control
-- 
2.43.0


From e81273d22a2947c2747f6aa5f4539a6e66f5f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:37 +0000
Subject: [PATCH 22/61] fix: MultiCoil.from_numpy_array keeps the turns of a
 point coil

---
 freegs/multi_coil.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/freegs/multi_coil.py b/freegs/multi_coil.py
index d928fd1..c412f17 100644
--- a/freegs/multi_coil.py
+++ b/freegs/multi_coil.py
@@ -258,8 +258,13 @@ class MultiCoil(Coil):
                 )
             )
         RZlen = value["RZlen"]
-        R = value["R"][:RZlen]
-        Z = value["Z"][:RZlen]
+        if RZlen == 1:
+            # A single point, which may have several turns
+            R = value["R"][0]
+            Z = value["Z"][0]
+        else:
+            R = value["R"][:RZlen]
+            Z = value["Z"][:RZlen]
         current = value["current"]
         turns = value["turns"]
         control = value["control"]
-- 
2.43.0


From 15bca1a6af22ebb8b6d436d2b9253d7f74c7a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:47 +0000
Subject: [PATCH 23/61] fix: machines with MultiCoils can be written to file

---
 freegs/dump.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/dump.py b/freegs/dump.py
index 3822962..22294e5 100644
--- a/freegs/dump.py
+++ b/freegs/dump.py
@@ -40,6 +40,7 @@ from .equilibrium import Equilibrium
 from .machine import Coil, Circuit, Solenoid, Wall, Machine
 from .shaped_coil import ShapedCoil
 from .filament_coil import FilamentCoil
+from .multi_coil import MultiCoil
 from . import boundary
 from . import machine
 
@@ -116,6 +117,7 @@ class OutputFile(object):
         self.handle["coil_dtype"] = Coil.dtype
         self.handle["shapedcoil_dtype"] = ShapedCoil.dtype
         self.handle["filamentcoil_dtype"] = FilamentCoil.dtype
+        self.handle["multicoil_dtype"] = MultiCoil.dtype
         self.handle["circuit_dtype"] = Circuit.dtype
         self.handle["solenoid_dtype"] = Solenoid.dtype
 
@@ -123,6 +125,7 @@ class OutputFile(object):
             Coil.dtype: self.handle["coil_dtype"],
             ShapedCoil.dtype: self.handle["shapedcoil_dtype"],
             FilamentCoil.dtype: self.handle["filamentcoil_dtype"],
+            MultiCoil.dtype: self.handle["multicoil_dtype"],
             Circuit.dtype: self.handle["circuit_dtype"],
             Solenoid.dtype: self.handle["solenoid_dtype"],
         }
-- 
2.43.0


From 05e3a7bf4ba42462e5270ad3e9527d018204d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:55 +0000
Subject: [PATCH 24/61] fix: a circuit whose first multiplier is zero keeps its
 current in files

---
 freegs/machine.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index b41397c..97ee958 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -266,13 +266,19 @@ class Circuit:
                 return s  # Probably already a string
 
         # Use the current/control values from the first coil in the circuit
-        # Should be consistent!
+        # Should be consistent! A coil with zero multiplier does not know the current
+        current = 0.0
+        for _, coil, multiplier in value:
+            if multiplier != 0.0:
+                current = coil["current"] / multiplier
+                break
+
         return Circuit(
             [
                 (toString(label), Coil(*coil), multiplier)
                 for label, coil, multiplier in value
             ],
-            current=value[0][1]["current"] / value[0]["multiplier"],
+            current=current,
             control=value[0][1]["control"],
         )
 
-- 
2.43.0


From 2306b138631546cb34d35c7e7fd999f1bcd74ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:24 +0000
Subject: [PATCH 25/61] fix: a limited plasma without X-point has a core mask

---
 freegs/equilibrium.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index eb5728d..2a0be1d 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -608,7 +608,14 @@ class Equilibrium:
                     # No xpoints, therefore psi_bndry = psi_limit
                     self.psi_bndry = self.psi_limit
                     self.is_limited = True
-                    self.mask = None
+                    self.mask = critical.core_mask(
+                        self.R, self.Z, psi, opt, xpt, self.psi_bndry
+                    )
+
+                    # Use interpolation to find if a point is in the core.
+                    self.mask_func = interpolate.RectBivariateSpline(
+                        self.R[:, 0], self.Z[0, :], self.mask
+                    )
 
             else:
                 # Either a wall was not provided or the user did not wish to
-- 
2.43.0


From 8535e9b5cae16fdb78a4759e2887ffc7440af276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 26/61] fix: find_separatrix works for limited plasmas without
 X-point

---
 freegs/critical.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index 556093e..a977b5a 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -386,8 +386,8 @@ def find_separatrix(
 ):
     """Find the R, Z coordinates of the separatrix for equilbrium
     eq. Returns a tuple of (R, Z, R_X, Z_X), where R_X, Z_X are the
-    coordinates of the X-point on the separatrix. Points are equally
-    spaced in geometric poloidal angle.
+    coordinates of the X-point on the separatrix (NaN if there is no
+    X-point). Points are equally spaced in geometric poloidal angle.
 
     If opoint, xpoint or psi are not given, they are calculated from eq
 
@@ -413,8 +413,11 @@ def find_separatrix(
     theta_grid = linspace(0, 2 * pi, ntheta, endpoint=False)
     dtheta = theta_grid[1] - theta_grid[0]
 
+    # A plasma touching a limiter might not have an X-point
+    r_x, z_x = xpoint[0][0:2] if xpoint else (np.nan, np.nan)
+
     # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+    xpoint_theta = arctan2(r_x - r0, z_x - z0)
     xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
         xpoint_theta < 0
     )  # let's make it between 0 and 2*pi
@@ -437,7 +440,7 @@ def find_separatrix(
             axis=axis,
             n=1000,
         )
-        isoflux.append((r, z, xpoint[0][0], xpoint[0][1]))
+        isoflux.append((r, z, r_x, z_x))
 
     return isoflux
 
-- 
2.43.0


From 49972a98e89ab86ea04109051074d4087bdf5258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:42 +0000
Subject: [PATCH 27/61] fix: safety factor of limited plasmas is normalised to
 the plasma boundary

---
 freegs/critical.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index a977b5a..adabf3a 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -469,11 +469,11 @@ def find_safety(
     if (opoint is None) or (xpoint is None):
         opoint, xpoint = find_critical(eq.R, eq.Z, psi)
 
-    if (xpoint is None) or (len(xpoint) == 0):
-        # No X-point
+    if eq.psi_bndry is None:
+        # No X-point or limiter
         raise ValueError("No X-point so no separatrix")
     else:
-        psinormal = (psi - opoint[0][2]) / (xpoint[0][2] - opoint[0][2])
+        psinormal = (psi - opoint[0][2]) / (eq.psi_bndry - opoint[0][2])
 
     psifunc = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psinormal)
 
@@ -482,8 +482,11 @@ def find_safety(
     theta_grid = linspace(0, 2 * pi, ntheta, endpoint=False)
     dtheta = theta_grid[1] - theta_grid[0]
 
+    # A plasma touching a limiter might not have an X-point
+    r_x, z_x = xpoint[0][0:2] if xpoint else (np.nan, np.nan)
+
     # Avoid putting theta grid points exactly on the X-points
-    xpoint_theta = arctan2(xpoint[0][0] - r0, xpoint[0][1] - z0)
+    xpoint_theta = arctan2(r_x - r0, z_x - z0)
     xpoint_theta = xpoint_theta * (xpoint_theta >= 0) + (xpoint_theta + 2 * pi) * (
         xpoint_theta < 0
     )  # let's make it between 0 and 2*pi
-- 
2.43.0


From 4cf93aaa0ce56b3da1ffbf0f747f9e4ec74a51c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 28/61] fix: Equilibrium.q accepts lists, as documented

---
 freegs/equilibrium.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 2a0be1d..e0a8a5b 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -359,7 +359,9 @@ class Equilibrium:
             psinorm = linspace(1.0 / (npsi + 1), 1.0, npsi, endpoint=False)
             return psinorm, critical.find_safety(self, psinorm=psinorm)
 
-        elif np.any((psinorm < 0.01) | (psinorm > 0.99)):
+        psinorm = np.asarray(psinorm)
+
+        if np.any((psinorm < 0.01) | (psinorm > 0.99)):
             psinorm_inner = np.linspace(0.01, 0.99, num=npsi)
             q_inner = critical.find_safety(self, psinorm=psinorm_inner)
 
@@ -368,7 +370,7 @@ class Equilibrium:
             )
             result = interp(psinorm)
         else:
-            result = critical.find_safety(self, psinorm=psinorm)
+            result = critical.find_safety(self, psinorm=np.atleast_1d(psinorm))
 
         # Convert to a scalar if only one result
         if np.size(result) == 1:
-- 
2.43.0


From dad5c9af7299aca5e993ae42a0ba9dffe4bba0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 29/61] fix: toroidal flux is counted from the axis, for either
 sign of the poloidal flux

---
 freegs/equilibrium.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index e0a8a5b..b886aea 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -382,12 +382,20 @@ class Equilibrium:
         Calculates toroidal flux at specified values of poloidal flux.
         >>> q = drho/dpsi
         """
-        psiN = (psi - self.psi_axis) / (self.psi_bndry - self.psi_axis)
-        # Get safety factor of these flux surfaces
+        # Get safety factor of flux surfaces between the axis and the boundary
+        psiN = np.linspace(0.0, 1.0, 101)
         qvals = self.q(psiN)
 
         # Integrate q wrt psi to get rho. rho = 0 @ psiN = 0
-        result = cumulative_trapezoid(qvals, psi, initial=0.0) * (-1.0 / (2.0 * np.pi))
+        # Note that psi is the poloidal flux per radian, and that it can
+        # either increase or decrease from the axis to the boundary
+        dpsi = 2.0 * np.pi * abs(self.psi_bndry - self.psi_axis)
+        torflux = cumulative_trapezoid(qvals, psiN, initial=0.0) * dpsi
+
+        psi = np.atleast_1d(psi)
+        result = np.interp(
+            (psi - self.psi_axis) / (self.psi_bndry - self.psi_axis), psiN, torflux
+        )
 
         # Convert to a scalar if only one result
         if len(result) == 1:
@@ -406,16 +414,9 @@ class Equilibrium:
 
         torflux = self.tor_flux(psi)
 
-        psi = np.linspace(self.psi_axis, self.psi_bndry, 101, endpoint=True)
-        torflux_for_LCFS = self.tor_flux(psi)
-
-        max_torflux = np.max(torflux_for_LCFS)
-
-        result = np.sqrt(torflux / max_torflux)
+        torflux_for_LCFS = self.tor_flux(self.psi_bndry)
 
-        if len(result) == 1:
-            return result[0]
-        return result
+        return np.sqrt(torflux / torflux_for_LCFS)
 
     def pprime(self, psinorm):
         """
-- 
2.43.0


From 9a8fab1c72fc13794ec9980ecbdba8607912b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 30/61] fix: poloidalBeta3 is dimensionless

---
 freegs/equilibrium.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index b886aea..8ea1d2e 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1161,9 +1161,8 @@ class Equilibrium:
 
         pressure_integral = romb(romb(pressure * dV))
         Ip = self.plasmaCurrent()
-        vol = self.plasmaVolume()
         r0 = self.Rgeometric()
-        return 4 * vol * pressure_integral / (mu0 * Ip * Ip * r0)
+        return 4 * pressure_integral / (mu0 * Ip * Ip * r0)
 
     def toroidalBeta(self):
         """Calculate plasma toroidal beta by integrating the thermal pressure
-- 
2.43.0


From 6c3ef53f98236dd4326754c865c63091fe51c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:34 +0000
Subject: [PATCH 31/61] fix: shafranovShift and betaN use the number of points
 they are given

---
 freegs/equilibrium.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 8ea1d2e..b76479d 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -991,8 +991,8 @@ class Equilibrium:
         Rmag = self.Rmagnetic()
         Zmag = self.Zmagnetic()
 
-        Rgeo = self.Rgeometric()
-        z0 = self.Zgeometric()
+        Rgeo = self.Rgeometric(npoints=npoints)
+        z0 = self.Zgeometric(npoints=npoints)
 
         return np.array([Rmag - Rgeo, Zmag - z0])
 
@@ -1201,13 +1201,13 @@ class Equilibrium:
 
     def betaN(self, npoints=360):
         """Calculate normalised plasma beta"""
-        geo = self.geometricAxis()
+        geo = self.geometricAxis(npoints=npoints)
         Bt = self.Btor(geo[0], geo[1])
         return (
             100.0
             * 1.0e06
             * self.toroidalBeta()
-            * ((self.minorRadius() * Bt) / (self.plasmaCurrent()))
+            * ((self.minorRadius(npoints=npoints) * Bt) / (self.plasmaCurrent()))
         )
 
     def pressure_ave(self):
-- 
2.43.0


From 5aaff82822c2ff96780bf8d11e5dd6964f87fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:47 +0000
Subject: [PATCH 32/61] fix: flux surfaces avoid X-points directly above the
 axis

---
 freegs/critical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/freegs/critical.py b/freegs/critical.py
index adabf3a..fe9743b 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -423,7 +423,8 @@ def find_separatrix(
     )  # let's make it between 0 and 2*pi
     # How close in theta to allow theta grid points to the X-point
     TOLERANCE = 1.0e-3
-    if any(abs(theta_grid - xpoint_theta) < TOLERANCE):
+    # Note: angles are periodic, 2*pi is next to 0
+    if any(abs((theta_grid - xpoint_theta + pi) % (2 * pi) - pi) < TOLERANCE):
         warn("Theta grid too close to X-point, shifting by half-step")
         theta_grid += dtheta / 2
 
@@ -493,7 +494,8 @@ def find_safety(
     # How close in theta to allow theta grid points to the X-point
     TOLERANCE = 1.0e-3
 
-    if any(abs(theta_grid - xpoint_theta) < TOLERANCE):
+    # Note: angles are periodic, 2*pi is next to 0
+    if any(abs((theta_grid - xpoint_theta + pi) % (2 * pi) - pi) < TOLERANCE):
         warn("Theta grid too close to X-point, shifting by half-step")
         theta_grid += dtheta / 2
 
-- 
2.43.0


From ebf85daae2f128194ba5743f070eb191d54bfa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:07 +0000
Subject: [PATCH 33/61] fix: G-EQDSK files can be read with current versions of
 freeqdsk

---
 freegs/geqdsk.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 8128c98..56b3c18 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -247,9 +247,14 @@ def read(
     data = geqdsk.read(fh, cocos=cocos)
 
     # If data contains a limiter, set the machine wall
-    if "rlim" in data:
-        if len(data["rlim"]) > 3:
-            machine.wall = Wall(data["rlim"], data["zlim"])
+    try:
+        rlim, zlim = data["rlim"], data["zlim"]
+    except KeyError:
+        rlim = zlim = None
+
+    if rlim is not None:
+        if len(rlim) >= 3:
+            machine.wall = Wall(rlim, zlim)
         else:
             print("Fewer than 3 points given for limiter/wall. Ignoring.")
 
-- 
2.43.0


From 9603439604d558053bc3b5a605b050e58a4abdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:08 +0000
Subject: [PATCH 34/61] fix: G-EQDSK profiles are written on the grid the
 format prescribes

---
 freegs/geqdsk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 56b3c18..303c241 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -105,7 +105,8 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
 
     data["cpasma"] = eq.plasmaCurrent()  # Plasma current [A]
 
-    psinorm = linspace(0.0, 1.0, nx, endpoint=False)  # Does not include separatrix
+    # G-EQDSK profiles are on a uniform grid from the axis to the boundary
+    psinorm = linspace(0.0, 1.0, nx)
 
     data["fpol"] = eq.fpol(psinorm)
     data["pres"] = eq.pressure(psinorm)
@@ -119,7 +120,7 @@ def write(eq, fh, label=None, oxpoints=None, fileformat=geqdsk.write):
     data["simagx"] = 0.0
 
     qpsi = zeros([nx])
-    qpsi[1:] = eq.q(psinorm[1:])  # Exclude axis
+    qpsi[1:] = eq.q(psinorm[1:])  # Exclude axis. Extrapolates to the boundary
     qpsi[0] = qpsi[1]
     data["qpsi"] = qpsi
 
-- 
2.43.0


From 4f3b89ba3e4f71565f6490424a2bf539b0a86823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:25 +0000
Subject: [PATCH 35/61] fix: reading a G-EQDSK file does not depend on the coil
 currents before

---
 freegs/geqdsk.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 303c241..59dd959 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -362,9 +362,10 @@ def read(
     dR = eq.R[1, 0] - eq.R[0, 0]
     dZ = eq.Z[0, 1] - eq.Z[0, 0]
 
-    psi_bndry = eq.psi_bndry
-    psi_axis = eq.psi_axis
-    mask = eq.mask
+    # The core of the plasma in the file. Note that eq includes
+    # the coils, whose currents have not been determined yet
+    opoint, xpoint = critical.find_critical(eq.R, eq.Z, psi)
+    mask = critical.core_mask(eq.R, eq.Z, psi, opoint, xpoint, psi_bndry)
 
     # Toroidal current
     Jtor = eq.R * pprime_func(psi_norm) + ffprime_func(psi_norm) / (eq.R * mu0)
-- 
2.43.0


From bf4300f80bc5b5bfc818bfb579a0dc9bb0a6373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:25 +0000
Subject: [PATCH 36/61] fix: G-EQDSK files can be read onto a different domain

---
 freegs/geqdsk.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/freegs/geqdsk.py b/freegs/geqdsk.py
index 59dd959..8f1ff24 100755
--- a/freegs/geqdsk.py
+++ b/freegs/geqdsk.py
@@ -378,6 +378,7 @@ def read(
         # Change the (R,Z) domain, increasing the resolution if needed
         # to keep the resolution as good or better than the input
         Rmin, Rmax, Zmin, Zmax = domain
+        newnx, newny = nx, ny
         # Calculate approximate grid size needed to keep current resolution
         fnewnx = (Rmax - Rmin) / dR + 1.0
         if fnewnx > nx:
@@ -389,8 +390,11 @@ def read(
         if (newnx != nx) or (newny != ny):
             print("Changing resolution: {} x {}".format(newnx, newny))
 
-        # Create an interpolation function for Jtor and the input psi
+        # Create an interpolation function for Jtor, mask and the input psi
         Jtor_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], Jtor)
+        mask_func = interpolate.RectBivariateSpline(
+            eq.R[:, 0], eq.Z[0, :], mask, kx=1, ky=1
+        )
         psi_func = interpolate.RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], psi)
 
         # Create a new Equilibrium object
@@ -401,8 +405,8 @@ def read(
             Rmax=Rmax,
             Zmin=Zmin,
             Zmax=Zmax,
-            nx=nx,
-            ny=ny,
+            nx=newnx,
+            ny=newny,
             check_limited=True,
         )
 
@@ -410,12 +414,8 @@ def read(
         Jtor = Jtor_func(eq.R, eq.Z, grid=False)
         psi = psi_func(eq.R, eq.Z, grid=False)
 
-        psi_bndry = eq.psi_bndry
-        psi_axis = eq.psi_axis
-        mask = eq.mask
-
-        # Update the mask function by calculating normalised psi
-        # on the new grid
+        # Update the mask and calculate normalised psi on the new grid
+        mask = 1.0 * (mask_func(eq.R, eq.Z, grid=False) > 0.5)
         psi_norm = clip((psi - psi_axis) / (psi_bndry - psi_axis), 0.0, 1.0)
 
     # Note: Here we have
-- 
2.43.0


From 2f26aeeeb41a8b70d823ecb77931818c09d50b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:10 +0000
Subject: [PATCH 37/61] fix: changing the wall of a machine updates its limit
 points

---
 freegs/machine.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 97ee958..5f7bf05 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -661,16 +661,28 @@ class Machine:
         """
 
         self.coils = coils
+        self.nlimit = nlimit
         self.wall = wall
         self.sensors = sensors
         self.R0 = R0
 
+    @property
+    def wall(self):
+        """
+        The wall. Setting it updates the limit points
+        """
+        return self._wall
+
+    @wall.setter
+    def wall(self, wall):
+        self._wall = wall
+
         self.limit_points_R = None
         self.limit_points_Z = None
 
-        if self.wall is not None:
+        if wall is not None:
             self.limit_points_R, self.limit_points_Z = self.generate_limit_points(
-                nlimit
+                self.nlimit
             )
 
     def __repr__(self):
-- 
2.43.0


From 6f41b3eb1006f2149a1692e825797cda9818516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:03 +0000
Subject: [PATCH 38/61] fix: flux surfaces passing close to an X-point do not
 contain the axis

---
 freegs/critical.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/critical.py b/freegs/critical.py
index fe9743b..eee5af4 100644
--- a/freegs/critical.py
+++ b/freegs/critical.py
@@ -361,6 +361,10 @@ def find_psisurface(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
         if ind == 0:
             # If the point is very close to the magnetic axis, don't
             # try to do extrapolation.
+            # If psival is never exceeded the line passes an X-point in
+            # between points, so use the point closest to psival.
+            if pnorm[0] <= psival:
+                ind = argmax(pnorm)
             r = r[ind]
             z = z[ind]
         else:
-- 
2.43.0


From 3b7560cb77fd96e7387610e124736e0c7f255043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:14 +0000
Subject: [PATCH 39/61] fix: intersect does not replace the last segment of an
 open curve

The index of the end of the last segment wrapped around one too early for
curves which are not closed, so that a segment back to the start was tested
instead of the last one.
---
 freegs/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index 4322361..ba6af9a 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -43,8 +43,8 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
             # (r1[i],z1[i]) -- (r1[i+1],z1[i+1])
             # (r1[j],z1[j]) -- (r1[j+1],z1[j+1])
             # Note that since polynomials are closed the indices wrap around
-            ip = (i + 1) % n1
-            jp = (j + 1) % n2
+            ip = (i + 1) % len(r1)
+            jp = (j + 1) % len(r2)
 
             a = r1[ip] - r1[i]
             b = r2[jp] - r2[j]
-- 
2.43.0


From 53a0a4629b529e15241f3e9eaf8b82fd84a67b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:14 +0000
Subject: [PATCH 40/61] fix: intersect finds crossings of short segments

Whether two segments are parallel was decided with an absolute tolerance on
the product of their lengths, so millimetre-sized segments never intersected.
---
 freegs/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index ba6af9a..f36d3d5 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -56,8 +56,8 @@ def intersect(r1, z1, r2, z2, closed1=True, closed2=True):
 
             det = a * d - b * c
 
-            if abs(det) < 1e-6:
-                continue  # Almost certainly doesn't intersect
+            if abs(det) <= 1e-12 * (abs(a * d) + abs(b * c)):
+                continue  # Parallel lines. Almost certainly doesn't intersect
 
             alpha = (d * dr - b * dz) / det  # Location along line 1 [0,1]
             beta = (a * dz - c * dr) / det  # Location along line 2 [0,1]
-- 
2.43.0


From 2c3c727a386bd01dfec098d97c301241c534865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:39 +0000
Subject: [PATCH 41/61] fix: triangulate splits concave polygons correctly

An ear was accepted without checking that the new edge is inside the polygon,
so concave polygons could be split into overlapping triangles with negative
area (and so wrong quadrature), or triangulate did not end.
---
 freegs/polygons.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/freegs/polygons.py b/freegs/polygons.py
index f36d3d5..51796c7 100644
--- a/freegs/polygons.py
+++ b/freegs/polygons.py
@@ -102,6 +102,18 @@ def clockwise(polygon):
     return area(polygon) > 0
 
 
+def _in_triangle(a, b, c, point):
+    """
+    True if the point is inside or on the edge of the
+    triangle with vertices a, b, c in clockwise order
+    """
+
+    def cross(p, q):
+        return (q[0] - p[0]) * (point[1] - p[1]) - (q[1] - p[1]) * (point[0] - p[0])
+
+    return cross(a, b) <= 0 and cross(b, c) <= 0 and cross(c, a) <= 0
+
+
 def triangulate(polygon):
     """
     Use the ear clipping method to turn an arbitrary polygon into triangles
@@ -137,22 +149,14 @@ def triangulate(polygon):
             if cross < 0:
                 continue  # Skip this vertex
 
-            # Check these edges don't intersect with other edges
-            r1 = [prev_vert[0], vert[0], next_vert[0]]
-            z1 = [prev_vert[1], vert[1], next_vert[1]]
-
-            r2 = []
-            z2 = []
-            if i < nvert - 1:
-                r2 += [v[0] for v in polygon[(i + 1) :]]
-                z2 += [v[1] for v in polygon[(i + 1) :]]
-            if i > 0:
-                r2 += [v[0] for v in polygon[:i]]
-                z2 += [v[1] for v in polygon[:i]]
-
-            # (r1,z1) is the line along two edges of the triangle
-            # (r2,z2) is the rest of the polygon
-            if intersect(r1, z1, r2, z2, closed1=False, closed2=False):
+            # The triangle must not contain any other vertex, otherwise
+            # the line from prev to next is not inside the polygon.
+            # (If the vertex is on that line then it can always be removed)
+            if cross > 0 and any(
+                _in_triangle(prev_vert, vert, next_vert, polygon[j])
+                for j in range(nvert)
+                if j not in (i, (i + 1) % nvert, (i - 1) % nvert)
+            ):
                 continue  # Skip
 
             # Found an ear
@@ -161,6 +165,8 @@ def triangulate(polygon):
             del polygon[i]
             nvert -= 1
             break
+        else:
+            raise ValueError("Cannot triangulate a polygon which intersects itself")
 
     # Reduced to a single triangle
     triangles.append(polygon)
-- 
2.43.0


From 524ee3b831db7511306c0911a55b4e2501eb91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:39 +0000
Subject: [PATCH 42/61] fix: the optimiser starts from the best of its first
 candidates

The best candidate of the initial population was the one with the highest
score, although scores are minimised: a run could return a solution worse than
others it had found, or even than the starting point.
---
 freegs/optimiser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index f36910c..a521bfc 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -122,14 +122,14 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
-    best = (measure(obj), obj)  # Highest score, candidate solution (agent)
+    best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
     for i in range(N - 1):
         agent = mutate(obj, controls)
         score_agent = (measure(agent), agent)
         population.append(score_agent)
-        if score_agent[0] > best[0]:
+        if score_agent[0] < best[0]:
             best = score_agent
 
     for generation in range(maxgen):
-- 
2.43.0


From 32e8dbaa4b46586384e2259c46fad825faa1305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:39 +0000
Subject: [PATCH 43/61] fix: pickUnique can pick every value of its range

The upper limit of numpy's randint is exclusive, and indices beyond an
excluded one were not shifted, so that the last agents were never picked.
---
 freegs/optimiser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index a521bfc..88f33b2 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -66,10 +66,10 @@ def pickUnique(N, m, e):
     others = []  # The list of three agents
     for i in range(m):
         high = N - 1 - i - len(e)
-        newind = random.randint(0, high) if high > 0 else 0
-        
+        newind = random.randint(0, high + 1)  # In the range 0..high
+
         for ind in inds:
-            if newind == ind:
+            if newind >= ind:
                 newind += 1
         bisect.insort(inds, newind)
         others.append(newind)
-- 
2.43.0


From 1d5733a9322226f332fb1a663338bf5e241cb0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:39 +0000
Subject: [PATCH 44/61] fix: the optimiser works with a single control

The upper limit of numpy's randint is exclusive: with one control it raised an
error, and with several the last one was never the one which always changes.
---
 freegs/optimiser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 88f33b2..3a296cf 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -139,7 +139,7 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
             others = [population[index][1] for index in pickUnique(N, 3, [ai])]
 
             new_obj = copy.deepcopy(agent[1])
-            R = random.randint(0, len(controls) - 1)  # Pick a random control to modify
+            R = random.randint(0, len(controls))  # Pick a random control to modify
             for i, control in enumerate(controls):
                 if i == R or random.random() < CR:
                     control.set(
-- 
2.43.0


From 75c58ec91c9670976c543fd3b61970c523935a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:39 +0000
Subject: [PATCH 45/61] fix: the optimiser does not modify the object it starts
 from

The starting object is documented to be copied, but was passed to the measure
itself: optimising an Equilibrium re-solved the one of the caller, and could
return it.
---
 freegs/optimiser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/optimiser.py b/freegs/optimiser.py
index 3a296cf..ea81cca 100644
--- a/freegs/optimiser.py
+++ b/freegs/optimiser.py
@@ -122,6 +122,9 @@ def optimise(obj, controls, measure, maxgen=10, N=10, CR=0.3, F=1.0, monitor=Non
 
     assert N >= 4
 
+    # The measure may modify the objects it is given
+    obj = copy.deepcopy(obj)
+
     best = (measure(obj), obj)  # Lowest score, candidate solution (agent)
     population = [best]  # List of (score, agent)
 
-- 
2.43.0


From d622ecc48de6e58b4658a3d8326f70a2fd368256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:39 +0000
Subject: [PATCH 46/61] fix: limits of zero on coil positions are respected

minimum=0.0 or maximum=0.0 was taken as no limit.
---
 freegs/optimise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index b321b33..df9b448 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -96,9 +96,9 @@ class CoilRadius:
         self.maximum = maximum
 
     def set(self, eq, R):
-        if self.minimum and (R < self.minimum):
+        if self.minimum is not None and (R < self.minimum):
             R = self.minimum
-        if self.maximum and (R > self.maximum):
+        if self.maximum is not None and (R > self.maximum):
             R = self.maximum
         eq.tokamak[self.label].R = R
 
@@ -120,9 +120,9 @@ class CoilHeight:
         self.maximum = maximum
 
     def set(self, eq, Z):
-        if self.minimum and (Z < self.minimum):
+        if self.minimum is not None and (Z < self.minimum):
             Z = self.minimum
-        if self.maximum and (Z > self.maximum):
+        if self.maximum is not None and (Z > self.maximum):
             Z = self.maximum
         eq.tokamak[self.label].Z = Z
 
-- 
2.43.0


From 245e5f32c3ad45bbe6315faa5da6853b6d9f8175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:10 +0000
Subject: [PATCH 47/61] fix: forces on coils in circuits do not include their
 own field

A coil sets its current to zero to get the field of everything else, but a
circuit sets the currents of its coils when its field is calculated. The force
on coils in circuits contained the (divergent) field of the coil at its own
position.
---
 freegs/machine.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/freegs/machine.py b/freegs/machine.py
index 5f7bf05..3796f56 100644
--- a/freegs/machine.py
+++ b/freegs/machine.py
@@ -209,8 +209,15 @@ class Circuit:
         Returns a dictionary of coil label -> force
         """
         forces = {}
-        for label, coil, multiplier in self.coils:
-            forces[label] = coil.getForces(equilibrium)
+        coils = self.coils
+        for i, (label, coil, multiplier) in enumerate(coils):
+            # The coil needs the field due to everything else. Take it out
+            # of the circuit, which sets the currents of its coils
+            self.coils = coils[:i] + coils[i + 1 :]
+            try:
+                forces[label] = coil.getForces(equilibrium)
+            finally:
+                self.coils = coils
         return forces
 
     def inShape(self, polygon):
-- 
2.43.0


From 00d2092e5f88ea03913a4b73c186d8d8875aec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:10 +0000
Subject: [PATCH 48/61] fix: max_coil_force works with circuits and includes
 the plasma

Forces on circuits and solenoids are dictionaries, for which it raised an
error, and the forces due to the plasma were left out.
---
 freegs/optimise.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/freegs/optimise.py b/freegs/optimise.py
index df9b448..7a3c8df 100644
--- a/freegs/optimise.py
+++ b/freegs/optimise.py
@@ -41,8 +41,14 @@ def max_abs_coil_current(eq):
 
 
 def max_coil_force(eq):
-    forces = eq.tokamak.getForces()  # dictionary
-    return max(sqrt(force[0] ** 2 + force[1] ** 2) for force in forces.values())
+    def magnitudes(forces):
+        for force in forces.values():
+            if isinstance(force, dict):  # Circuit or solenoid
+                yield from magnitudes(force)
+            else:
+                yield sqrt(force[0] ** 2 + force[1] ** 2)
+
+    return max(magnitudes(eq.getForces()))
 
 
 def no_wall_intersection(eq):
-- 
2.43.0


From e2f9b453657c43d94dd9d1803f64fe49c578cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 49/61] fix: the force on a coil without current is zero

The default area of a coil is proportional to its current, so the hoop force
of a coil without current was not a number.
---
 freegs/coil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freegs/coil.py b/freegs/coil.py
index 10cf4f3..60d9839 100644
--- a/freegs/coil.py
+++ b/freegs/coil.py
@@ -177,6 +177,10 @@ class Coil:
         current = self.current  # current per turn
         total_current = current * self.turns  # Total toroidal current
 
+        if total_current == 0.0:
+            # No force. Note that the area may also be zero
+            return np.zeros(2)
+
         # Calculate field at this coil due to all other coils
         # and plasma. Need to zero this coil's current
         self.current = 0.0
-- 
2.43.0


From 7ba528ec4e336617ef3ddea64a3153d05e97a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 50/61] fix: the centre of a FilamentCoil without shape is in
 its middle

The outline made from the filaments had its first corner twice, so that the
mean of the corners was not the middle of the coil.
---
 freegs/filament_coil.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/freegs/filament_coil.py b/freegs/filament_coil.py
index 349e4bf..9e8fd43 100644
--- a/freegs/filament_coil.py
+++ b/freegs/filament_coil.py
@@ -240,7 +240,6 @@ class FilamentCoil(Coil):
                 (minR, maxZ),
                 (maxR, maxZ),
                 (maxR, minZ),
-                (minR, minZ),
             ]
 
         assert len(shape) > 2
-- 
2.43.0


From a75dd31f57cab5f7a0cdf2d3fdcf8e87a8dfc434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:24 +0000
Subject: [PATCH 51/61] fix: multigrid restriction averages over neighbouring
 points

The terms of the neighbours were separate statements without effect, so the
error was sampled and the V-cycles hardly converged. The average is what the
coarser operator needs (it contains its own grid spacing). coarsen() relied on
the sampling, but lost the boundary values.
---
 freegs/equilibrium.py |  7 ++++++-
 freegs/multigrid.py   | 34 +++++++++++++++++++---------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index b76479d..eceb644 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1326,7 +1326,12 @@ def coarsen(eq):
     """
     Reduce grid resolution, returning a new equilibrium
     """
-    plasma_psi = multigrid.restrict(eq.plasma_psi)
+    nx, ny = eq.plasma_psi.shape
+    if nx % 2 == 1 and ny % 2 == 1:
+        # Every second point is also a point of the coarser grid
+        plasma_psi = eq.plasma_psi[::2, ::2].copy()
+    else:
+        plasma_psi = eq.plasma_psi  # Can't divide the grid
     nx, ny = plasma_psi.shape
 
     result = Equilibrium(
diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 6f72771..68be8ee 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -91,7 +91,7 @@ class MGJacobi:
                 error = b - self.A.dot(x)
 
                 # Restrict error onto coarser mesh
-                self.sub_b = restrict(reshape(error, xi.shape))
+                self.sub_b = restrict(reshape(error, xi.shape), avg=True)
 
                 # smooth this error
                 sub_x = zeros(self.sub_b.shape)
@@ -203,19 +203,23 @@ def restrict(orig, out=None, avg=False):
         for y in range(1, ny - 1):
             x0 = 2 * x
             y0 = 2 * y
-            out[x, y] = orig[x0, y0] / 4.0
-            +(
-                orig[x0 + 1, y0]
-                + orig[x0 - 1, y0]
-                + orig[x0, y0 + 1]
-                + orig[x0, y0 - 1]
-            ) / 8.0
-            +(
-                orig[x0 - 1, y0 - 1]
-                + orig[x0 - 1, y0 + 1]
-                + orig[x0 + 1, y0 - 1]
-                + orig[x0 + 1, y0 + 1]
-            ) / 16.0
+            out[x, y] = (
+                orig[x0, y0] / 4.0
+                + (
+                    orig[x0 + 1, y0]
+                    + orig[x0 - 1, y0]
+                    + orig[x0, y0 + 1]
+                    + orig[x0, y0 - 1]
+                )
+                / 8.0
+                + (
+                    orig[x0 - 1, y0 - 1]
+                    + orig[x0 - 1, y0 + 1]
+                    + orig[x0 + 1, y0 - 1]
+                    + orig[x0 + 1, y0 + 1]
+                )
+                / 16.0
+            )
     if not avg:
         out *= 4.0
 
@@ -273,7 +277,7 @@ def smoothVcycle(A, x, b, dx, dy, niter=10, sublevels=0, direct=True):
         error = b - A(x, dx, dy)
 
         # Restrict error onto coarser mesh
-        Cerror = restrict(error)
+        Cerror = restrict(error, avg=True)
 
         # smooth this error
         Cx = zeros(Cerror.shape)
-- 
2.43.0


From 09de1d1effb4f1229695ec878f377cd54f2cb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:24 +0000
Subject: [PATCH 52/61] fix: multigrid solver does not modify the initial guess

The arrays given to the solver were changed in place.
---
 freegs/multigrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freegs/multigrid.py b/freegs/multigrid.py
index 68be8ee..155e4f4 100644
--- a/freegs/multigrid.py
+++ b/freegs/multigrid.py
@@ -27,7 +27,7 @@ along with FreeGS.  If not, see <http://www.gnu.org/licenses/>.
 
 """
 
-from numpy import zeros, max, abs, reshape
+from numpy import array, zeros, max, abs, reshape
 from scipy.sparse.linalg import factorized
 from scipy.sparse import eye
 
@@ -73,7 +73,8 @@ class MGJacobi:
         """
 
         # Need to reshape x and b into 1D arrays
-        x = reshape(xi, -1)
+        # The initial guess is copied, since x is modified
+        x = array(xi, dtype=float).reshape(-1)
         b = reshape(bi, -1)
 
         if ncycle is None:
-- 
2.43.0


From 702993d84f82c7351a49acf8ca9374215102d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:02 +0000
Subject: [PATCH 53/61] fix: newDomain keeps the number of points in Z

The default was the number of points in R.
---
 freegs/equilibrium.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index eceb644..6cd243c 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1371,7 +1371,7 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
     if nx is None:
         nx = eq.R.shape[0]
     if ny is None:
-        ny = eq.R.shape[0]
+        ny = eq.R.shape[1]
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-- 
2.43.0


From af3c292896b046b2e975cff705f9618cc2cde86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:02 +0000
Subject: [PATCH 54/61] fix: changing grid or domain keeps the settings of the
 equilibrium

refine, coarsen and newDomain left out some of the boundary condition, order
of the operators, limiter check and plasma current.
---
 freegs/equilibrium.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index 6cd243c..d16d83b 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1304,7 +1304,9 @@ def refine(eq, nx=None, ny=None):
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
         boundary=eq._applyBoundary,
+        current=eq.plasmaCurrent(),
         order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1340,6 +1342,10 @@ def coarsen(eq):
         Rmax=eq.Rmax,
         Zmin=eq.Zmin,
         Zmax=eq.Zmax,
+        boundary=eq._applyBoundary,
+        current=eq.plasmaCurrent(),
+        order=eq.order,
+        check_limited=eq.check_limited,
         nx=nx,
         ny=ny,
     )
@@ -1375,7 +1381,16 @@ def newDomain(eq, Rmin=None, Rmax=None, Zmin=None, Zmax=None, nx=None, ny=None):
 
     # Create a new equilibrium with the new domain
     result = Equilibrium(
-        tokamak=eq.tokamak, Rmin=Rmin, Rmax=Rmax, Zmin=Zmin, Zmax=Zmax, nx=nx, ny=ny
+        tokamak=eq.tokamak,
+        Rmin=Rmin,
+        Rmax=Rmax,
+        Zmin=Zmin,
+        Zmax=Zmax,
+        boundary=eq._applyBoundary,
+        order=eq.order,
+        check_limited=eq.check_limited,
+        nx=nx,
+        ny=ny,
     )
 
     # Calculate the current on the old grid
-- 
2.43.0


From bd5b55419baa5e9461e99af9e4f40448ad4eae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:47 +0000
Subject: [PATCH 55/61] fix: coarsen does not share data with the original
 equilibrium

If the grid could not be divided then the flux array was shared, and solving one
equilibrium changed the other.
---
 freegs/equilibrium.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index d16d83b..bc2913c 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -1333,7 +1333,7 @@ def coarsen(eq):
         # Every second point is also a point of the coarser grid
         plasma_psi = eq.plasma_psi[::2, ::2].copy()
     else:
-        plasma_psi = eq.plasma_psi  # Can't divide the grid
+        plasma_psi = eq.plasma_psi.copy()  # Can't divide the grid
     nx, ny = plasma_psi.shape
 
     result = Equilibrium(
-- 
2.43.0


From 91667e58191f31e7a4df64be290fac98de9984c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:47 +0000
Subject: [PATCH 56/61] fix: solving does not modify the flux given to
 Equilibrium

The array was used without copying it, and solving sets its boundary values.
---
 freegs/equilibrium.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index bc2913c..e5f37eb 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -127,6 +127,9 @@ class Equilibrium:
             psi[:, 0] = 0.0
             psi[-1, :] = 0.0
             psi[:, -1] = 0.0
+        else:
+            # Copy, since solving modifies the boundary values in place
+            psi = np.array(psi, dtype=float)
 
         # Calculate coil Greens functions. This is an optimisation,
         # used in self.psi() to speed up calculations
-- 
2.43.0


From 13d26ae6474b7ddec085409bee1154fd49f76cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:48 +0000
Subject: [PATCH 57/61] fix: profiles can be used with another equilibrium than
 the one they were made with

---
 freegs/equilibrium.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/freegs/equilibrium.py b/freegs/equilibrium.py
index e5f37eb..ced3121 100644
--- a/freegs/equilibrium.py
+++ b/freegs/equilibrium.py
@@ -3,6 +3,7 @@ Defines class to represent the equilibrium
 state, including plasma and coil currents
 """
 
+import copy
 from typing import Optional
 
 from numpy import pi, meshgrid, linspace, exp, array
@@ -476,6 +477,7 @@ class Equilibrium:
             given then X-point locations are used.
         """
 
+        profiles = self._ownProfiles(profiles)
         self._profiles = profiles
         self._updateBoundaryPsi()
 
@@ -510,6 +512,18 @@ class Equilibrium:
         self._current = romb(romb(Jtor)) * dR * dZ
         self.Jtor = Jtor
 
+    def _ownProfiles(self, profiles):
+        """
+        Profiles which use this equilibrium. Some profiles refer to the
+        equilibrium they were created with; a copy is returned if that
+        is a different one e.g. before refining the mesh
+        """
+        if getattr(profiles, "eq", self) is self:
+            return profiles
+        profiles = copy.copy(profiles)
+        profiles.eq = self
+        return profiles
+
     def _updateBoundaryPsi(self, psi=None):
         """
         For an input psi the magnetic axis and boundary psi are identified along
@@ -1319,7 +1333,7 @@ def refine(eq, nx=None, ny=None):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = result._ownProfiles(eq._profiles)
 
     if hasattr(eq, "control"):
         result.control = eq.control
@@ -1356,7 +1370,7 @@ def coarsen(eq):
     result._updatePlasmaPsi(plasma_psi)
 
     if hasattr(eq, "_profiles"):
-        result._profiles = eq._profiles
+        result._profiles = result._ownProfiles(eq._profiles)
 
     if hasattr(eq, "control"):
         result.control = eq.control
-- 
2.43.0


From bdc1e9e4c48a4e50ba22291c37bf39db4dc2ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 58/61] fix: length of field lines increases if the toroidal
 field is negative

---
 freegs/fieldtracer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index db48419..d749a00 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -113,7 +113,8 @@ class FieldTracer(object):
         # Rate of change of position with toroidal angle phi
         dRdphi = evolving_R_Bt * Br
         dZdphi = evolving_R_Bt * Bz
-        dldphi = evolving_R_Bt * B
+        # Length increases along the line, in either direction
+        dldphi = np.abs(evolving_R_Bt) * B
 
         if backward:
             # Reverse direction
-- 
2.43.0


From 8421df5804b0763a8940a6bb094b37861adf45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 59/61] fix: field lines can be followed from any shape of
 starting points

---
 freegs/fieldtracer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index d749a00..4112cd0 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -129,16 +129,19 @@ class FieldTracer(object):
         If backward is True then the field lines are followed in the
         -B direction"""
 
-        Rstart = np.array(Rstart)
-        Zstart = np.array(Zstart)
+        Rstart = np.array(Rstart, dtype=float)
+        Zstart = np.array(Zstart, dtype=float)
+        angles = np.asarray(angles)
 
         array_shape = Rstart.shape
         assert Zstart.shape == array_shape
 
-        evolving = np.ones(array_shape)
+        evolving = np.ones(Rstart.size)
 
         # (R,Z,length) with length=0 initially
-        position = np.column_stack((Rstart, Zstart, np.zeros(array_shape))).flatten()
+        position = np.column_stack(
+            (Rstart.ravel(), Zstart.ravel(), np.zeros(Rstart.size))
+        ).flatten()
 
         result = odeint(
             self.fieldDirection, position, angles, args=(evolving, backward), rtol=rtol
-- 
2.43.0


From 4a6f609f95151f885405f16eaec210305996c85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:09 +0000
Subject: [PATCH 60/61] fix: field lines stop at walls which do not surround
 the middle of the domain

---
 freegs/fieldtracer.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/freegs/fieldtracer.py b/freegs/fieldtracer.py
index 4112cd0..02fb8f2 100644
--- a/freegs/fieldtracer.py
+++ b/freegs/fieldtracer.py
@@ -49,26 +49,26 @@ class FieldTracer(object):
         Rwall = self._eq.tokamak.wall.R
         Zwall = self._eq.tokamak.wall.Z
 
-        # Location of the middle of the domain
-        Rmid = 0.5 * (self._eq.Rmin + self._eq.Rmax)
-        Zmid = 0.5 * (self._eq.Zmin + self._eq.Zmax)
+        # A location outside the wall
+        Rout = np.min(Rwall) - 1.234
+        Zout = np.min(Zwall) - 0.567
 
         # True if a point is outside the wall
-        outside = np.full(R.shape, False)
+        outside = np.full(R.shape, True)
 
         nwall = len(Rwall)
         for wi in range(nwall):
-            # Find intersection between line from (Rmid, Zmid) to (R,Z)
+            # Find intersection between line from (Rout, Zout) to (R,Z)
             # with wall segment from (Rwall[wi], Zwall[wi]) to (Rwall[wi+1], Zwall[wi+1])
             wip = (wi + 1) % nwall
 
-            a = R - Rmid
+            a = R - Rout
             b = Rwall[wip] - Rwall[wi]
-            c = Z - Zmid
+            c = Z - Zout
             d = Zwall[wip] - Zwall[wi]
 
-            dr = Rwall[wip] - Rmid
-            dz = Zwall[wip] - Zmid
+            dr = Rwall[wip] - Rout
+            dz = Zwall[wip] - Zout
 
             det = a * d - b * c
 
@@ -83,7 +83,7 @@ class FieldTracer(object):
                 (np.abs(det) > 1e-6)
                 & (alpha > 0.0)
                 & (alpha < 1.0)
-                & (beta > 0.0)
+                & (beta >= 0.0)
                 & (beta < 1.0)
             )
         evolving[outside] = 0.0
-- 
2.43.0


From 5ba6810244cf845ef2a5f5200471eab9b31bd13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:01 +0000
Subject: [PATCH 61/61] fix: fit of coil currents to a flux map from almost
 zero currents

---
 freegs/control.py | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/freegs/control.py b/freegs/control.py
index c4de0e7..56bcb43 100644
--- a/freegs/control.py
+++ b/freegs/control.py
@@ -217,6 +217,33 @@ class constrain(object):
         return plotConstraints(self, axis=axis, show=show)
 
 
+def _fit_currents(difference, eq):
+    """
+    Least squares fit of the control currents, minimising the array
+    returned by difference(currents, eq)
+
+    The changes of the currents are varied, in steps which are the same for
+    all of them: A step relative to a current which is almost zero would be
+    lost in rounding errors
+    """
+    start = np.array(eq.getMachine().controlCurrents(), dtype=float)
+
+    def func(change):
+        return difference(start + change, eq)
+
+    def derivatives(change):
+        step = np.sqrt(np.finfo(float).eps) * max(np.amax(abs(start + change)), 1.0)
+        initial = func(change)
+        return array(
+            [(func(x) - initial) / step for x in change + step * eye(len(change))]
+        )
+
+    change, _ = optimize.leastsq(
+        func, np.zeros(len(start)), Dfun=derivatives, col_deriv=True
+    )
+    return start + change
+
+
 class ConstrainPsi2D(object):
     """
     Adjusts coil currents to minimise the square differences
@@ -252,11 +279,7 @@ class ConstrainPsi2D(object):
         """
 
         tokamak = eq.getMachine()
-        start_currents = tokamak.controlCurrents()
-
-        end_currents, _ = optimize.leastsq(
-            self.psi_difference, start_currents, args=(eq,)
-        )
+        end_currents = _fit_currents(self.psi_difference, eq)
 
         tokamak.setControlCurrents(end_currents)
 
@@ -302,11 +325,7 @@ class ConstrainPsiNorm2D(object):
         """
 
         tokamak = eq.getMachine()
-        start_currents = tokamak.controlCurrents()
-
-        end_currents, _ = optimize.leastsq(
-            self.psinorm_difference, start_currents, args=(eq,)
-        )
+        end_currents = _fit_currents(self.psinorm_difference, eq)
 
         tokamak.setControlCurrents(end_currents)
 
-- 
2.43.0

