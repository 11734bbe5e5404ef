From b1ebaabcf3bd66bf5e039a3e516fe545dd9ef3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 01/56] fix: reset the stored G indexes at every
 GuidedModeExp.run(), as the other per-run lists

---
 legume/gme/gme.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ef2ea8d..ec811d7 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -875,6 +875,7 @@ class GuidedModeExp(object):
         self._kpoints = kpoints
 
         self.modes_numg = []
+        self.ind_modes = []
         self.N_basis = []
         self.gmode_include = []
 
-- 
2.43.0


From 25fa1c3d461a295269b1f3a67229a1d82c6e0688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 02/56] fix: do not reuse inverse permittivity matrices built
 with a different only_gmodes

---
 legume/gme/gme.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ec811d7..e63bf4f 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -646,9 +646,10 @@ class GuidedModeExp(object):
         """
         Construct the inverse FT matrices for the permittivity in each layer
         """
-        try:
-            self.eps_inv_mat
-        except AttributeError:
+        # The matrices stored by an earlier run can only be reused if they were
+        # constructed with the same 'only_gmodes'
+        if getattr(self, '_eps_inv_only_gmodes', None) != only_gmodes:
+            self._eps_inv_only_gmodes = only_gmodes
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
 
-- 
2.43.0


From 5da0456f7d4290098ec217aa4261824e4a6d7d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 03/56] fix: discard radiative losses of an earlier run when
 GuidedModeExp.run() is called again

---
 legume/gme/gme.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index e63bf4f..7728ee5 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -880,6 +880,12 @@ class GuidedModeExp(object):
         self.N_basis = []
         self.gmode_include = []
 
+        # Discard the radiative results of a previous run
+        self._freqs_im = []
+        self._unbalance_sp = []
+        self._rad_coup = {}
+        self._rad_gvec = {}
+
         #Check if angles are provided in case is not None
         if self.kz_symmetry is None:
             pass
-- 
2.43.0


From ac2899b8c8e8785945d1f7a4d935c6f92f01e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 04/56] fix: label odd modes with the number of odd states for
 kz_symmetry='both'

---
 legume/gme/gme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 7728ee5..48358f3 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1070,7 +1070,7 @@ class GuidedModeExp(object):
                     symm1 = bd.concatenate((np.full(self.even_counts[ik],
                                                     1,
                                                     dtype=int),
-                                            np.full(self.even_counts[ik],
+                                            np.full(self.odd_counts[ik],
                                                     -1,
                                                     dtype=int)))
                     freq1 = bd.concatenate((freq1_even, freq1_odd))
-- 
2.43.0


From f3edd14a30ea1aa7ddb2e58f684e68ccb413383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 05/56] fix: separate odd and even states over the guided modes
 that entered the basis

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 48358f3..69664a2 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -1268,7 +1268,7 @@ class GuidedModeExp(object):
         blocks = []  #
         blocks_w = []  #eigenvectors
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
 
             #Block of symmetry operator corresponding to (k,ind_alpha)
@@ -1406,7 +1406,7 @@ class GuidedModeExp(object):
         #dim_final = np.shape(mat)[0]
         dim_final = 0
 
-        for ind_alpha, alpha in enumerate(self.gmode_inds):
+        for ind_alpha, alpha in enumerate(self.gmode_include[ik]):
             dim = self.modes_numg[ik][ind_alpha]
             # These are for creating sparse matrix
             # check_g to avoid double counting on reflected g
-- 
2.43.0


From 0b77bd0086185d7cbda2398783ade9c4366110fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 06/56] fix: use eps(g-g') and not eps(g'-g) with 'abs'
 truncation, fields were those of the inverted structure

---
 legume/exc/exc.py | 16 ++++++++--------
 legume/gme/gme.py | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 9530376..e0e2882 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -242,10 +242,10 @@ class ExcitonSchroedEq(object):
          assuming abs-initialized reciprocal lattice
         """
 
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
         """
         Old code calculating all redundant delta_g = Gi-Gj
         pot_ft = self.layer.compute_exc_ft(np.vstack((ggridx, ggridy)),
@@ -256,10 +256,10 @@ class ExcitonSchroedEq(object):
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         indgrid = bd.array([indgridx, indgridy])
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 69664a2..379ada9 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -447,19 +447,19 @@ class GuidedModeExp(object):
 
         # x and y components of delta_G = G1-G2,
         #the dimension of ggrdix and ggrdiy is [Ng^2]
-        ggridx = (self.gvec[0, :][np.newaxis, :] -
-                  self.gvec[0, :][:, np.newaxis]).ravel()
-        ggridy = (self.gvec[1, :][np.newaxis, :] -
-                  self.gvec[1, :][:, np.newaxis]).ravel()
+        ggridx = (self.gvec[0, :][:, np.newaxis] -
+                  self.gvec[0, :][np.newaxis, :]).ravel()
+        ggridy = (self.gvec[1, :][:, np.newaxis] -
+                  self.gvec[1, :][np.newaxis, :]).ravel()
 
         # The dimension of G1 is [2,Ng^2]
         self.G1 = bd.vstack((ggridx, ggridy))
 
         # indexes corresponding to ggdrix,ggridy
-        indgridx = (self.inds1[np.newaxis, :] -
-                    self.inds1[:, np.newaxis]).ravel().astype(int)
-        indgridy = (self.inds2[np.newaxis, :] -
-                    self.inds2[:, np.newaxis]).ravel().astype(int)
+        indgridx = (self.inds1[:, np.newaxis] -
+                    self.inds1[np.newaxis, :]).ravel().astype(int)
+        indgridy = (self.inds2[:, np.newaxis] -
+                    self.inds2[np.newaxis, :]).ravel().astype(int)
 
         # We find the list of unique (indgridx,indgridy)
         # This is the bottleneck in terms of timing, we should find
-- 
2.43.0


From f18050382f4be21a4a1e813635df60ec09a42740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 07/56] fix: normalise and shift the exciton potential once,
 not once per shape

---
 legume/phc/layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index af8843f..abaee42 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -166,13 +166,13 @@ class ShapesLayer(Layer):
             # inside the shape and zero outside
             FT = FT + Vmax * shape.compute_ft(gvec)
 
-            FT = FT / self.lattice.ec_area
-            # If the potential is negative we must shift all energies
+        FT = FT / self.lattice.ec_area
+        # If the potential is negative we must shift all energies
 
-            ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
-            # If the first element corresponding to V(0) is negative we shift the energies by Vmax
-            if FT[ind0][0] < 0:
-                FT[ind0] += bd.abs(Vmax)
+        ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
+        # If the first element corresponding to V(0) is negative we shift the energies by Vmax
+        if FT[ind0][0] < 0:
+            FT[ind0] += bd.abs(Vmax)
         ### k near zero could be explicitly set to the potential average value, to be done!
 
         return FT
-- 
2.43.0


From d74e58b699d69177d4b9b02e273a2877305798f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 08/56] fix: sum the diamagnetic term over all quantum wells in
 every block of the Hopfield matrix

---
 legume/pol/pol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 9ef059f..4cc356d 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -229,11 +229,12 @@ class HopfieldPol(object):
         diag_phot = diag_phot + 2 * bd.real(D_final_block)
 
         row_0 = bd.hstack(
-            (diag_phot, -1j * C_final_block, -2 * D, -1j * C_final_block))
+            (diag_phot, -1j * C_final_block, -2 * D_final_block,
+             -1j * C_final_block))
         row_1 = bd.hstack((1j * C_dagger_final_block, diag_exc,
                            -1j * C_dagger_final_block, diag_exc * 0.))
         row_2 = bd.hstack(
-            (2 * D, -1j * C_final_block, -diag_phot, -1j * C_final_block))
+            (2 * D_final_block, -1j * C_final_block, -diag_phot, -1j * C_final_block))
         row_3 = bd.hstack((-1j * C_dagger_final_block, diag_exc * 0.,
                            1j * C_dagger_final_block, -diag_exc))
         M = bd.vstack((row_0, row_1, row_2, row_3))
-- 
2.43.0


From 3d670c104d71ee84521bc1604d99e6d8abc3b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 09/56] fix: HopfieldPol.run() does not write into the option
 dictionaries it is given

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 4cc356d..00d86f0 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -289,8 +289,8 @@ class HopfieldPol(object):
         self._gvec = self.gme.gvec
 
         #Force the same kpoints for gme and exc solvers
-        gme_options['kpoints'] = self.kpoints
-        exc_options['kpoints'] = self.kpoints
+        gme_options = {**gme_options, 'kpoints': self.kpoints}
+        exc_options = {**exc_options, 'kpoints': self.kpoints}
 
         #Run gme
         self.gme.run(**gme_options)
-- 
2.43.0


From bcbc2bc97ba0626f6c3d03bbe10c920a4e6c28ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 10/56] fix: get_pot_xy() with 'tbt' truncation

---
 legume/exc/exc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index e0e2882..56d44c5 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -412,8 +412,7 @@ class ExcitonSchroedEq(object):
             ft_coeffs = bd.hstack(
                 (self.T1, self.T2, bd.conj(self.T1), bd.conj(self.T2)))
             gvec = bd.hstack((self.G1, self.G2, -self.G1, -self.G2))
-            #ft_coeffs[0] sincewe have only one layer
-            pot_r = ftinv(ft_coeffs[0], gvec, xgrid, ygrid)
+            pot_r = ftinv(ft_coeffs, gvec, xgrid, ygrid)
         elif self.truncate_g == "abs":
             ft_coeffs = self.T1_unique
             gvec = self.G1_unique
-- 
2.43.0


From 4238ab2f824073b081736dab0b95b66af045cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 11/56] fix: bz_path() accepts an integer number of points, as
 documented

---
 legume/phc/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 27ef912..91a838b 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -132,7 +132,7 @@ class Lattice(object):
             A dictionary with the 'kpoints', 'labels',
             'indexes', 'k_indexes', and the 'angles' corresponding to the labels.      
         """
-        if not isinstance(ns, list): ns = list(ns)
+        ns = [ns] if np.ndim(ns) == 0 else list(ns)
         npts = len(pts)
         if npts < 2:
             raise ValueError("At least two points must be given")
-- 
2.43.0


From 6ad17c3289bc79b8bcb5184a4dd3a9b6eb779806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 12/56] fix: xy_grid() accepts a single number of periods, as
 documented

---
 legume/phc/lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 91a838b..3ddf290 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -90,13 +90,13 @@ class Lattice(object):
         np.ndarray
             Two arrays defining a linear grid in `x` and `y`.
         """
-        if periods == None:
+        if periods is None:
             if self.type == 'square' or self.type == 'rectangular':
                 periods = [1, 1]
             else:
                 periods = [2, 2]
-        elif np.array(periods).shape == 1:
-            periods = periods[0] * np.ones((2, ))
+        elif np.size(periods) == 1:
+            periods = np.ravel(periods)[0] * np.ones((2, ))
 
         ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
-- 
2.43.0


From 0a0c89251bd6de34cd9c7aa24cbc2c573026807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 13/56] fix: xy_grid() spans the lattice vectors also when
 their components are negative

---
 legume/phc/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index 3ddf290..e37c6cf 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -98,10 +98,10 @@ class Lattice(object):
         elif np.size(periods) == 1:
             periods = np.ravel(periods)[0] * np.ones((2, ))
 
-        ymax = np.abs(max([self.a1[1], self.a2[1]])) * periods[1] / 2
+        ymax = max(np.abs([self.a1[1], self.a2[1]])) * periods[1] / 2
         ymin = -ymax
 
-        xmax = np.abs(max([self.a1[0], self.a2[0]])) * periods[0] / 2
+        xmax = max(np.abs([self.a1[0], self.a2[0]])) * periods[0] / 2
         xmin = -xmax
 
         return (np.linspace(xmin, xmax, Nx), np.linspace(ymin, ymax, Ny))
-- 
2.43.0


From e3adf6f854f7b78dc1229d3f1e9727aae3805835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 14/56] fix: repr() of an Ellipse

---
 legume/phc/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index aeb1b56..103f54f 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -141,7 +141,7 @@ class Ellipse(Shape):
         super().__init__(eps=eps)
 
     def __repr__(self):
-        return f"Ellipse(eps = {eps:.2f}, x = {x:.4f}, y = {y:.4f}, rx = {rx:.4f},ry = {ry:.4f}, phi = {phi:.4f}, )"
+        return f"Ellipse(eps = {self.eps:.2f}, x = {self.x_cent:.4f}, y = {self.y_cent:.4f}, rx = {self.rx:.4f}, ry = {self.ry:.4f}, phi = {self.phi:.4f})"
 
     def compute_ft(self, gvec):
         (gx, gy) = self._parse_ft_gvec(gvec)
-- 
2.43.0


From d78bb39659875ffa89fddb76aad74f123d5f30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 15/56] fix: a rotated Ellipse stays at the given center

---
 legume/phc/shapes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 103f54f..b55c934 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -154,16 +154,16 @@ class Ellipse(Shape):
             np.abs(np.square(g1y * self.ry)))
         gabs += 1e-10  # To avoid numerical instability at zero
 
-        ft = bd.exp(-1j*g1x*self.x_cent - 1j*g1y*self.y_cent)*self.rx*self.ry* \
+        ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
 
         return ft
 
     def is_inside(self, x, y):
-        x1 = x * bd.cos(self.phi) + y * bd.sin(self.phi)
-        y1 = -x * bd.sin(self.phi) + y * bd.cos(self.phi)
-        return (np.square((x1 - self.x_cent) / self.rx) + np.square(
-            (y1 - self.y_cent) / self.ry) <= 1)
+        dx, dy = x - self.x_cent, y - self.y_cent
+        x1 = dx * bd.cos(self.phi) + dy * bd.sin(self.phi)
+        y1 = -dx * bd.sin(self.phi) + dy * bd.cos(self.phi)
+        return (np.square(x1 / self.rx) + np.square(y1 / self.ry) <= 1)
 
 
 class Poly(Shape):
-- 
2.43.0


From 731245a68bd720aa841904ce78c328eda52854b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 16/56] fix: PhotCryst/ShapesLayer.add_shape() adds nothing
 when one of the shapes is invalid

---
 legume/phc/layer.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index abaee42..d36f60a 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -124,18 +124,18 @@ class ShapesLayer(Layer):
         if isinstance(shapes, Shape):
             shapes = [shapes]
 
+        # Nothing is added if any of the arguments is not a shape
+        if not all(isinstance(shape, Shape) for shape in shapes):
+            raise ValueError(
+                "Argument to add_shape must only contain "
+                "instances of legume.Shape (e.g legume.Circle or legume.Poly)")
+
         for shape in shapes:
-            if isinstance(shape, Shape):
-                self.shapes.append(shape)
-                # We squeeze to have a zero-dimensional array, which is consistent
-                # with eps_avg in layers without shapes
-                self.eps_avg = (self.eps_avg + (shape.eps - self.eps_b) * \
-                                shape.area/self.lattice.ec_area).squeeze()
-            else:
-                raise ValueError(
-                    "Argument to add_shape must only contain "
-                    "instances of legume.Shape (e.g legume.Circle or legume.Poly)"
-                )
+            self.shapes.append(shape)
+            # We squeeze to have a zero-dimensional array, which is consistent
+            # with eps_avg in layers without shapes
+            self.eps_avg = (self.eps_avg + (shape.eps - self.eps_b) * \
+                            shape.area/self.lattice.ec_area).squeeze()
 
     def compute_ft(self, gvec):
         """
-- 
2.43.0


From 57b0af451cad0b8d6fe70943221086df6f37747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 17/56] fix: adam() does not write into the starting parameters

---
 legume/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 7e0e1e1..901ad51 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -93,7 +93,8 @@ class Minimize(object):
         Callback        -- function to call at every epoch; the argument that's
                             passed in is the current minimizer state
         """
-        self.params = pstart
+        # Copy, so that snapping to the bounds never writes into 'pstart'
+        self.params = np.array(pstart)
         self.bounds = self._parse_bounds(bounds)
         self.Nepochs = Nepochs
         self.disp_p = disp_p
-- 
2.43.0


From 09b07b0c97952553bfa862846a3183c23c1bdd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 18/56] fix: pass the minimizer to the first objective
 evaluation of lbfgs(pass_self=True)

---
 legume/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 901ad51..713c814 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -201,7 +201,8 @@ class Minimize(object):
         self.of_list = []
 
         # Get initial of value
-        of = self.objective(self.params, *args)
+        of_args = (*args, self) if pass_self == True else args
+        of = self.objective(self.params, *of_args)
         self.of_list.append(self._get_value(of))
 
         def of(params, *args, **kwargs):
-- 
2.43.0


From b505e77187e358b82eed2ca713db9324b42553f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 19/56] fix: generate_gds_raster() with a list of levels and
 with cell_bound=False

---
 legume/gds.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/legume/gds.py b/legume/gds.py
index 550bbac..52602e7 100644
--- a/legume/gds.py
+++ b/legume/gds.py
@@ -99,7 +99,10 @@ def generate_gds_raster(lattice,
         Default is [0.5].
     """
 
-    contours = skimage.measure.find_contours(raster, levels)
+    contours = [
+        contour for level in np.ravel(levels)
+        for contour in skimage.measure.find_contours(raster, level)
+    ]
     polygons = []
 
     T = np.hstack((lattice.a1[:, np.newaxis], lattice.a2[:, np.newaxis]))
@@ -124,7 +127,6 @@ def generate_gds_raster(lattice,
                                [-0.5, +0.5, +0.5, -0.5]])
         points = [(x, y) for (x, y) in zip(bounds[0, :], bounds[1, :])]
         boundary = gdspy.Polygon(points, layer=0, datatype=1)
-
-    cell.add(boundary)
+        cell.add(boundary)
 
     gdspy.write_gds(filename, unit=unit)
-- 
2.43.0


From ddc558a2ed1648c41a9bdc5f6fd75fc67da20ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 20/56] fix: Bloch phase of a field plotted over an xy-plane
 with periodic=False

---
 legume/viz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 8d4850c..cdd019b 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -1216,8 +1216,8 @@ def field(struct,
                     np.meshgrid(grid1, grid2, np.array(z))).squeeze()
         pl, o, v = 'xy', 'z', zval
         if periodic == False:
-            kenv = np.exp(1j * grid1 * struct.kpoints[0, kind] +
-                          1j * grid2 * struct.kpoints[1, kind])
+            kenv = np.exp(1j * grid1[np.newaxis, :] * struct.kpoints[0, kind] +
+                          1j * grid2[:, np.newaxis] * struct.kpoints[1, kind])
 
     elif x is not None and z is None and y is None:
         if str_type == 'pwe':
-- 
2.43.0


From a2a721f0d9acb3060603e0b413f3e412cef22a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 21/56] fix: bands(Q=True) with separated symmetries on current
 matplotlib

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index cdd019b..2279e49 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -138,7 +138,7 @@ def bands(gme,
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
                 Q_max = np.max(Q[Q < Q_clip])
-                edgecolors = mpl.cm.get_cmap('bwr')(
+                edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
                 p = ax.scatter(X.flatten(),
-- 
2.43.0


From 1b3678fada890644e815a113fced280ad118f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 22/56] fix: bands() of a PlaneWaveExp with the default options

---
 legume/viz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 2279e49..8acc8a4 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -209,7 +209,8 @@ def bands(gme,
                         mec=markeredgecolor)
                 ax.set_ylim(bottom=0.0, top=conv * gme.freqs[:].max())
 
-    if cone:
+    # There is no light cone in a 2D simulation
+    if cone and isinstance(gme, GuidedModeExp):
         vec_LL = _calculate_LL(gme.kpoints, gme.phc, conv)
         ax.fill_between(X0,
                         vec_LL,
-- 
2.43.0


From d318e7ba5ebee0426c042b9c8b899c8390f040d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 23/56] fix: results of a simulation that was not run yet are
 empty, and do not raise AttributeError

---
 legume/exc/exc.py | 6 ++++++
 legume/gme/gme.py | 1 +
 legume/pol/pol.py | 9 +++++++++
 legume/pwe/pwe.py | 5 +++++
 4 files changed, 21 insertions(+)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 56d44c5..883569f 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -54,6 +54,12 @@ class ExcitonSchroedEq(object):
         """
 
         self.phc = phc
+
+        # Defined when self.run() is called
+        self._eners = []
+        self._eigvecs = []
+        self._kpoints = []
+
         # Number of layers in the PhC
         self.N_layers = len(phc.layers)
         layer_index = z_to_lind(phc, z)
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 379ada9..5ad1061 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -55,6 +55,7 @@ class GuidedModeExp(object):
 
         # Initialize all the attributes defined as properties below
         self._symm = []
+        self._kz_symms = []
         self._freqs = []
         self._freqs_im = []
         self._unbalance_sp = []
diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 00d86f0..7d86dec 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -29,6 +29,15 @@ class HopfieldPol(object):
 
         self.gme = GuidedModeExp(phc, gmax, truncate_g=truncate_g)
 
+        # Defined when self.run() is called
+        self._eners = []
+        self._eners_im = []
+        self._eigvecs = []
+        self._fractions_ex = []
+        self._fractions_ph = []
+        self._kpoints = []
+        self._gvec = self.gme.gvec
+
         self.exc_list = []
 
         if len(phc.qws) == 0:
diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index ec9cf5a..52831aa 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -24,6 +24,11 @@ class PlaneWaveExp(object):
         self.layer = layer
         self.gmax = gmax
 
+        # Defined when self.run() is called
+        self._freqs = []
+        self._eigvecs = []
+        self._kpoints = []
+
         # The effective epsilon can be useful for simulations of an effective
         # slab of a given thickness and at a particular frequency.
         if not eps_eff:
-- 
2.43.0


From 12216ac3da71a57f6940e611197472be42e484a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 24/56] fix: get_eps() includes enough periodic images of the
 shapes for oblique lattices

---
 legume/phc/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index d36f60a..42015a8 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -192,7 +192,10 @@ class ShapesLayer(Layer):
         a1 = self.lattice.a1
         a2 = self.lattice.a2
 
-        a_p = min([np.linalg.norm(a1), np.linalg.norm(a2)])
+        # Smallest height of the elementary cell, so that any point (x, y) is
+        # less than nmax cells away from the origin also if a1, a2 are oblique
+        a_p = self.lattice.ec_area / max(
+            [np.linalg.norm(a1), np.linalg.norm(a2)])
         nmax = np.int_(
             np.sqrt(
                 np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-- 
2.43.0


From 6e67257bc48afe2e7a7dcfb2b155fcbe8a594e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:43 +0000
Subject: [PATCH 25/56] fix: D and E fields of PlaneWaveExp are the curl of H,
 a factor |k+G| was missing

---
 legume/pwe/pwe.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index 52831aa..f94c3b7 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -297,14 +297,15 @@ class PlaneWaveExp(object):
 
         elif field.lower() == 'd' or field.lower() == 'e':
             if self.pol == 'te':
-                Dx_ft = 1j / omega * evec * qx
-                Dy_ft = 1j / omega * evec * qy
+                # D = 1j / omega * curl(H)
+                Dx_ft = -gnorm / omega * evec * qx
+                Dy_ft = -gnorm / omega * evec * qy
                 Dz_ft = bd.zeros(gnorm.shape)
 
             elif self.pol == 'tm':
                 Dx_ft = bd.zeros(gnorm.shape)
                 Dy_ft = bd.zeros(gnorm.shape)
-                Dz_ft = 1j / omega * evec
+                Dz_ft = gnorm / omega * evec
 
             if field.lower() == 'd':
                 return (Dx_ft, Dy_ft, Dz_ft)
-- 
2.43.0


From 6fe6e7e35df8550f4b12660d09fca20dd6961097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 26/56] fix: get_eps() finds the periodic images of shapes
 drawn away from the origin

---
 legume/phc/layer.py  |  8 ++++----
 legume/phc/shapes.py | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index 42015a8..076be79 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -196,12 +196,12 @@ class ShapesLayer(Layer):
         # less than nmax cells away from the origin also if a1, a2 are oblique
         a_p = self.lattice.ec_area / max(
             [np.linalg.norm(a1), np.linalg.norm(a2)])
-        nmax = np.int_(
-            np.sqrt(
-                np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
-            / a_p) + 1
+        r_max = np.sqrt(
+            np.square(np.max(abs(xmesh))) + np.square(np.max(abs(ymesh))))
 
         for shape in self.shapes:
+            # The shape can also be drawn outside the cell at the origin
+            nmax = np.int_((r_max + shape._reach()) / a_p) + 1
             for n1 in range(-nmax, nmax + 1):
                 for n2 in range(-nmax, nmax + 1):
                     in_shape = shape.is_inside(xmesh + n1 * a1[0] + n2 * a2[0],
diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index b55c934..bb34a6a 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -2,6 +2,7 @@ import numpy as np
 import matplotlib.path as mpltPath
 
 from legume.backend import backend as bd
+from legume.utils import get_value
 
 
 class Shape(object):
@@ -60,6 +61,11 @@ class Shape(object):
         raise NotImplementedError("is_inside() needs to be implemented by"
                                   "Shape subclasses")
 
+    def _reach(self):
+        """Distance from the origin to the farthest point of the shape
+        """
+        return 0.
+
 
 class Circle(Shape):
     """Circle shape
@@ -103,6 +109,10 @@ class Circle(Shape):
         return (np.square(x - self.x_cent) + np.square(y - self.y_cent)
                 <= np.square(self.r))
 
+    def _reach(self):
+        return np.hypot(get_value(self.x_cent), get_value(
+            self.y_cent)) + get_value(self.r)
+
 
 class Ellipse(Shape):
     """Ellipse shape
@@ -165,6 +175,10 @@ class Ellipse(Shape):
         y1 = -dx * bd.sin(self.phi) + dy * bd.cos(self.phi)
         return (np.square(x1 / self.rx) + np.square(y1 / self.ry) <= 1)
 
+    def _reach(self):
+        return np.hypot(get_value(self.x_cent), get_value(
+            self.y_cent)) + max(get_value(self.rx), get_value(self.ry))
+
 
 class Poly(Shape):
     """Polygon shape
@@ -278,6 +292,10 @@ class Poly(Shape):
         test = path.contains_points(points.T)
         return test.reshape((x.shape))
 
+    def _reach(self):
+        return np.max(
+            np.hypot(get_value(self.x_edges), get_value(self.y_edges)))
+
     def rotate(self, angle):
         """Rotate the polygon around its center of mass by `angle` radians
         """
-- 
2.43.0


From b46c9e5b4a6834187f0bd751534e85dbd8c9487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 27/56] fix: Ellipse can be differentiated with the 'autograd'
 backend

---
 legume/phc/shapes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index bb34a6a..1753208 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -159,10 +159,8 @@ class Ellipse(Shape):
         # Change of coordinates
         g1x = gx * bd.cos(self.phi) + gy * bd.sin(self.phi)
         g1y = -gx * bd.sin(self.phi) + gy * bd.cos(self.phi)
-        gabs = np.sqrt(
-            np.abs(np.square(g1x * self.rx)) +
-            np.abs(np.square(g1y * self.ry)))
-        gabs += 1e-10  # To avoid numerical instability at zero
+        gabs = bd.sqrt(bd.square(g1x * self.rx) + bd.square(g1y * self.ry))
+        gabs = gabs + 1e-10  # To avoid numerical instability at zero
 
         ft = bd.exp(-1j*gx*self.x_cent - 1j*gy*self.y_cent)*self.rx*self.ry* \
                             2*np.pi/gabs*bd.bessel1(gabs)
-- 
2.43.0


From 23b4308ba34fd482c4eecd9d5524a187d3b66916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 28/56] fix: Fourier components of a Poly with edges nearly
 parallel to an axis

The slope dx/dy of such an edge lost all digits, e.g. for a square rotated by
1e-7. Sum over the edges without dividing by their extent.
---
 legume/phc/shapes.py | 72 ++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 50 deletions(-)

diff --git a/legume/phc/shapes.py b/legume/phc/shapes.py
index 1753208..6aafa58 100644
--- a/legume/phc/shapes.py
+++ b/legume/phc/shapes.py
@@ -228,58 +228,30 @@ class Poly(Shape):
         """
         (gx, gy) = self._parse_ft_gvec(gvec)
 
-        (xj, yj) = self.x_edges, self.y_edges
-        npts = xj.shape[0]
-        ng = gx.shape[0]
         # Note: the paper uses +1j*g*x convention for FT while we use
         # -1j*g*x everywhere in legume
-        gx = -gx[:, bd.newaxis]
-        gy = -gy[:, bd.newaxis]
-        xj = xj[bd.newaxis, :]
-        yj = yj[bd.newaxis, :]
-
-        ft = bd.zeros((ng), dtype=bd.complex)
-
-        aj = (bd.roll(xj, -1, axis=1) - xj + 1e-10) / \
-                (bd.roll(yj, -1, axis=1) - yj + 1e-20)
-        bj = xj - aj * yj
-
-        # We first handle the Gx = 0 case
-        ind_gx0 = np.abs(gx[:, 0]) < 1e-10
-        ind_gx = ~ind_gx0
-        if np.sum(ind_gx0) > 0:
-            # And first the Gy = 0 case
-            ind_gy0 = np.abs(gy[:, 0]) < 1e-10
-            if np.sum(ind_gy0 * ind_gx0) > 0:
-                ft = ind_gx0*ind_gy0*bd.sum(xj * bd.roll(yj, -1, axis=1)-\
-                                yj * bd.roll(xj, -1, axis=1))/2
-                # Remove the Gx = 0, Gy = 0 component
-                ind_gx0[ind_gy0] = False
-
-            # Compute the remaining Gx = 0 components
-            a2j = 1 / aj
-            b2j = yj - a2j * xj
-            bgtemp = gy * b2j
-            agtemp1 = bd.dot(gx, xj) + bd.dot(gy, a2j * xj)
-            agtemp2 = bd.dot(gx, bd.roll(xj, -1, axis=1)) + \
-                    bd.dot(gy, a2j * bd.roll(xj, -1, axis=1))
-            denom = gy * (gx + bd.dot(gy, a2j))
-            ftemp = bd.sum(bd.exp(1j*bgtemp) * (bd.exp(1j*agtemp2) - \
-                    bd.exp(1j*agtemp1)) * \
-                    denom / (bd.square(denom) + 1e-50) , axis=1)
-            ft = bd.where(ind_gx0, ftemp, ft)
-
-        # Finally compute the general case for Gx != 0
-        if np.sum(ind_gx) > 0:
-            bgtemp = bd.dot(gx, bj)
-            agtemp1 = bd.dot(gy, yj) + bd.dot(gx, aj * yj)
-            agtemp2 = bd.dot(gy, bd.roll(yj, -1, axis=1)) + \
-                        bd.dot(gx, aj * bd.roll(yj, -1, axis=1))
-            denom = gx * (gy + bd.dot(gx, aj))
-            ftemp = -bd.sum(bd.exp(1j*bgtemp) * (bd.exp(1j * agtemp2) - \
-                    bd.exp(1j * agtemp1)) * \
-                    denom / (bd.square(denom) + 1e-50) , axis=1)
-            ft = bd.where(ind_gx, ftemp, ft)
+        gx = gx[:, bd.newaxis]
+        gy = gy[:, bd.newaxis]
+        xj = self.x_edges[bd.newaxis, :]
+        yj = self.y_edges[bd.newaxis, :]
+        xn, yn = bd.roll(xj, -1, axis=1), bd.roll(yj, -1, axis=1)
+
+        # The integral over the area is a sum over the edges, by the divergence
+        # theorem; an edge contributes exp(-1j*G*center)*sinc(G*edge/2)
+        g2 = bd.square(gx) + bd.square(gy)
+        ind_g0 = g2 < 1e-20
+        phase = (gx * (xn - xj) + gy * (yn - yj)) / 2
+        small = bd.abs(phase) < 1e-4
+        phase1 = bd.where(small, 1., phase)
+        sinc = bd.where(small, 1 - bd.square(phase) / 6,
+                        bd.sin(phase1) / phase1)
+        center = (gx * (xn + xj) + gy * (yn + yj)) / 2
+        ft = bd.sum(1j * (gx * (yn - yj) - gy * (xn - xj)) *
+                    bd.exp(-1j * center) * sinc, axis=1)
+        ft = ft / bd.where(ind_g0, 1., g2)[:, 0]
+
+        # G = 0 is the area
+        ft = bd.where(ind_g0[:, 0], bd.sum(xj * yn - yj * xn) / 2, ft)
 
         return ft
 
-- 
2.43.0


From 2bb5aa8d9560c2c54f17ff86588a60d7829adbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 29/56] fix: circular truncation is complete for lattices with
 an angle below 30 degrees

---
 legume/exc/exc.py | 6 ++++--
 legume/gme/gme.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index 883569f..f327c09 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -178,10 +178,12 @@ class ExcitonSchroedEq(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
+        # G = m1*b1 + m2*b2 has m1 = G*a1/(2*pi), so no vector of the circle has
+        # an index larger than gmax*|a1|
         n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
+            self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
         n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+            self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 5ad1061..d697247 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -213,10 +213,12 @@ class GuidedModeExp(object):
         """
         Initialize reciprocal lattice vectors with circular truncation.
         """
+        # G = m1*b1 + m2*b2 has m1 = G*a1/(2*pi), so no vector of the circle has
+        # an index larger than gmax*|a1|
         n1max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b1))
+            self.gmax * np.linalg.norm(self.phc.lattice.a1)) + 1
         n2max = np.int_(
-            (4 * np.pi * self.gmax) / np.linalg.norm(self.phc.lattice.b2))
+            self.gmax * np.linalg.norm(self.phc.lattice.a2)) + 1
 
         inds1 = np.tile(np.arange(-n1max, n1max + 1), (2*n2max + 1, 1))  \
                          .reshape((2*n2max + 1)*(2*n1max + 1), order='F')
-- 
2.43.0


From d35a2f664dc0ae3e81ba5545dc21a26719135f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 30/56] fix: PlaneWaveExp uses the documented effective
 background permittivity eps_eff

---
 legume/pwe/pwe.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/legume/pwe/pwe.py b/legume/pwe/pwe.py
index f94c3b7..dfba12e 100644
--- a/legume/pwe/pwe.py
+++ b/legume/pwe/pwe.py
@@ -31,6 +31,7 @@ class PlaneWaveExp(object):
 
         # The effective epsilon can be useful for simulations of an effective
         # slab of a given thickness and at a particular frequency.
+        self._use_eps_eff = bool(eps_eff)
         if not eps_eff:
             eps_eff = layer.eps_b
 
@@ -127,13 +128,27 @@ class PlaneWaveExp(object):
                             self.gvec[:, range(n2max)]
 
         # Compute and store T1 and T2
-        self.T1 = self.layer.compute_ft(G1)
-        self.T2 = self.layer.compute_ft(G2)
+        self.T1 = self._layer_ft(G1)
+        self.T2 = self._layer_ft(G2)
 
         # Store the g-vectors to which T1 and T2 correspond
         self.G1 = G1
         self.G2 = G2
 
+    def _layer_ft(self, gvec):
+        """
+        Permittivity of the layer, with the background replaced by eps_eff
+        """
+        FT = self.layer.compute_ft(gvec)
+        if self._use_eps_eff:
+            # The background is everything outside the shapes
+            ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
+            back = 1. * ind0
+            for shape in self.layer.shapes:
+                back = back - shape.compute_ft(gvec) / self.layer.lattice.ec_area
+            FT = FT + (self.eps_eff - self.layer.eps_b) * back
+        return FT
+
     def _compute_eps_inv(self):
         """
         Construct the inverse FT matrix of the permittivity
-- 
2.43.0


From 4cdf65f96cfac90882ab9cf136a741a3dab90e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 31/56] fix: drop the rounding residue of the growing wave in a
 patterned upper cladding, it was divided by zero

---
 legume/gme/slab_modes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 0a2afc0..02cc7df 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -418,6 +418,12 @@ def AB_matrices(omega, g, eps_array, d_array, chi_array=None, pol='TE'):
             term = bd.dot(T_matrices[i + 1], term)
 
         ABs.append(term)
+
+    # The growing wave in the upper cladding is zero at a guided mode; what is
+    # left of it is the accuracy of omega, which must not multiply the integrals
+    # over the cladding, as they diverge for modes with the same chi
+    ABs[-1] = ABs[-1] * np.array([[1], [0]])
+
     return bd.array(ABs, dtype=bd.complex)
 
 
-- 
2.43.0


From 7c7ab676a1bb18fbbdaf832da3eaee1d39d94a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 32/56] fix: 'tbt' permittivity of layers whose Fourier
 components vanish in one quadrant, e.g. diagonal stripes

---
 legume/gme/gme.py | 5 ++++-
 legume/utils.py   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index d697247..98d06c8 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -661,7 +661,10 @@ class GuidedModeExp(object):
                     self.hom_layer = []
                     # For now we just use the numpy inversion. Later on we could
                     # implement the Toeplitz-Block-Toeplitz inversion (faster)
-                    if bd.sum(bd.abs(T1[1:])) < 1e-10 or only_gmodes:
+                    # T1 holds only one quadrant of the components, T2 the other
+                    sum_ft = bd.sum(bd.abs(T1[1:])) + \
+                        bd.sum(bd.abs(self.T2[it][1:]))
+                    if sum_ft < 1e-10 or only_gmodes:
                         self.eps_inv_mat.append(
                             bd.eye(T1.size, T1.size) / T1[0])
                         self.hom_layer.append(True)
diff --git a/legume/utils.py b/legume/utils.py
index 05c1c53..e8eccfc 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -147,7 +147,7 @@ def toeplitz_block(n, T1, T2):
     """
     ntot = T1.shape[0]
     p = int(ntot / n)  # Linear size of each block
-    Tmat = np.zeros((ntot, ntot), dtype=T1.dtype)
+    Tmat = np.zeros((ntot, ntot), dtype=np.result_type(T1, T2))
     for ind1 in range(n):
         for ind2 in range(ind1, n):
             toep1 = T1[(ind2 - ind1) * p:(ind2 - ind1 + 1) * p]
-- 
2.43.0


From fcf967a6dfe20b682cb6db800a512a3bd0d4dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 33/56] fix: bz_path() recognises an interpolated Gamma point
 despite rounding

---
 legume/phc/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legume/phc/lattice.py b/legume/phc/lattice.py
index e37c6cf..f40300e 100644
--- a/legume/phc/lattice.py
+++ b/legume/phc/lattice.py
@@ -160,7 +160,8 @@ class Lattice(object):
         # Angles of wavevectors in (kx,ky) plane
         angs = np.angle(kpoints[0] + 1j * kpoints[1], deg=True)
         #If gamma point is present, force symmetry from 'symm_g'
-        index_g = np.where((kpoints[0] == 0) & (kpoints[1] == 0))
+        # (interpolated points can be a rounding error away from it)
+        index_g = np.where(np.hypot(kpoints[0], kpoints[1]) < 1e-10)
         if len(index_g) != 0:
             ang_g = np.angle(self._parse_point(symm_g)[0] +
                              1j * self._parse_point(symm_g)[1],
-- 
2.43.0


From 1c13ad3cc94336c83fb808746f8aafa7f59dc7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 34/56] fix: guided_modes() finds the modes at a wave vector
 smaller than the one before

---
 legume/gme/slab_modes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index 02cc7df..b99c55c 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -65,7 +65,7 @@ def guided_modes(g_array: np.ndarray,
                 om_ub = min(
                     om_ub,
                     get_value(omegas[-1]) + step +
-                    (g_array[ig] - g_array[ig - 1]))
+                    max(g_array[ig] - g_array[ig - 1], 0))
             """
             Check if the guided mode needs to be computed at all; when using the
             gmode_compute = 'exact' option, there might be identical g-points
-- 
2.43.0


From ee97db21f363acfaebe85014ce7c468876c72c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 35/56] fix: guided_modes() and rad_modes() take the
 polarization in lower or upper case

---
 legume/gme/slab_modes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legume/gme/slab_modes.py b/legume/gme/slab_modes.py
index b99c55c..b791e84 100644
--- a/legume/gme/slab_modes.py
+++ b/legume/gme/slab_modes.py
@@ -443,7 +443,7 @@ def normalization_coeff(omega,
         chi_array = chi(omega, g, eps_array)
     As = ABref[:, 0].ravel()
     Bs = ABref[:, 1].ravel()
-    if pol == 'TM':
+    if pol.lower() == 'tm':
         term1 = (bd.abs(Bs[0])**
                  2) * J_alpha(chi_array[0] - bd.conj(chi_array[0]))
         term2 = (bd.abs(As[-1])**2) * \
@@ -454,7 +454,7 @@ def normalization_coeff(omega,
                 (bd.conj(As[1:-1]) * Bs[1:-1] + As[1:-1] * bd.conj(Bs[1:-1])) *
                 I_alpha(-chi_array[1:-1]-bd.conj(chi_array[1:-1]),d_array)  )
         return term1 + term2 + bd.sum(term3)
-    elif pol == 'TE':
+    elif pol.lower() == 'te':
         term1 = (bd.abs(chi_array[0])**2 + g**2) * \
             (bd.abs(Bs[0])**2) * J_alpha(chi_array[0]-bd.conj(chi_array[0]))
         term2 = (bd.abs(chi_array[-1])**2 + g**2) * \
@@ -518,7 +518,7 @@ def rad_modes(omega: float,
 
         # Normalize
         coeffs = coeffs / coeffs[1, -1]
-        if pol == 'te':
+        if pol.lower() == 'te':
             c_ind = [0, -1]
             coeffs = coeffs / bd.sqrt(eps_array[c_ind[clad]]) / omega
         # Assign correctly based on which cladding the modes radiate to
-- 
2.43.0


From df3d9ae29cbd61239e90c80faf397a5265f88add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:43 +0000
Subject: [PATCH 36/56] fix: gauge-invariant diamagnetic term of the Hopfield
 matrix, off-diagonal elements were conjugated in one block and real in
 another

---
 legume/pol/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/pol/pol.py b/legume/pol/pol.py
index 7d86dec..eb50f91 100644
--- a/legume/pol/pol.py
+++ b/legume/pol/pol.py
@@ -194,7 +194,7 @@ class HopfieldPol(object):
         for n_1 in range(self.N_max):
             for n_2 in range(self.N_max):
                 D[n_1, n_2] = bd.sum(
-                    bd.conj(C[n_1, :]) * C[n_2, :] /
+                    C[n_1, :] * bd.conj(C[n_2, :]) /
                     bd.real(exc.eners[kind, :]))
 
         return C, D
@@ -235,7 +235,7 @@ class HopfieldPol(object):
 
         np.fill_diagonal(diag_exc, exc_el)
 
-        diag_phot = diag_phot + 2 * bd.real(D_final_block)
+        diag_phot = diag_phot + 2 * D_final_block
 
         row_0 = bd.hstack(
             (diag_phot, -1j * C_final_block, -2 * D_final_block,
-- 
2.43.0


From f7e0a56dbbe9abe2f2135a344e3c87e22304c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 37/56] fix: GuidedModeExp with 'abs' truncation and a single
 reciprocal vector

---
 legume/gme/gme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 98d06c8..41b0231 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -472,10 +472,10 @@ class GuidedModeExp(object):
         """
         From numpy 2.0, 'ind_unique' is returned as a two-dimensional array, with older
         numpy it was just a one-dimensional array containing the indexes to reconstruct
-        the original array. We use squeeze() to remove the dimension of length 1 in case
+        the original array. We use ravel() to remove the dimension of length 1 in case
         of numpy =>1.
         """
-        ind_unique = ind_unique.squeeze()
+        ind_unique = ind_unique.ravel()
         num_unique = np.shape(unique)[1]
 
         # Unique g-vectors for calculting f-transform
-- 
2.43.0


From b7fef3f7b5b6d9eb3fbb44ff7e95fb439e63bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 38/56] fix: lbfgs() accepts the starting parameters as a list,
 as adam() does

---
 legume/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index 713c814..e86aa81 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -190,7 +190,7 @@ class Minimize(object):
                             passed in is the current minimizer state
         """
 
-        self.params = pstart
+        self.params = np.array(pstart)
         self.bounds = self._parse_bounds(bounds)
         self.Nepochs = Nepochs
         self.disp_p = disp_p
-- 
2.43.0


From dedbe75953b3a2170ac50a0c026ae96c292e4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 39/56] fix: adam() accepts scipy.minimize-like bounds with
 None on one side

---
 legume/minimize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index e86aa81..ed9f922 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -130,8 +130,11 @@ class Minimize(object):
                 self.params = self.params - step_size * grad_adam
 
             if bounds:
-                lbs = np.array([b[0] for b in self.bounds])
-                ubs = np.array([b[1] for b in self.bounds])
+                # As in SciPy, None stands for no bound
+                lbs = np.array(
+                    [-np.inf if b[0] is None else b[0] for b in self.bounds])
+                ubs = np.array(
+                    [np.inf if b[1] is None else b[1] for b in self.bounds])
                 self.params[self.params < lbs] = lbs[self.params < lbs]
                 self.params[self.params > ubs] = ubs[self.params > ubs]
 
-- 
2.43.0


From d562b1d60b4c2b4442ae30d8813a76e5a5fecea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 40/56] fix: gradients of eigenvectors are finite next to
 degenerate pairs

---
 legume/primitives.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index aa750cb..05893ce 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -118,8 +118,11 @@ def vjp_maker_eigh(ans, x, UPLO='L'):
         # depends on the eigenvalues only.
         if np.any(vg):
             off_diag = np.ones((N, N)) - np.eye(N)
-            F = off_diag / (T(w_repeated) - w_repeated + np.eye(N))
-            vjp_temp += np.dot(np.dot(vc, F * np.dot(T(v), vg)), T(v))
+            dw = T(w_repeated) - w_repeated + np.eye(N)
+            vvg = np.dot(T(v), vg)
+            # Degenerate pairs which the function does not depend on give 0
+            F = off_diag / np.where((dw == 0) & (vvg == 0), 1, dw)
+            vjp_temp += np.dot(np.dot(vc, F * vvg), T(v))
 
         # eigh always uses only the lower or the upper part of the matrix
         # we also have to make sure broadcasting works
-- 
2.43.0


From d1e21ed4d69039a5b163a8c8772dcf15dfc4f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 41/56] fix: keep imaginary part of symmetric permittivity in
 gradients

---
 legume/gme/gme.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 41b0231..ebd499d 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -426,13 +426,14 @@ class GuidedModeExp(object):
             T1 = layer.compute_ft(G1)
             T2 = layer.compute_ft(G2)
 
-            # Store T1 and T2
-            if bd.amax(bd.abs(
+            # Store T1 and T2; the imaginary part has to be kept, even if it is
+            # zero, whenever gradients are propagated through it
+            if get_value(T1) is T1 and bd.amax(bd.abs(
                     bd.imag(T1))) < 1e-10 * bd.amax(bd.abs(bd.real(T1))):
                 self.T1.append(bd.real(T1))
             else:
                 self.T1.append(T1)
-            if bd.amax(bd.abs(
+            if get_value(T2) is T2 and bd.amax(bd.abs(
                     bd.imag(T2))) < 1e-10 * bd.amax(bd.abs(bd.real(T2))):
                 self.T2.append(bd.real(T2))
             else:
-- 
2.43.0


From d0ca78607aa564c5b2c9a3e63403e9346ed93a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 42/56] fix: gradients through layers that are homogeneous only
 by value

---
 legume/gme/gme.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index ebd499d..6fc8bcf 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -656,6 +656,14 @@ class GuidedModeExp(object):
             self._eps_inv_only_gmodes = only_gmodes
             # List of inverse permittivity matrices for every layer
             self.eps_inv_mat = []
+            layers = [self.phc.claddings[0]] + self.phc.layers + \
+                        [self.phc.claddings[1]]
+
+            # A layer with shapes can be homogeneous only by value, and this
+            # is not enough if gradients are propagated through it
+            def may_skip(it):
+                return get_value(self.T1[it]) is self.T1[it] or \
+                    len(layers[it].shapes) == 0
 
             if self.truncate_g == 'tbt':
                 for it, T1 in enumerate(self.T1):
@@ -665,7 +673,7 @@ class GuidedModeExp(object):
                     # T1 holds only one quadrant of the components, T2 the other
                     sum_ft = bd.sum(bd.abs(T1[1:])) + \
                         bd.sum(bd.abs(self.T2[it][1:]))
-                    if sum_ft < 1e-10 or only_gmodes:
+                    if (sum_ft < 1e-10 and may_skip(it)) or only_gmodes:
                         self.eps_inv_mat.append(
                             bd.eye(T1.size, T1.size) / T1[0])
                         self.hom_layer.append(True)
@@ -678,8 +686,6 @@ class GuidedModeExp(object):
                 self.eps_mat = []
                 self.hom_layer = []
 
-                layers = [self.phc.claddings[0]] + self.phc.layers + \
-                                [self.phc.claddings[1]]
                 for it, T1 in enumerate(self.T1):
                     # We are iterating of layers
 
@@ -691,8 +697,8 @@ class GuidedModeExp(object):
                     eps_ft = bd.reshape(
                         T1, (self.gvec[0, :].size, self.gvec[0, :].size))
 
-                    if bd.sum(bd.abs(
-                            T1[mod_G1 > 1e-10])) < 1e-10 or only_gmodes:
+                    sum_ft = bd.sum(bd.abs(T1[mod_G1 > 1e-10]))
+                    if (sum_ft < 1e-10 and may_skip(it)) or only_gmodes:
                         # Here eps is diagonal
                         self.hom_layer.append(True)
                         self.eps_mat.append(
-- 
2.43.0


From 9e09f9fa30a496d0cc548b6752f03f6055324adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:17 +0000
Subject: [PATCH 43/56] fix: gradient of interpolation at and beyond the last
 point of the table

---
 legume/primitives.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 05893ce..93ae8bb 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -243,11 +243,15 @@ def vjp_maker_interp(ans, x, xp, yp):
     """
 
     def vjp(g):
+        if xp.size == 1:
+            return np.sum(g, keepdims=True)
         dydyp = np.zeros((x.size, xp.size))
         ix = np.arange(x.size)
-        indx = np.searchsorted(xp, x[ix]) - 1
-        dydyp[ix, indx] = 1 - (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
-        dydyp[ix, indx + 1] = (x[ix] - xp[indx]) / (xp[indx + 1] - xp[indx])
+        # np.interp is constant outside of the range of xp
+        xc = np.clip(x, xp[0], xp[-1])
+        indx = np.clip(np.searchsorted(xp, xc) - 1, 0, xp.size - 2)
+        dydyp[ix, indx] = 1 - (xc - xp[indx]) / (xp[indx + 1] - xp[indx])
+        dydyp[ix, indx + 1] = (xc - xp[indx]) / (xp[indx + 1] - xp[indx])
         return np.dot(g, dydyp)
 
     return vjp
-- 
2.43.0


From 6fc6df3ea8dbd124fe6b54c22d33695269590a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:04 +0000
Subject: [PATCH 44/56] fix: lbfgs() accepts a list of extra arguments, as
 adam() does

---
 legume/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/minimize.py b/legume/minimize.py
index ed9f922..9ae7948 100644
--- a/legume/minimize.py
+++ b/legume/minimize.py
@@ -239,7 +239,7 @@ class Minimize(object):
 
         res_opt = minimize(of,
                            self.params,
-                           args=args,
+                           args=tuple(args),
                            method='L-BFGS-B',
                            jac=True,
                            bounds=self.bounds,
-- 
2.43.0


From f1cf7b7f0a1815e6f43bf3ffb4f411611980553a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 45/56] fix: vectors exactly at the cutoff were lost by
 rounding

---
 legume/exc/exc.py | 9 ++++-----
 legume/gme/gme.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/legume/exc/exc.py b/legume/exc/exc.py
index f327c09..652e2f5 100644
--- a/legume/exc/exc.py
+++ b/legume/exc/exc.py
@@ -196,11 +196,10 @@ class ExcitonSchroedEq(object):
                 self.phc.lattice.b2[:, np.newaxis].dot(inds2[np.newaxis, :])
         gnorm = np.sqrt(gvec[0, :]**2 + gvec[1, :]**2)
 
-        # Avoid to cut with gmax equal to one of the |G|
-        if self.gmax * 2 * np.pi in gnorm:
-            gmax = self.gmax
-            while gmax * 2 * np.pi in gnorm:
-                gmax += 1e-10
+        # Avoid to cut with gmax equal (up to rounding) to one of the |G|
+        if np.any(np.isclose(gnorm, 2 * np.pi * self.gmax, rtol=1e-12,
+                             atol=0)):
+            gmax = self.gmax * (1 + 1e-10)
 
             gvec = gvec[:, gnorm <= 2 * np.pi * gmax]
             inds1 = inds1[gnorm <= 2 * np.pi * gmax]
diff --git a/legume/gme/gme.py b/legume/gme/gme.py
index 6fc8bcf..4b7ad14 100644
--- a/legume/gme/gme.py
+++ b/legume/gme/gme.py
@@ -231,11 +231,10 @@ class GuidedModeExp(object):
                 self.phc.lattice.b2[:, np.newaxis].dot(inds2[np.newaxis, :])
         gnorm = np.sqrt(gvec[0, :]**2 + gvec[1, :]**2)
 
-        # Avoid to cut with gmax equal to one of the |G|
-        if self.gmax * 2 * np.pi in gnorm:
-            gmax = self.gmax
-            while gmax * 2 * np.pi in gnorm:
-                gmax += 1e-10
+        # Avoid to cut with gmax equal (up to rounding) to one of the |G|
+        if np.any(np.isclose(gnorm, 2 * np.pi * self.gmax, rtol=1e-12,
+                             atol=0)):
+            gmax = self.gmax * (1 + 1e-10)
 
             gvec = gvec[:, gnorm <= 2 * np.pi * gmax]
             inds1 = inds1[gnorm <= 2 * np.pi * gmax]
-- 
2.43.0


From 6b6e7c059253570b64d18742c9e79edb4b7b9ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 46/56] fix: eps_ft and pot_ft in a given gridspec

---
 legume/viz.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 8acc8a4..e23c892 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -949,9 +949,9 @@ def eps_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
@@ -1075,9 +1075,9 @@ def pot_ft(struct,
                                        width_ratios=[1 - cbwidth, cbwidth])
     elif gridspec is not None and fig is not None:
         if cbar == False:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 1, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 1, gridspec)
         else:
-            gs = mpl.gridspec.GridSpecFromSubplotSpec(len(ars), 2, gridspec)
+            gs = mpl.gridspec.GridSpecFromSubplotSpec(N_layers, 2, gridspec)
     else:
         raise ValueError(
             "Parameters gridspec and fig should be both specified "
-- 
2.43.0


From 6534e61bf43d72a7f13c93546adaa10d75e38018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 47/56] fix: bands(Q=True) without any quality factor below the
 clipping value

---
 legume/viz.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index e23c892..ee13cb4 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -115,7 +115,7 @@ def bands(gme,
                 gme.run_im()
             Q = _calculate_Q(gme.freqs.flatten(),
                              np.array(gme.freqs_im).flatten())
-            Q_max = np.max(Q[Q < Q_clip])
+            Q_max = _calculate_Q_max(Q, Q_clip)
 
             p = ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
@@ -137,7 +137,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = _calculate_Q_max(Q, Q_clip)
                 edgecolors = plt.get_cmap('bwr')(
                     (np.asarray(gme.kz_symms).flatten() + 1) / 2)
 
@@ -160,7 +160,7 @@ def bands(gme,
                     gme.run_im()
                 Q = _calculate_Q(gme.freqs.flatten(),
                                  np.array(gme.freqs_im).flatten())
-                Q_max = np.max(Q[Q < Q_clip])
+                Q_max = _calculate_Q_max(Q, Q_clip)
 
                 p = ax.scatter(X.flatten(),
                                conv * gme.freqs.flatten(),
@@ -1467,6 +1467,16 @@ def _calculate_Q(re_w, im_w):
     return Q
 
 
+def _calculate_Q_max(Q, Q_clip):
+    """
+    The largest quality factor below Q_clip, or None
+    (the scale is left to matplotlib) if there is none.
+    """
+    Q_below = Q[(Q > 0) & (Q < Q_clip)]
+
+    return np.max(Q_below) if Q_below.size > 0 else None
+
+
 def _calculate_LL(kpoints, phc, conv):
     """
     Calculates the light line for a
-- 
2.43.0


From 481213bad230aba6138bee6f77f08e9040fee03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 48/56] fix: colours of the parities in bands() when only one
 parity is there

---
 legume/viz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index ee13cb4..5bacfc5 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -192,8 +192,10 @@ def bands(gme,
             if show_symmetry:
                 ax.scatter(X.flatten(),
                            conv * gme.freqs.flatten(),
-                           c=gme.kz_symms,
+                           c=np.asarray(gme.kz_symms).flatten(),
                            cmap='bwr',
+                           vmin=-1,
+                           vmax=1,
                            s=markersize**2,
                            edgecolors=markeredgecolor,
                            linewidth=markeredgewidth)
-- 
2.43.0


From 4bcbe4ff0a4d14730de50a4834d5fe28bb433f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 49/56] fix: pol_bands(fraction=True) at a single wave vector

---
 legume/viz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/viz.py b/legume/viz.py
index 5bacfc5..3e095ae 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -317,7 +317,7 @@ def pol_bands(pol,
                        linewidth=markeredgewidth)
         plt.colorbar(p, ax=ax, label="Radiative quality factor", extend="max")
     elif fraction:
-        fractions = pol.fractions_ex
+        fractions = np.asarray(pol.fractions_ex).flatten()
         p = ax.scatter(X.flatten(),
                        pol.eners.flatten(),
                        c=fractions,
-- 
2.43.0


From a5798b3306c7c61bfb2f4729ec86f2424f6dc921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 50/56] fix: outlines of ellipses in viz.shapes

---
 legume/viz.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/legume/viz.py b/legume/viz.py
index 3e095ae..2e03cfa 100644
--- a/legume/viz.py
+++ b/legume/viz.py
@@ -4,7 +4,7 @@ import numpy as np
 from legume.utils import from_freq_to_e
 import warnings
 from .gme import GuidedModeExp
-from .phc import PhotCryst, Circle
+from .phc import PhotCryst, Circle, Ellipse
 from .pwe import PlaneWaveExp
 from .exc import ExcitonSchroedEq
 from .pol import HopfieldPol
@@ -659,12 +659,21 @@ def shapes(layer, ax=None, npts=101, color='k', lw=1, pad=True):
                                  lw=lw,
                                  npts=npts)
         else:
-            # Everything else should be a Poly subclass
-            ax.plot(shape.x_edges, shape.y_edges, c=color, lw=lw)
+            if type(shape) == Ellipse:
+                phi = np.linspace(0, 2 * np.pi, npts)
+                u, v = shape.rx * np.cos(phi), shape.ry * np.sin(phi)
+                xs = shape.x_cent + u * np.cos(shape.phi) - v * np.sin(
+                    shape.phi)
+                ys = shape.y_cent + u * np.sin(shape.phi) + v * np.cos(
+                    shape.phi)
+            else:
+                # Everything else should be a Poly subclass
+                xs, ys = shape.x_edges, shape.y_edges
+            ax.plot(xs, ys, c=color, lw=lw)
             if pad == True:
                 for (x_p, y_p) in xy_p:
-                    ax.plot(shape.x_edges + x_p,
-                            shape.y_edges + y_p,
+                    ax.plot(xs + x_p,
+                            ys + y_p,
                             c=color,
                             lw=lw)
     ax.set_xlim(xext)
-- 
2.43.0


From aa19b98cb5f2ead5cea0eb9382e8e3f580aac448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:52 +0000
Subject: [PATCH 51/56] fix: numerical gradients with steps of any number type,
 at integer arrays

---
 legume/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legume/utils.py b/legume/utils.py
index e8eccfc..2096e54 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -88,13 +88,14 @@ def grad_num(fn, arg, step_size=1e-7):
     gradient = np.zeros((N, ))
     f_old = fn(arg)
 
-    if type(step_size) == float:
+    if np.ndim(step_size) == 0:
         step = step_size * np.ones((N))
     else:
-        step = step_size.ravel()
+        step = np.ravel(step_size)
 
     for i in range(N):
-        arg_new = arg.flatten()
+        # An array of integers cannot take the step
+        arg_new = arg.flatten() + 0.
         arg_new[i] += step[i]
         f_new_i = fn(arg_new.reshape(shape))
         gradient[i] = (f_new_i - f_old) / step[i]
-- 
2.43.0


From 569d5fbb4f082e364ccedea7c87a605ce04aae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:52 +0000
Subject: [PATCH 52/56] fix: the vjp of a numerical gradient has the shape of
 its argument

---
 legume/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/utils.py b/legume/utils.py
index 2096e54..6bba2b1 100644
--- a/legume/utils.py
+++ b/legume/utils.py
@@ -127,7 +127,7 @@ def vjp_maker_num(fn, arg_inds, steps):
                     dfn_darg = (fn(*args_new) - fn_out) / step
                     vjp_num[ip] = np.sum(v * dfn_darg)
 
-                return vjp_num
+                return vjp_num.reshape(shape)
 
             return vjp
 
-- 
2.43.0


From 5bfe2e16119e61d5849911cefc5fc4872463c312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 53/56] fix: is_array with the autograd backend

---
 legume/backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/legume/backend.py b/legume/backend.py
index a3dd159..56b5e51 100644
--- a/legume/backend.py
+++ b/legume/backend.py
@@ -15,7 +15,7 @@ import numpy as np
 import scipy as sp
 from scipy import sparse
 # Import some specially written functions
-from .utils import toeplitz_block, fsolve, extend
+from .utils import toeplitz_block, fsolve, extend, get_value
 
 # Import autograd if available
 try:
@@ -181,6 +181,10 @@ if AG_AVAILABLE:
         # Differentiable w.r.t. the numpy array.
         spdot = staticmethod(spdot_ag)
 
+        def is_array(self, arr):
+            """ check if an object is an array """
+            return isinstance(get_value(arr), np.ndarray)
+
         # constructors
         diag = staticmethod(npa.diag)
         array = staticmethod(npa.array)
-- 
2.43.0


From cf3af0417a996a31ed4ee36a755b6e31e6d274e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 54/56] fix: undefined names in the vjp of eig

---
 legume/primitives.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 93ae8bb..57f8206 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -355,14 +355,14 @@ def vjp_maker_eig(ans, x):
 
     def vjp(g):
         ge, gu = g
-        ge = _matrix_diag(ge)
+        ge = np.diag(ge)
         f = 1 / (e[..., np.newaxis, :] - e[..., :, np.newaxis] + 1.e-20)
-        f -= _diag(f)
+        f -= np.diag(np.diag(f))
         ut = np.swapaxes(u, -1, -2)
-        r1 = f * _dot(ut, gu)
-        r2 = -f * (_dot(_dot(ut, np.conj(u)),
-                        np.real(_dot(ut, gu)) * np.eye(n)))
-        r = _dot(_dot(inv(ut), ge + r1 + r2), ut)
+        r1 = f * np.dot(ut, gu)
+        r2 = -f * (np.dot(np.dot(ut, np.conj(u)),
+                          np.real(np.dot(ut, gu)) * np.eye(n)))
+        r = np.dot(np.dot(np.linalg.inv(ut), ge + r1 + r2), ut)
         if not np.iscomplexobj(x):
             r = np.real(r)
             # the derivative is still complex for real input (imaginary delta is allowed), real output
-- 
2.43.0


From d940b5c57353b80fccca10644652dcb97d4464f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 55/56] fix: eigsh gradients: conjugate gradients fail for an
 indefinite matrix

---
 legume/primitives.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/legume/primitives.py b/legume/primitives.py
index 57f8206..c7a4b66 100644
--- a/legume/primitives.py
+++ b/legume/primitives.py
@@ -1,5 +1,6 @@
 import numpy as np
 import scipy.sparse as sp
+from scipy.linalg import lstsq
 from functools import partial
 from .utils import toeplitz_block, get_value, fsolve, extend
 
@@ -214,11 +215,9 @@ def vjp_maker_eigsh(ans, mat, **kwargs):
                 Amat = T(mat - a * np.eye(N, N))
                 b = P.dot(vg)
 
-                # Initial guess orthogonal to v
-                v0 = P.dot(np.random.randn(N))
-
-                # Find a solution lambda_0 using conjugate gradient
-                (l0, _) = sp.linalg.cg(Amat, b, x0=v0, atol=0)
+                # Find the least-norm solution lambda_0 (Amat is singular, and
+                # indefinite)
+                l0 = lstsq(Amat, b, cond=1e-12, lapack_driver='gelsy')[0]
                 # Project to correct for round-off errors
                 l0 = P.dot(l0)
 
-- 
2.43.0


From d3a26a9067bd3561c1e1c17cd25d1dbeed1109b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 56/56] fix: negative exciton potentials with differentiable
 parameters

---
 legume/phc/layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/legume/phc/layer.py b/legume/phc/layer.py
index 076be79..363471f 100644
--- a/legume/phc/layer.py
+++ b/legume/phc/layer.py
@@ -172,7 +172,7 @@ class ShapesLayer(Layer):
         ind0 = bd.abs(gvec[0, :]) + bd.abs(gvec[1, :]) < 1e-10
         # If the first element corresponding to V(0) is negative we shift the energies by Vmax
         if FT[ind0][0] < 0:
-            FT[ind0] += bd.abs(Vmax)
+            FT = FT + bd.abs(Vmax) * ind0
         ### k near zero could be explicitly set to the potential average value, to be done!
 
         return FT
-- 
2.43.0

