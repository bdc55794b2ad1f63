From eb0b84c6dcbde5f2b11f8701e623dc9c3571a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 01/17] fix: IsotropicMaterial could not be built without
 allowables

The default None was rejected by the number validator; use 0 as OrthotropicMaterial does.
---
 composipy/core/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/material.py b/composipy/core/material.py
index a86e994..e29b782 100644
--- a/composipy/core/material.py
+++ b/composipy/core/material.py
@@ -225,9 +225,9 @@ class IsotropicMaterial(Material):
             v, 
             g, 
             thickness, 
-            t=None, 
-            c=None, 
-            s=None, 
+            t=0, 
+            c=0, 
+            s=0, 
             name=None):
         self.__e = self._float_number(e, n_min=0, name='e')
         self.__v = self._float_number(v, n_min=-0.5, n_max=0.5, name='v')
-- 
2.43.0


From 1d77d06d0302631369fd28bfd798ba073ed21a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 02/17] fix: xiA and xiD of a laminate defined by lamination
 parameters

They iterated over the single Material and raised TypeError; return the given parameters.
---
 composipy/core/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 3ad2ae3..672d1e5 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -273,6 +273,8 @@ class LaminateProperty(Property):
     @property
     def xiA(self):
         '''Lamination parameter xiA'''
+        if isinstance(self.stacking, dict):
+            return None if self._xiA is None else np.array(self._xiA)
         xiA = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
@@ -290,6 +292,8 @@ class LaminateProperty(Property):
     @property
     def xiD(self):
         '''Lamination parameter xiD'''
+        if isinstance(self.stacking, dict):
+            return np.array(self._xiD)
         xiD = np.zeros(4)
         T = sum([ply.thickness for ply in self.plies])        
         for i, angle in enumerate(self.stacking):
-- 
2.43.0


From 0e66794fd3416bd6796435516c7039347d31bc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 03/17] fix: raise KeyError when xiD or T is missing from a
 lamination parameter definition

---
 composipy/core/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 672d1e5..7d6d8c0 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -83,11 +83,11 @@ class LaminateProperty(Property):
             try: 
                 xiD = stacking['xiD']
             except KeyError:
-                KeyError('xiD must be a key')
+                raise KeyError('xiD must be a key')
             try:
                 total_thickness = stacking['T']
             except KeyError:
-                KeyError('T must be a key')
+                raise KeyError('T must be a key')
             layup = []
 
         self.stacking = stacking
-- 
2.43.0


From 178e13aa94c85830f8fc6014dee50d5d368bf850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 04/17] fix: position labels of the maximum stress margins were
 exchanged

The stress rows they belong to are bottom first, then top.
---
 composipy/core/strength.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/strength.py b/composipy/core/strength.py
index 051af70..8801e35 100644
--- a/composipy/core/strength.py
+++ b/composipy/core/strength.py
@@ -370,8 +370,8 @@ class LaminateStrength():
         for allowable123, theta in zip(allowablek_123, stacking):
             data['ply'].append(cur_ply)
             data['ply'].append(cur_ply)
-            data['position'].append('top')
             data['position'].append('bot')
+            data['position'].append('top')
             data['angle'].append(theta)
             data['angle'].append(theta)
             data['t1'].append(allowable123[0])
-- 
2.43.0


From cfdd820b34b4dd922c96844d0a4da8559df0d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 05/17] fix: A66 term of k11 scales with a/b

---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 6a95f43..8cbbca4 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -14,7 +14,7 @@ def calc_K11_ijkl(a, b, ui, uj, uk, ul, A11, A16, A66):
     k11 = (
         A11 * (b/a) *  uxi_ij_uxi_kl
         + A16 * (uxi_ij_ueta_kl+ueta_ij_uxi_kl)
-        + A66 * (b/a) * ueta_ij_ueta_kl)
+        + A66 * (a/b) * ueta_ij_ueta_kl)
     return k11
 
 
-- 
2.43.0


From 44b295e54527be47c449e310b279f04224aefd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 06/17] fix: B11 and B26 coefficients of k13

---
 composipy/pre_integrated_component/build_k.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index 8cbbca4..f662fe4 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -48,10 +48,10 @@ def calc_k13_ijkl(a, b, ui, uj, wk, wl, B11, B12, B16, B26, B66):
     ueta_w = ii_ff(uiwk) * ii_fxi_f(ujwl)
 
     k13 = (
-        -(2*b/a) * B11 * uxi_ij_wxixi_kl
+        -(2*b/a**2) * B11 * uxi_ij_wxixi_kl
         -(2/b) * B12 * uxi_wetaeta
         -(2/a) * B16 * (2*uxi_wxieta + ueta_wxixi)
-        -(2/b**2) * B26 * ueta_wetaeta
+        -(2*a/b**2) * B26 * ueta_wetaeta
         -(4/b) * B66 * ueta_wxieta
     )
 
-- 
2.43.0


From e4e43c3e7b405c668e28263963b9b8e838f5a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 07/17] fix: A16 term of k21 scales with b/a

---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index f662fe4..de0d4b7 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -68,7 +68,7 @@ def calc_k21_ijkl(a, b, vi, vj, uk, ul, A12, A16, A26, A66):
 
     k21 = (
         A12 * veta_ij_uxi_kl
-        + A16 * (a/b) * vxi_ij_uxi_kl
+        + A16 * (b/a) * vxi_ij_uxi_kl
         + A26 * (a/b) * veta_ij_ueta_ij
         + A66 * vxi_ij_ueta_kl
     )
-- 
2.43.0


From 9e86905498dd6daf4e4178bd05101e6d72499158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 08/17] fix: order of derivatives in the B11 term of k31

---
 composipy/pre_integrated_component/build_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/pre_integrated_component/build_k.py b/composipy/pre_integrated_component/build_k.py
index de0d4b7..74ec3a8 100644
--- a/composipy/pre_integrated_component/build_k.py
+++ b/composipy/pre_integrated_component/build_k.py
@@ -115,7 +115,7 @@ def calc_k23_ijkl(a, b, vi, vj, wk, wl, B12, B16, B22, B26, B66):
 def calc_k31_ijkl(a, b, wi, wj, uk, ul, B11, B12, B16, B26, B66):
     wiuk = (wi, uk)
     wjul = (wj, ul)
-    wxixi_uxi = ii_fxi_fxixi(wiuk) * ii_ff(wjul)
+    wxixi_uxi = ii_fxixi_fxi(wiuk) * ii_ff(wjul)
     wetaeta_uxi = ii_f_fxi(wiuk) * ii_fxixi_f(wjul)
     wetaeta_ueta = ii_ff(wiuk) * ii_fxixi_fxi(wjul)
     wxieta_ueta = ii_fxi_f(wiuk) * ii_fxi_fxi(wjul)
-- 
2.43.0


From 5fd430100a2916aba5002665f2669a77b39b5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 09/17] fix: the v-w block of the ABD stiffness matrix is k23

---
 composipy/core/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index af29633..c16cd3a 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -318,7 +318,7 @@ class PlateStructure(Structure):
 
         K = np.vstack([
         np.hstack([k11, k12, k13]),
-        np.hstack([k21, k22, k31]),
+        np.hstack([k21, k22, k23]),
         np.hstack([k31, k32, k33])
         ])
 
-- 
2.43.0


From e127a9fc9a698ee09a21f5ac41f7bf8794e32aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 10/17] fix: edge conditions of v and w along y were taken from
 u

---
 composipy/core/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index c16cd3a..9d9a90b 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -251,8 +251,8 @@ class PlateStructure(Structure):
             wn.remove(3)
         
         um, un = um[0:self.m], un[0:self.n]
-        vm, vn = vm[0:self.m], un[0:self.n]
-        wm, wn = wm[0:self.m], un[0:self.n]
+        vm, vn = vm[0:self.m], vn[0:self.n]
+        wm, wn = wm[0:self.m], wn[0:self.n]
 
         uidx = list(product(um, un, um, un))
         vidx = list(product(vm, vn, vm, vn))
-- 
2.43.0


From e9c7db448c5d144aaa9edc7b437eede0869c9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 11/17] fix: buckling analysis missed the critical load when
 the loads exceed it

The shift made eigsh return the load factors nearest to 1; the critical factor is -1 over the algebraically smallest eigenvalue.
---
 composipy/core/structure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 9d9a90b..1b74222 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -392,10 +392,8 @@ class PlateStructure(Structure):
             ti = time()
             print('Calculating eigenvalues')
         k = min(num_eigvalues, KG.shape[0]-2)
-        mode = 'cayley'
-
         eigvals, eigvecs = eigsh(A=KG, k=k,
-              which='SM', M=K, tol=tol, sigma=1., mode=mode)
+              which='SA', M=K, tol=tol)
         
         eigvals = -1./eigvals
     
-- 
2.43.0


From ac0ad77bd83743fa54307ba460fc870d59e37f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 12/17] fix: plot_eigenvalue failed when ngridx and ngridy
 differ

---
 composipy/core/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 1b74222..32b9558 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -417,10 +417,10 @@ class PlateStructure(Structure):
         xi_arr = np.linspace(-1, 1, ngridx)
         eta_arr = np.linspace(-1, 1, ngridy)
         xi_mesh, eta_mesh = np.meshgrid(xi_arr, eta_arr)
-        z = np.zeros(ngridx*ngridy).reshape(ngridx, ngridy)
+        z = np.zeros(ngridx*ngridy).reshape(ngridy, ngridx)
 
-        for i in range(ngridx):
-            for j in range(ngridy):
+        for i in range(ngridy):
+            for j in range(ngridx):
                 sw = sxieta(self.sw_idx, xi_mesh[i, j], eta_mesh[i, j])
                 wij = float((sw @ cw_values))
                 z[i, j] = wij
-- 
2.43.0


From fff68cf018cd0c4bd7b60d1e0c5cd14ce6653f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 13/17] fix: NaN passed the range validation of numbers

---
 composipy/utils/validators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/composipy/utils/validators.py b/composipy/utils/validators.py
index 139df7b..3cb7c90 100644
--- a/composipy/utils/validators.py
+++ b/composipy/utils/validators.py
@@ -8,9 +8,9 @@ class ComposipyValidator:
             value = float(value)
         except:
             raise ValueError(f'{name} Must be a real number')
-        if n_min is not None and value < n_min:
+        if n_min is not None and not value >= n_min:
             raise ValueError(f'{name} must be at least {n_min}')
-        if n_max is not None and value > n_max:
+        if n_max is not None and not value <= n_max:
             raise ValueError(f'{name} cannot exceed {n_max}')
         return value
 
@@ -22,9 +22,9 @@ class ComposipyValidator:
             raise ValueError(f'{name} Must be a integer number')        
         if not float.is_integer(value):
             raise ValueError(f'{name} Must be a integer number')        
-        if n_min is not None and value < n_min:
+        if n_min is not None and not value >= n_min:
             raise ValueError(f'{name} must be at least {n_min}')
-        if n_max is not None and value > n_max:
+        if n_max is not None and not value <= n_max:
             raise ValueError(f'{name} cannot exceed {n_max}')
         return int(value)
     
-- 
2.43.0


From 3f825fa05ae0300917c6e31b1958e22551ed319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 14/17] fix: an upper case symmetry mark in a stacking string
 was not removed

---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 249dfb1..79a96e4 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -58,7 +58,7 @@ def build_sequence(stacking):
     '''
     stacking = stacking.strip()
     is_symmetric = stacking[-1].lower() == 's'
-    stacking = stacking.replace('s', '')
+    stacking = stacking.replace('s', '').replace('S', '')
     is_stacking = (stacking[0] == '['
                    and stacking[-1] == ']')
     stacking = stacking.replace('[', '').replace(']', '')
-- 
2.43.0


From 3179208804956bb0cde53daffd88d76abfc48db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:41 +0000
Subject: [PATCH 15/17] fix: continuation mark of PCOMP plies was glued to the
 output request

---
 composipy/nastranapi/pcomp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/composipy/nastranapi/pcomp_generator.py b/composipy/nastranapi/pcomp_generator.py
index 79a96e4..139efe4 100644
--- a/composipy/nastranapi/pcomp_generator.py
+++ b/composipy/nastranapi/pcomp_generator.py
@@ -196,7 +196,7 @@ def build_pcomp(sequence, midi, ti, pid=1, z0='',sout='FIBER'):
         i1 = i + 1
         body += f'+,{midi[i0]},{ti[i0]},{sequence[i0]},{sout[i0]},'
         try:
-            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]}+\n'
+            body += f'{midi[i1]},{ti[i1]},{sequence[i1]},{sout[i1]},+\n'
         except IndexError:
             body = body[0:-1] # removes last comma
     
-- 
2.43.0


From e34c4c399741d1ef9b1ae9f4023c134d5a897803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 16/17] fix: laminates defined by lamination parameters always
 compared equal

Their layup is empty; compare the lamination parameters, the thickness and the material.
---
 composipy/core/property.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/composipy/core/property.py b/composipy/core/property.py
index 7d6d8c0..c3dab45 100644
--- a/composipy/core/property.py
+++ b/composipy/core/property.py
@@ -317,6 +317,14 @@ class LaminateProperty(Property):
 #Comparisons
     def __eq__(self, other):
         if isinstance(other, LaminateProperty):
+            if isinstance(self.stacking, dict) or isinstance(other.stacking, dict):
+                return (isinstance(self.stacking, dict)
+                        and isinstance(other.stacking, dict)
+                        and self._total_thickness == other._total_thickness
+                        and np.array_equal(self._xiA, other._xiA)
+                        and np.array_equal(self._xiB, other._xiB)
+                        and np.array_equal(self._xiD, other._xiD)
+                        and self.plies == other.plies)
             return (self.layup == other.layup)
         return NotImplemented
 
-- 
2.43.0


From de8fbd3d747d215375f0ed2b0cb5c3066bcb9874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:09 +0000
Subject: [PATCH 17/17] fix: edge names were ignored when another edge was
 given as a list

---
 composipy/core/structure.py | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/composipy/core/structure.py b/composipy/core/structure.py
index 32b9558..71df1eb 100644
--- a/composipy/core/structure.py
+++ b/composipy/core/structure.py
@@ -157,12 +157,7 @@ class PlateStructure(Structure):
             y0 = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             yb = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
 
-        elif (
-            isinstance(self.constraints['x0'], str)
-            and isinstance(self.constraints['xa'], str)
-            and isinstance(self.constraints['y0'], str)
-            and isinstance(self.constraints['yb'], str)
-        ):
+        else:
             boundary_conditions = {
                  'free': [],
                  'pinned': ['TX', 'TY', 'TZ'],
@@ -170,23 +165,10 @@ class PlateStructure(Structure):
                  'fixed': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ'],
                  'clamped': ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
             }
-            x0 = boundary_conditions[
-                 self.constraints['x0'].lower()
-            ]
-            xa = boundary_conditions[
-                 self.constraints['xa'].lower()
-            ]
-            y0 = boundary_conditions[
-                 self.constraints['y0'].lower()
+            x0, xa, y0, yb = [
+                 boundary_conditions[edge.lower()] if isinstance(edge, str) else edge
+                 for edge in [self.constraints[key] for key in ('x0', 'xa', 'y0', 'yb')]
             ]
-            yb = boundary_conditions[
-                 self.constraints['yb'].lower()
-            ]
-        else:
-            x0 = self.constraints['x0']
-            xa = self.constraints['xa']
-            y0 = self.constraints['y0']
-            yb = self.constraints['yb']
 
         sm = [i for i in range(self.m+4)]
         sn = [i for i in range(self.n+4)]
-- 
2.43.0

