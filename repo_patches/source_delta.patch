From 98ad49ee4bac664eef8328264ae7e5fac153deac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:00 +0000
Subject: [PATCH 01/60] fix: BravaisLattice used np.alen, which numpy 1.23
 removed, so no Bravais lattice could be constructed

---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index b4756bb..9670303 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -33,14 +33,14 @@ class BravaisLattice(Lattice):
             if not latID in range(1, 15):
                 raise ValueError('3D Bravais lattice ID must between 1 and 14')
             pramlen = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6] 
-            if not np.alen(latParam) == pramlen[latID - 1]:
+            if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
         if dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
-            if not np.alen(latParam) == pramlen[latID-1]:
+            if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
 
-- 
2.43.0


From 0131b916928925fa10105efe3da3a96a51468609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 02/60] fix: a lattice compared equal to its proper sublattices
 (integer but not unimodular change of base)

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 351b0a1..2ff74a0 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -181,7 +181,7 @@ class Lattice():
         # E1 A = E2
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
-        return np.allclose(A, A_int, atol=1E-8)
+        return np.allclose(A, A_int, atol=1E-8) and np.rint(abs(la.det(A_int))) == 1
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
-- 
2.43.0


From b4f0e9c42f75a52ebdfa85f9fd094611182ebf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 03/60] fix: symmetry of trigonal lattices in hexagonal axes
 and of rotated 2D hexagonal lattices was lost

---
 structrans/crystallography/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 2ff74a0..eafe5ac 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -94,7 +94,7 @@ class Lattice():
             raise AttributeError('Laue groups for other than 2D and 3D lattices are not implemented yet.')
         if self.__LaueGroup is None and self.dimension() == 3:
             self.__LaueGroup = MatrixGroup(np.array([Q for Q in CUBIC_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__LaueGroup.order() == 4:
+            if self.__LaueGroup.order() < HEX_LAUE_GROUP.order():
                 hexgroup = MatrixGroup(np.array([Q for Q in HEX_LAUE_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexgroup.order() > self.__LaueGroup.order():
                     self.__LaueGroup = hexgroup
@@ -123,7 +123,7 @@ class Lattice():
             self.__pointGroup = MatrixGroup(np.append(lg, -lg, axis=0))
         elif self.__pointGroup is None and self.__N == 2:
             self.__pointGroup = MatrixGroup(np.array([Q for Q in SQUARE_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
-            if self.__pointGroup.order() == 4:
+            if self.__pointGroup.order() <= 4:
                 hexGroup = MatrixGroup(np.array([Q for Q in HEX2D_EXT_GROUP.matrices() if self.inpointgroup(Q)]))
                 if hexGroup.order() > self.__pointGroup.order():
                     self.__pointGroup = hexGroup
-- 
2.43.0


From 40e6f30b6a5c5438839434a7bf7ed1d1592ff1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 04/60] fix: getlatticegroup() returned the special lattice
 group

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index eafe5ac..59c9a2e 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -167,7 +167,7 @@ class Lattice():
 
     def getlatticegroup(self):
         warn("getlatticegroup() is deprecated, please use lattice_group() instead.", DeprecationWarning)
-        return self.special_lattice_group()
+        return self.lattice_group()
 
     def __eq__(self, other):
         if not isinstance(other, Lattice):
-- 
2.43.0


From 8fcc091a2e1d8e7e1caff082837196e863141562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 05/60] fix: toPrimitive() and toConventional() dropped their
 argument and always raised

---
 structrans/crystallography/bravais_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 9670303..3530efd 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -348,7 +348,7 @@ class BravaisLattice(Lattice):
 
     def toPrimitive(self, idx):
         warn("toPrimitive() is deprecated, please use to_primitive() instead.", DeprecationWarning)
-        return self.to_primitive()
+        return self.to_primitive_Miller(idx)
 
     def to_conventional_Miller(self, idx):
         """
@@ -375,4 +375,4 @@ class BravaisLattice(Lattice):
 
     def toConventional(self, idx):
         warn("toConventional() is deprecated, please use to_conventional_Miller() instead.", DeprecationWarning)
-        return self.to_conventional_Miller()
\ No newline at end of file
+        return self.to_conventional_Miller(idx)
\ No newline at end of file
-- 
2.43.0


From aaa147f03f43a23cbaca67bea1f63ad8b5ba16d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 06/60] fix: the description of a triclinic lattice showed b as
 alpha

---
 structrans/crystallography/bravais_lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 3530efd..7abc81b 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -253,8 +253,10 @@ class BravaisLattice(Lattice):
             if self.__latID in range(8, 15):
                 des_str = des_str+',    c = {:g}'.format(self.__latParam[2])
             # print alpha if it exists
-            if self.__latID in [5, 14]:
+            if self.__latID == 5:
                 des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[1])
+            if self.__latID == 14:
+                des_str = des_str+u',    alpha = {:g}'.format(self.__latParam[3])
             # print beta if it exists
             if self.__latID in np.array([12., 13.]):
                 des_str = des_str+u',    beta = {:g}'.format(self.__latParam[3])
-- 
2.43.0


From 2c5636ee4354bbb9eb88accb31353092d49c8d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 07/60] fix: LLL could not reduce a base with integer entries

---
 structrans/crystallography/lattice_reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 15c85b2..bb871bc 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -54,7 +54,7 @@ def LLL(E):
 
     Niter = 0
 
-    B = E.copy()
+    B = np.array(E, dtype='float')
     while Niter < 1000 and swap:
         B = Gauss_reduction(B).copy()
         swap, i = swapping(B)
-- 
2.43.0


From 69d4d8cc6732ab37605d705a003c5409f1acb529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 08/60] fix: LLL returned a tuple instead of the base when it
 took exactly 100 iterations

---
 structrans/crystallography/lattice_reduction.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index bb871bc..97ab5ab 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -64,9 +64,6 @@ def LLL(E):
             B[:, i + 1] = b
         Niter += 1
 
-    if Niter == 100:
-        return B, False
-
     if not copysign(1, la.det(B)) == copysign(1, la.det(E)):
         B[:, 0] = -B[:, 0]
 
-- 
2.43.0


From 5685422e9544e149dbabff96c2d8b33e776a8c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 09/60] fix: LLL did not size-reduce, it rounded stale
 Gram-Schmidt coefficients

---
 structrans/crystallography/lattice_reduction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice_reduction.py b/structrans/crystallography/lattice_reduction.py
index 97ab5ab..ad51190 100644
--- a/structrans/crystallography/lattice_reduction.py
+++ b/structrans/crystallography/lattice_reduction.py
@@ -22,9 +22,10 @@ def Gauss_reduction(E):
     Eo, M = Gram_Schmidt(E)
     B = E.copy()
     for i in xrange(d):
-        for j in xrange(i):
+        for j in reversed(xrange(i)):
             m = np.round(M[i, j])
             B[:, i] -= m * B[:, j]
+            M[i] -= m * M[j]
     return B
 
 
-- 
2.43.0


From 00c47a0e0986109eed1c05f0baa69abb5ae360a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 10/60] fix: rotation() about an axis along -x was NaN

---
 structrans/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index c346d3f..0219dde 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -72,7 +72,7 @@ def rotation(angle, axis, unit="deg"):
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
     t = radians(angle) if unit is "deg" else angle
-    if z.dot(np.array([1, 0, 0])) < 0.9:
+    if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
         z2 = np.cross(z, z1)
-- 
2.43.0


From ba56486a5dc57067b3ecac3c4aae104257710396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 11/60] fix: angle unit was compared by identity, so an equal
 string could be taken for radians

---
 structrans/util/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 0219dde..6683bd9 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -59,7 +59,7 @@ def Euler(angles, order="ZXZ", unit="deg"):
         if a not in "XYZxyz":
             raise ValueError("unknown rotation axis {:s}", a)
         else:
-            angle = radians(angles[i]) if unit is "deg" else angles[i]
+            angle = radians(angles[i]) if unit == "deg" else angles[i]
             R = canonical_rotation[a.upper()](angle).dot(R)
     return R
 
@@ -71,7 +71,7 @@ def rotation(angle, axis, unit="deg"):
 
     a = axis if isinstance(axis, np.ndarray) else np.array(axis)
     z = a/la.norm(a)
-    t = radians(angle) if unit is "deg" else angle
+    t = radians(angle) if unit == "deg" else angle
     if abs(z.dot(np.array([1, 0, 0]))) < 0.9:
         # z is not parallel to e1
         z1 = np.cross(z, np.array([1, 0, 0]))
-- 
2.43.0


From 0289b8d25f9607e732f2d51d9786dbd6338ede67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 12/60] fix: setLaue(5) used a degenerate rhombohedral cell
 (alpha = 120) and got the cubic Laue group

---
 structrans/marttrans/martensite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index bde6f1a..ed79e89 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -76,7 +76,7 @@ class Martensite():
         """
         latParam = [2, 2, 2,
                     [2, 3],
-                    [2, 120],
+                    [2, 80],
                     [1.41, 2], [1.41, 2],
                     [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2],
                     [1.41, 1.42, 2, 89], [1.41, 1.42, 2, 89],
-- 
2.43.0


From 6faa371efe109ef5890c4a8d69c8a70520a9e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:50 +0000
Subject: [PATCH 13/60] fix: twin parameters could not be solved because the
 axis array was compared with == None

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 5cc9bb8..47bc72c 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -396,7 +396,7 @@ def _solvetwin(U, Uj, e):
     """
     find the two solutions to the twinning equation
     """
-    if not e == None:
+    if e is not None:
         ehat = e/la.norm(e)
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
-- 
2.43.0


From a04d3dd9995351672307f41868922174816f866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 14/60] fix: twin parameters of a pair without exact 180 degree
 axis did not solve the twinning equation

---
 structrans/marttrans/twin.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 47bc72c..fd59895 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -421,13 +421,15 @@ def _solvetwin(U, Uj, e):
             return None
     else:
         cmix = np.dot(la.inv(U).dot(Uj), Uj.dot(la.inv(U)))
-        (Q1, hat_a1, hat_n1), (Q2, hat_a2, hat_n2) = _solve_am(cmix)
-        rho1 = U.T.dot(hat_n1)
-        rho2 = U.T.dot(hat_n2)
+        (_, hat_a1, hat_n1), (_, hat_a2, hat_n2) = _solve_am(cmix)
+        rho1 = la.norm(U.T.dot(hat_n1))
+        rho2 = la.norm(U.T.dot(hat_n2))
         n1 = U.T.dot(hat_n1)/rho1
         a1 = rho1*hat_a1
         n2 = U.T.dot(hat_n2)/rho2
         a2 = rho2*hat_a2
+        Q1 = (U + np.outer(a1, n1)).dot(la.inv(Uj))
+        Q2 = (U + np.outer(a2, n2)).dot(la.inv(Uj))
         return (Q1, a1, n1), (Q2, a2, n2)
 
 def _solve_f(U, a, n):
-- 
2.43.0


From 54272c4115d7a414e98391f821eb63fc0d3eb5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 15/60] fix: twin parameters of variants of a non-cubic parent
 were lost (only cubic variants were recognized)

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index fd59895..416a58a 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -401,7 +401,7 @@ def _solvetwin(U, Uj, e):
         Uinv = la.inv(U)
         R180 = -np.eye(3) + 2*np.outer(ehat, ehat)
         uj = np.dot(R180.dot(U), R180.T)
-        if _isvariant(U, uj):
+        if np.allclose(uj, Uj):
             n1 = e
             denominator = np.dot(np.dot(Uinv, e), np.dot(Uinv, e))
             a1 = 2 * (Uinv.dot(e)/denominator - U.dot(e))
-- 
2.43.0


From c7c9bb2d0f42ea46909ffd1fc8797e7eda4f5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 16/60] fix: a twin satisfying only the second cofactor
 condition was reported compatible with f = 0

---
 structrans/marttrans/twin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index 416a58a..c289cf2 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -443,7 +443,7 @@ def _solve_f(U, a, n):
     beta = la.det(U.dot(U)-np.eye(3)) + minus_alpha / 4.0
 
     if abs(minus_alpha) < SMALL:
-        return 0
+        return 0 if abs(beta) < SMALL else None
     elif beta/minus_alpha > 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
         if abs(1 - f) < 1E-6:
-- 
2.43.0


From d33bd07bd9305be605f7b0e570e89a17b59f0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 17/60] fix: volume fractions that make 1 an extreme eigenvalue
 were reported as compatible

---
 structrans/marttrans/twin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index c289cf2..bc69e32 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -446,6 +446,10 @@ def _solve_f(U, a, n):
         return 0 if abs(beta) < SMALL else None
     elif beta/minus_alpha > 0:
         f = 0.5 + math.sqrt(beta / minus_alpha)
+        Uf = U + f * np.outer(a, n)
+        if abs(la.eigvalsh(Uf.T.dot(Uf))[1] - 1) > 1E-5:
+            # 1 is an eigenvalue, but not the middle one
+            return None
         if abs(1 - f) < 1E-6:
             return 1
         elif abs(f) < 1E-6:
-- 
2.43.0


From bca0ab81820617088c28051a6954aab4fad42d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 18/60] fix: habitplanes() failed when only one of the two twin
 types is compatible

---
 structrans/marttrans/twin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index bc69e32..dbc7ffd 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -365,6 +365,8 @@ class TwinPair():
         hps = []
 
         for i, f in enumerate(fs):
+            if f is None:
+                continue
             a = tp[i][1]
             n = tp[i][2]
             Uf = [self.__Ui + f * np.outer(a, n),
-- 
2.43.0


From 985c0b2727f083e0e0e63671ea584eefbfd7e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 19/60] fix: isconventional(group) accepted rotations other
 than two-fold ones and cached the answer for another group

---
 structrans/marttrans/twin.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index dbc7ffd..a8ffafa 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -192,16 +192,16 @@ class TwinPair():
         lauegroup is a MatrixGroup.
         :return:  if the twin pair is conventionally twinned
         """
-        if self.__conventional is None:
-            if not self.__twinnable:
-                return False
-            twofold = CUBIC_LAUE_GROUP.matrices()[1:10] if len(lauegroup) == 0 else lauegroup[0].matrices()
-            conventional = False
-            for Q in twofold:
-                if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
-                    conventional = True
-                    break
-            self.__conventional = conventional
+        if not self.__twinnable:
+            return False
+        group = CUBIC_LAUE_GROUP if len(lauegroup) == 0 else lauegroup[0]
+        twofold = [Q for Q in group.matrices() if abs(np.trace(Q) + 1) < 1E-6]
+        conventional = False
+        for Q in twofold:
+            if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:
+                conventional = True
+                break
+        self.__conventional = conventional
         return self.__conventional
 
     def ax(self):
-- 
2.43.0


From 9828211f94e95a4166b9d082cc24a42041fea964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:12 +0000
Subject: [PATCH 20/60] fix: TwinSystem of a Martensite object ignored its Laue
 group

---
 structrans/marttrans/twin.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index a8ffafa..f312e95 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -15,13 +15,14 @@ class TwinSystem():
         if len(args) == 1:
             if isinstance(args[0], Martensite):
                 self.__Ulist = args[0].getvariants()
+                self.__Laue = args[0].getLaue()
             else:
                 try:
                     self.__Ulist = np.array(args[0])
                 except:
                     raise ValueError("illegal construction parameters")
-            # self.__Laue = CUBIC_LAUE_GROUP.matrices()
-            self.__Laue = CUBIC_LAUE_GROUP
+                # self.__Laue = CUBIC_LAUE_GROUP.matrices()
+                self.__Laue = CUBIC_LAUE_GROUP
         elif len(args) >= 2:
             try:
                 self.__Ulist = np.array(args[0])
-- 
2.43.0


From eaebd92c042e89278ec1726ad50c182f36041d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 21/60] fix: mat_math did not run on Python 3 (xrange,
 range.extend, float array shape)

---
 structrans/mat_math.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index 825debf..c54fed7 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -3,6 +3,7 @@ This file contains functions and data related to
 matrix operation of a large number of matrices
 '''
 import numpy as np
+from structrans.general_imports import *
 from math import sqrt
 try:
     from scipy.linalg import eig
@@ -52,7 +53,7 @@ def mat_det (l):
         # calculate the minors
         s = (-1)**n # sign
         # remove the 0-th row and the n-th column
-        rm_idx = range(d)
+        rm_idx = list(range(d))
         rm_idx.extend([i*d+n for i in xrange(1,d)])
         # idx of the minors
         mn_idx = [i for i in xrange(d**2) if not i in rm_idx]
@@ -73,7 +74,7 @@ def mat_T(l):
     return T
 
 def mat_eig(l, MAX_MEM=1E9):
-    dim = sqrt(l.shape[1])    
+    dim = int(sqrt(l.shape[1]))
     eigs = np.empty((len(l),dim))    
     for i in xrange(len(l)):
         M = l[i].reshape(dim, dim)
-- 
2.43.0


From 4097c5b454e090e1556e000f17190eefb03d477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 22/60] fix: mat_trace accumulated into uninitialized memory

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index c54fed7..f5a4319 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -33,7 +33,7 @@ def mat_trace (l):
     # dimension
     d = int(sqrt(len(l[0])))
     
-    tr = np.empty(len(l), dtype=l.dtype)    
+    tr = np.zeros(len(l), dtype=l.dtype)
         
     for i in xrange(d):
         tr += l[:, i*d+i]
-- 
2.43.0


From 45b65f5e08d80a9a4f1a3edc19678398175f7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 23/60] fix: cofactor() only worked for 3x3 matrices

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index f5a4319..f10324d 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -109,7 +109,7 @@ def cofactor(A):
                 a = np.delete(A, i, axis=0)
                 a = np.delete(a, j, axis=1)
                 minor = np.append(minor, (-1)**(i+j)*det(a))
-        return np.array(minor).reshape(3,3)
+        return np.array(minor).reshape(m, n)
                 
     else:
         print('Please input a square matrix.')
-- 
2.43.0


From 92192351885758d659c97f65e895c8282fc9f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 24/60] fix: isCompatible accepted every pair whose middle
 eigenvalue is below 1

---
 structrans/marttrans/Compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index cfa3def..6f542e4 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -18,7 +18,7 @@ def isCompatible(A, B):
     if isinstance(A, np.ndarray) and isinstance(B, np.ndarray):
         C = np.dot(inv(B.T).dot(A.T), A.dot(inv(B)))
         e, v = _math.eigSort(C)
-        if abs(e[1])-1<1e-5:
+        if abs(e[1]-1)<1e-5:
             return True
         else:
             return False
-- 
2.43.0


From 3f80cd634a99dd33e42b0eed647aa56ab7389b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 25/60] fix: AM_Solver raised a math domain error when 1 is an
 extreme eigenvalue up to rounding, or outside the spectrum

---
 structrans/marttrans/Compatibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/Compatibility.py b/structrans/marttrans/Compatibility.py
index 6f542e4..0290f0f 100644
--- a/structrans/marttrans/Compatibility.py
+++ b/structrans/marttrans/Compatibility.py
@@ -45,8 +45,8 @@ def AM_Solver(A):
     
     
     c = sqrt(eval[2]-eval[0])
-    c1 = sqrt(1-eval[0])
-    c3 = sqrt(eval[2]-1)
+    c1 = sqrt(max(0, 1-eval[0]))
+    c3 = sqrt(max(0, eval[2]-1))
     
     if c < 1e-6:
         print('solution is b = e, m = - 2 e where |e| = 1.')
-- 
2.43.0


From 472937eea95184c6b5c4302e58eb9fc3061d18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 26/60] fix: pos_def_sym accepted matrices with two negative
 eigenvalues and failed on anything but 3x3 arrays

---
 structrans/util/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 6683bd9..3e0e99f 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -5,15 +5,17 @@ def is_3_by_3(U):
     """
     U is a [3 x 3] matrix
     """
-    return isinstance(U, np.ndarray) and U.shape is not (3, 3)
+    return isinstance(U, np.ndarray) and U.shape == (3, 3)
 
 def pos_def_sym(U):
     """
     check if U is [3 x 3] positive definite and symmetric
     """
+    if not is_3_by_3(U):
+        return False
     dU = (U - U.T).reshape(9)
     # return is_3_by_3(U) and la.det(U) > 0 and np.array_equal(U, U.T)
-    return is_3_by_3(U) and la.det(U) > 0 and la.norm(dU) < 1e-6
+    return bool(la.norm(dU) < 1e-6 and np.all(la.eigvalsh(U) > 0))
 
 def sort_eig(A):
     """
-- 
2.43.0


From de999f445d501b2a0f6920c6b1f5773656f03930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 27/60] fix: setU accepted stretch tensors with two negative
 eigenvalues

---
 structrans/marttrans/martensite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index ed79e89..04e45d4 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -47,7 +47,7 @@ class Martensite():
         if not np.array_equal(U, U.T):
             raise TypeError("not symmetric")
 
-        if not la.det(U) > 0:
+        if not np.all(la.eigvalsh(U) > 0):
             raise TypeError("not positive definite")
 
         return Martensite(U, self.getLaue())
-- 
2.43.0


From 984799ee877c03f09bf8b9b6d019c000932c8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 28/60] fix: setU with more than four numbers raised
 AttributeError instead of TypeError

---
 structrans/marttrans/martensite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index 04e45d4..73aabf3 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -41,6 +41,8 @@ class Martensite():
                 U = np.array([[args[0], args[1], 0], [args[1], args[0], 0], [0, 0, args[2]]])
             elif len(args) == 4:
                 U = np.array([[args[0], args[1], 0], [args[1], args[2], 0], [0, 0, args[3]]])
+            else:
+                raise TypeError()
         except:
             raise TypeError("unrecognizable input")
 
-- 
2.43.0


From e984439922c3e6e133e4fb37ef68aca10fcb6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 29/60] fix: UnitCell could not be constructed, and 2D bonds
 and primitive bonds always raised

---
 structrans/crystallography/visualization.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 3c93bc5..325303a 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -43,7 +43,7 @@ def bonds(verts):
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
     
@@ -108,7 +108,7 @@ class UnitCell():
         r'''
         Constructed by a Bravais lattice
         '''
-        self._lattice = BravaisLattice(lat_ID, lat_Params, N=3)
+        self._lattice = BravaisLattice(lat_ID, lat_Params, dim=N)
         self._o = np.array(origin)
         self._dim = N
     def setOrigin(self, new_origin):
@@ -130,7 +130,7 @@ class UnitCell():
 
         elif len(verts[0])==2:
             idx = [[0,1],[0,2],[1,3],[2,3]]
-            return np.array([[verts[i[0]], verts[i[1]]] for i in len(idx)])
+            return np.array([[verts[i[0]], verts[i[1]]] for i in idx])
         else:
             raise visualError('The number of vertices is not valid.')
         
@@ -149,7 +149,7 @@ class UnitCell():
         verts = vertex(self._o, self._lattice.getConventionalBase().T, self._dim)
         return self.bonds(verts)
     def getPrimitivebonds(self):
-        verts = vertex(self._o, self._lattice.getBase().T, self._dim)
+        verts = vertex(self._o, self._lattice.getbase().T, self._dim)
         return self.bonds(verts)
     def copyTo(self, new_origin, v_list):
 #         verts = self.getConventional()
-- 
2.43.0


From 5fc3424b2c8bf07b477d735663f1441a8bb661c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 30/60] fix: plane_trans did not accept the correspondence as a
 nested list, unlike direc_trans

---
 structrans/marttrans/orientation_relationship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/orientation_relationship.py b/structrans/marttrans/orientation_relationship.py
index db40110..9be6750 100644
--- a/structrans/marttrans/orientation_relationship.py
+++ b/structrans/marttrans/orientation_relationship.py
@@ -32,7 +32,7 @@ def plane_trans(L_cor, n_list):
     if len(n_list.shape) < 2:
         n_list = n_list.reshape(1, len(n_list))
     # new_n  = L_cor.T * n
-    LT = L_cor.T
+    LT = np.array(L_cor).T
     new_n_list = LT.dot(n_list.T).T.tolist()
     return new_n_list[0] if len(new_n_list) == 1 else new_n_list
     
-- 
2.43.0


From 016fdd1332237363f895af5c7aa0dc36e436ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 31/60] fix: vec_generator resumed from a checkpoint skipped
 vectors with negated leading digits

---
 structrans/marttrans/lat_cor/main_direct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7c16a6c..9894713 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -33,6 +33,7 @@ def vec_generator(maxlen, dim, x0=None):
                 v = [firstDigit] * dim
                 v[1:] = subvec[:]
                 yield v
+            xs = None
             if firstDigit > 0:
                 g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
                 for subvec in g:
-- 
2.43.0


From ac553a439e03ec64572bd8e36bf6207b79681fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 32/60] fix: lat_cor raised StopIteration when the last slice
 of vectors improved the solutions

---
 structrans/marttrans/lat_cor/main_direct.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 9894713..9b7d611 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -222,7 +222,12 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
             updated, SOLS, EXT_SOLS, DMAX = update_sol(ary, SOLS, EXT_SOLS, DMAX)
             if updated:
                 maxRadius = rmax(DMAX)
-                checkpoint = np.array(next(g))
+                nextvec = next(g, None)
+                if nextvec is None:
+                    # all vectors have been visited
+                    updated = False
+                else:
+                    checkpoint = np.array(nextvec)
                 break
             else:
                 ary = np.array(list(itertools.islice(g, slice_sz)))
-- 
2.43.0


From fad1a3b47bc7a2d40ae52786150c7b1b91859b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:57 +0000
Subject: [PATCH 33/60] fix: reduce_hnfs in worker processes raised IndexError
 (it only gets the HNFs and the group there)

---
 structrans/marttrans/lat_cor/main_hnf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 925f120..6fb760e 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -19,8 +19,8 @@ def reduce_hnfs(args):
     """
     hnfs = args[0]
     lg = args[1]
-    lprint = args[2] # if len(args) > 2 else print
-    lprint("Reducing {:d} HNFs ...".format(len(hnfs)))
+    if len(args) > 2:
+        args[2]("Reducing {:d} HNFs ...".format(len(hnfs)))
     rhnfs = {}
     for i, h in enumerate(hnfs):
         orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg)
-- 
2.43.0


From b657b0858fb6191e4dafe8572b2361296583e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:57 +0000
Subject: [PATCH 34/60] fix: lat_cor_hnf searched sublattices of index 0 when
 the product cell is smaller than half of the parent cell

---
 structrans/marttrans/lat_cor/main_hnf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index 6fb760e..cfac53c 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -131,11 +131,11 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
     # find all the sizes of sublattices corresponding to 
     # volume changes less than the threshold "vol_th"
     vf = np.arange(
-        math.ceil((1-vol_th)*r),      # lower bound
+        max(1, math.ceil((1-vol_th)*r)),      # lower bound
         math.floor((1+vol_th)*r)+1,   # upper bound
         dtype='int')
     if len(vf) == 0:
-        vf = (np.round(r),)     
+        vf = (max(1, int(np.round(r))),)
 
     hnfs = [h for i in vf for h in HermiteNormalForms(i, dim)]
 
-- 
2.43.0


From ec8ba0d34cc990c7e36bdd9d3413ebd745fd848e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:38 +0000
Subject: [PATCH 35/60] fix: strain distance was offset by 1 in two dimensions

---
 structrans/marttrans/lat_cor/dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/dist.py b/structrans/marttrans/lat_cor/dist.py
index 08668e7..783e750 100644
--- a/structrans/marttrans/lat_cor/dist.py
+++ b/structrans/marttrans/lat_cor/dist.py
@@ -21,7 +21,7 @@ def strain_dist(x, E1, E2inv):
     Cinv = np.dot(Finv, Finv.T)
     lam = np.real(la.eig(Cinv)[0])
     slam = np.sqrt(lam)
-    return np.sum(lam) - 2*np.sum(slam) + 3
+    return np.sum(lam) - 2*np.sum(slam) + dim
 
 
 def Cauchy_dist(x, E1, E2inv):
-- 
2.43.0


From d375c1de1c52fad0d38b32ee171d04968e0fb7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:38 +0000
Subject: [PATCH 36/60] fix: lat_opt kept its solutions in module globals, so
 concurrent searches mixed theirs

---
 structrans/marttrans/lat_cor/lat_opt.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 0f25afb..03cf53f 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -52,7 +52,6 @@ def lat_opt(E1, E2r, **kwargs):
 
     # read kwargs
     nsol = kwargs['nsol'] if 'nsol' in kwargs else 1
-    global miniter, maxiter
     maxiter = kwargs['maxiter'] if 'maxiter' in kwargs else maxiter_by_nsol(nsol)
     miniter = kwargs['miniter'] if 'miniter' in kwargs else 3
     disp = kwargs['disp'] if 'disp' in kwargs else 1
@@ -116,14 +115,8 @@ def lat_opt(E1, E2r, **kwargs):
     ==============
     '''
     # initialization
-    global dopt, lopt, depth
     dopt = []
     lopt = []
-    depth = 0
-
-    # DEBUG
-    global nlocmin
-    nlocmin = 0
 
     # # look for new minnode
     # minnode_changed = True
@@ -136,7 +129,6 @@ def lat_opt(E1, E2r, **kwargs):
             EXT_SOLS[c.tostring()] = True
 
     def truncate_sols():
-        global dopt, lopt
         # delete last one as long as it is not the same as the supposed tail
         while len(dopt) > nsol and dopt[-1] > dopt[nsol - 1]:
             dopt.pop(-1)
@@ -144,7 +136,6 @@ def lat_opt(E1, E2r, **kwargs):
 
     # update strategy
     def update_solutions(tree):
-        global dopt, lopt
         # otherwise, update existing solutions
         if len(dopt) > 0 and tree.elem.tostring() not in EXT_SOLS:
             for i, d in enumerate(dopt):
@@ -170,10 +161,8 @@ def lat_opt(E1, E2r, **kwargs):
     def bfs(source):
         """
         breath first search of solutions
-        :return: new starting point or None
+        :return: new starting point or None, depth of the search
         """
-        global dopt, lopt, depth, miniter, maxiter
-
         EXPLORED = {}
         # bfs search from minnode
         EXPLORED[source.elem.tostring()] = True
@@ -208,7 +197,7 @@ def lat_opt(E1, E2r, **kwargs):
                             if potential_newstart.elem_dist < source.elem_dist:
                                 # a new starting point
                                 del EXPLORED
-                                return potential_newstart
+                                return potential_newstart, depth
 
                         # try to update the solution if the node element is closer than the last solution
                         if update_solutions(t):
@@ -221,7 +210,7 @@ def lat_opt(E1, E2r, **kwargs):
 
         # all done
         del EXPLORED
-        return None
+        return None, depth
 
     logger.debug("starting point: {:s}".format(str(lo.flatten())))
     new_start = SLNode(lo, SLNODE_CACHE)
@@ -233,7 +222,7 @@ def lat_opt(E1, E2r, **kwargs):
         # DEBUG
         nrestart += 1
         # BFS
-        new_start = bfs(minnode)
+        new_start, depth = bfs(minnode)
 
     DFS_CACHE = {'counter': 0}
     SLNODE_CACHE = {'dist': dist, 'lg1': LG1, 'lg2': SOLG2}
-- 
2.43.0


From 6487fd7efa0f54974c1396da779a40b97211a814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:38 +0000
Subject: [PATCH 37/60] fix: lat_cor_hnf raised in two dimensions (the
 transvections were always 3x3)

---
 structrans/marttrans/lat_cor/lat_opt.py |  4 ----
 structrans/marttrans/lat_cor/slnode.py  | 29 ++++++++++++++-----------
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index 03cf53f..a4e17e9 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -69,10 +69,6 @@ def lat_opt(E1, E2r, **kwargs):
         if disp > 0:
             print("Processing the HNF No. {:d}".format(kwargs['ihnf'] + 1))
 
-    # get dimension of the problem
-    dim = len(E1)
-    SLNode.dim = dim
-
     # start timer
     t_start = timer()
 
diff --git a/structrans/marttrans/lat_cor/slnode.py b/structrans/marttrans/lat_cor/slnode.py
index 45bac87..7fec4ce 100644
--- a/structrans/marttrans/lat_cor/slnode.py
+++ b/structrans/marttrans/lat_cor/slnode.py
@@ -1,18 +1,19 @@
 from __future__ import absolute_import
 from structrans.general_imports import *
 
+
+def _transvectives(n):
+    """all n(n-1) transvectives T_ij = I + e_i x e_j of dimension n, followed by their inverses"""
+    I = np.eye(n, dtype="int")
+    T = np.array([np.tensordot(I[i], I[j], axes=0) for i in xrange(n) for j in xrange(n) if i != j])
+    return np.append(I + T, I - T, axis=0)
+
+
 class SLNode:
     """Tree structure of GL(n,Z) group"""
 
     dim = 3
-    # all 12 transvectives in the form of a 6x2 array of matrices
-    T1 = np.array([np.eye(3, dtype="int")
-                   + np.tensordot(np.eye(3, dtype="int")[i], np.eye(3, dtype="int")[j], axes=0)
-                   for i in xrange(3) for j in xrange(3) if i != j])
-    T2 = np.array([np.eye(3, dtype="int")
-                   - np.tensordot(np.eye(3, dtype="int")[i], np.eye(3, dtype="int")[j], axes=0)
-                   for i in xrange(3) for j in xrange(3) if i != j])
-    _T = np.append(T1, T2, axis=0)
+    _Ts = {2: _transvectives(2), 3: _transvectives(3)}
     onetotwo = [(i, j) for i in xrange(3) for j in xrange(3) if i != j]
 
     def __init__(self, elem, cache, parent=None, grandpa=None):
@@ -20,6 +21,8 @@ class SLNode:
         constructed by node element
         """
         self.elem = elem
+        self.dim = len(elem)
+        self._T = SLNode._Ts[self.dim]
         self.parent = parent
         self.grandpa = grandpa
         self.elem_dist = SLNode.cache_dist(self.elem, cache)
@@ -33,14 +36,14 @@ class SLNode:
         generate children nodes
         """
         nobacktrans = []
-        for i in xrange(len(SLNode._T)):
-            if SLNode.dim != 3 or (
+        for i in xrange(len(self._T)):
+            if self.dim != 3 or (
                 not SLNode.gobacktoparent(i, self.parent) and
                 not SLNode.gobacktouncle(i, self.parent, self.grandpa) and
                 not SLNode.gobacktosibling(i, self.parent)
             ):
                 nobacktrans.append(i)
-        return ((j, self.elem.dot(SLNode._T[j])) for j in nobacktrans)
+        return ((j, self.elem.dot(self._T[j])) for j in nobacktrans)
 
 
     @classmethod
@@ -89,7 +92,7 @@ class SLNode:
 
     def calc_neighbor_dist(self):
         """distance values of neighbors"""
-        nb = (self.elem.dot(t) for t in SLNode._T)
+        nb = (self.elem.dot(t) for t in self._T)
         return (SLNode.cache_dist(c, self.cache) for c in nb)
 
     def steepest_des(self):
@@ -100,7 +103,7 @@ class SLNode:
             if nbdist - self.elem_dist < dmin:
                 nbmin = i
                 dmin = nbdist - self.elem_dist
-        return SLNode(self.elem.dot(SLNode._T[nbmin]), self.cache) if dmin < 0 else None
+        return SLNode(self.elem.dot(self._T[nbmin]), self.cache) if dmin < 0 else None
 
     def is_min(self):
         return all(list(self.calc_neighbor_dist()) >= self.elem_dist)
-- 
2.43.0


From 3f41341d6c97fb73ae96792ac595d7913a33ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:59 +0000
Subject: [PATCH 38/60] fix: lat_cor_direct never returned when too few
 unimodular matrices are close to its first guess

---
 structrans/marttrans/lat_cor/main_direct.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 9b7d611..a7d4de3 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -196,8 +196,13 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         shift = np.random.random_integers(-1, 1, (dim, dim))
         L = L0 + shift
         l = L.reshape(dim**2)
-        while tuple(l) in EXT_SOLS or not (1 - vol_th < la.det(L0 + shift) < 1 + vol_th):
-            shift = np.random.random_integers(-1, 1, (dim, dim))
+        ntry = 0
+        # there may be no (more) unimodular ones close to L0: widen the range and allow any cell size then
+        while tuple(l) in EXT_SOLS or not (1 - vol_th < la.det(L) < 1 + vol_th or
+                                           (ntry >= 1000 and la.det(L) > 0.5)):
+            ntry += 1
+            width = 1 + ntry // 1000
+            shift = np.random.random_integers(-width, width, (dim, dim))
             L = L0 + shift
             l = L.reshape(dim**2)
         sol = {'l': l, 'd': dist(l)}
-- 
2.43.0


From 854cc92b7422f6cbbb6844dfa26349bb287077d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:24 +0000
Subject: [PATCH 39/60] fix: a base with NaN or infinite entries (impossible
 cell angles, for instance) was accepted as a lattice

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 59c9a2e..3288b3d 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -17,7 +17,7 @@ class Lattice():
                 E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
-            if la.det(E)**2 <= 0.0:
+            if not 0.0 < la.det(E)**2 < float('inf'):
                 raise ValueError('Bae matrix is singular')
         except Exception:
             raise ValueError('Base is not a square matrix')
-- 
2.43.0


From f463c2f1715095619093d51be8fab29f20eab33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:28 +0000
Subject: [PATCH 40/60] fix: lat_cor_hnf dropped solutions, depending on the
 order of completion, when the sublattices yield fewer than nsol each

---
 structrans/marttrans/lat_cor/main_hnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index cfac53c..b0d9e61 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -225,7 +225,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
                 add_sol(sols, s)
         else:
             for s in xrange(len(new)):
-                if new[s]['d'] <= sols[-1]['d']:
+                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:
                     add_sol(sols, new[s])
                 else:
                     return
-- 
2.43.0


From 63c77a067ee38add8964f60755d818ad4a993cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:34 +0000
Subject: [PATCH 41/60] fix: a complex base was accepted as a lattice,
 depending on its determinant

---
 structrans/crystallography/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 3288b3d..3e585ad 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -17,6 +17,8 @@ class Lattice():
                 E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
+            if np.iscomplexobj(E):
+                raise ValueError('Base is not real')
             if not 0.0 < la.det(E)**2 < float('inf'):
                 raise ValueError('Bae matrix is singular')
         except Exception:
-- 
2.43.0


From e6fa4739f148f9f59aac7860ebd7b1780d18dd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:07 +0000
Subject: [PATCH 42/60] fix: mat_dot raised for integer matrices times real
 ones

---
 structrans/mat_math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index f10324d..d25d2b9 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -18,7 +18,7 @@ def mat_dot (la, lb):
     the dimension of la and lb are both [N x d**2]
     '''
     d = int(sqrt(len(la[0]))) # dimension
-    lc = np.zeros_like(la)
+    lc = np.zeros(la.shape, dtype=np.result_type(la, lb))
     
     for i in xrange(d):
         for j in xrange(d):
-- 
2.43.0


From 25ec459369513f10a4e5aa5470cd6a08464f2403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:07 +0000
Subject: [PATCH 43/60] fix: unique_rows kept rows twice that differ only in
 the sign of a zero

---
 structrans/mat_math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structrans/mat_math.py b/structrans/mat_math.py
index d25d2b9..ef06206 100644
--- a/structrans/mat_math.py
+++ b/structrans/mat_math.py
@@ -82,7 +82,8 @@ def mat_eig(l, MAX_MEM=1E9):
     return eigs    
 
 def unique_rows(a):
-    b = np.ascontiguousarray(a).view(np.dtype((np.void, a.dtype.itemsize * a.shape[1])))
+    # adding zero makes -0.0 and 0.0 the same bytes
+    b = np.ascontiguousarray(a + 0).view(np.dtype((np.void, a.dtype.itemsize * a.shape[1])))
     _, idx = np.unique(b, return_index=True)
     return a[idx], idx
     
-- 
2.43.0


From 1cfa478b7e0d44db207bf471c8a9cc9d371a4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:45 +0000
Subject: [PATCH 44/60] fix: a Bravais lattice of dimension other than 2 or 3
 raised UnboundLocalError instead of ValueError

---
 structrans/crystallography/bravais_lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 7abc81b..1a51c91 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -36,13 +36,15 @@ class BravaisLattice(Lattice):
             if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
-        if dim == 2:
+        elif dim == 2:
             if not latID in range(1, 6):
                 raise ValueError('2D Bravais lattice ID must be between 1 and 5.')
             pramlen = [1, 2, 2, 1, 3] 
             if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
+        else:
+            raise ValueError('only 2D and 3D Bravais lattices are defined.')
 
         Lattice.__init__(self, E)
         self.__latID = latID        
-- 
2.43.0


From c3806feca52e95984da801497282fc8c01b2c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:51 +0000
Subject: [PATCH 45/60] fix: skew did not reduce p modulo n for p = n and for
 negative p

---
 structrans/crystallography/spacegroup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structrans/crystallography/spacegroup.py b/structrans/crystallography/spacegroup.py
index 9109d68..1f3664e 100644
--- a/structrans/crystallography/spacegroup.py
+++ b/structrans/crystallography/spacegroup.py
@@ -17,8 +17,7 @@ def skew(n, p, lattvec):
     T = lattvec if isinstance(lattvec, np.ndarray) else np.array(lattvec)
     t = T/norm(T)
     theta = 2*np.pi/n
-    if p>n:
-        p = p % n
+    p = p % n
     Q = rotation(theta, t, unit="rad")
     c = (p/n)*T
     return Q, c
-- 
2.43.0


From 3ac31b7cf73a567d34b360978b1386ab09ae338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:06 +0000
Subject: [PATCH 46/60] fix: stereo_proj put short directions at the centre or
 on the wrong side of the equator

---
 structrans/crystallography/stereogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structrans/crystallography/stereogram.py b/structrans/crystallography/stereogram.py
index f31e319..d0ed6e8 100644
--- a/structrans/crystallography/stereogram.py
+++ b/structrans/crystallography/stereogram.py
@@ -23,8 +23,8 @@ def stereo_proj(p, z):
         z_2 = np.array([0,1,0])
         
     
-    if norm(p)>1e-6:
-        if p.dot(z)>1e-6:
+    if norm(p)>0:
+        if p.dot(z)>0:
             phat = p/norm(p)
         else:
             phat = -(Q.dot(p))/norm(p)
-- 
2.43.0


From 7cfa889ed4f184e523d60b56ff34a01302908417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:00 +0000
Subject: [PATCH 47/60] fix: the drawn conventional cell ignored its origin and
 could not be drawn in two dimensions

---
 structrans/crystallography/visualization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structrans/crystallography/visualization.py b/structrans/crystallography/visualization.py
index 325303a..d29863a 100644
--- a/structrans/crystallography/visualization.py
+++ b/structrans/crystallography/visualization.py
@@ -142,7 +142,9 @@ class UnitCell():
         return vertex(self._o, C, self._dim)
     def getConventional(self):
         C = self._lattice.getConventionalBase().T
-        inside = box(self.getPrimitive(), C, self._dim)
+        # the box is at the origin: select there and move the result
+        E = self._lattice.getbase().T
+        inside = self._o + box(vertex(np.zeros(self._dim), E, self._dim), C, self._dim)
 #         print np.array(inside).shape
         return np.vstack((vertex(self._o, C, self._dim), inside))
     def getConventionalbonds(self):
-- 
2.43.0


From d5ecd91d2b03eed4c19f3f39ec18afd44cd796e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:58 +0000
Subject: [PATCH 48/60] fix: overwriting the variants or indices got from a
 Martensite, or the array it was made of, changed its answers

---
 structrans/marttrans/martensite.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index 73aabf3..f5a7e28 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -15,7 +15,7 @@ class Martensite():
     """
     
     def __init__(self, *args):
-        self.__U = args[0] if len(args) > 0 else None
+        self.__U = np.array(args[0]) if len(args) > 0 and args[0] is not None else None
         self.__Laue = args[1] if len(args) > 1 else CUBIC_LAUE_GROUP
         self.__Ulist = None
         self.__Laueidx = None
@@ -104,7 +104,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist
+        return self.__Ulist.copy()
 
     def getvariant(self, n):
         """
@@ -115,7 +115,7 @@ class Martensite():
         """
         if self.__Ulist is None:
             self.calcvariants()
-        return self.__Ulist[n - 1]
+        return self.__Ulist[n - 1].copy()
 
     def isreversible(self):
         """
@@ -137,7 +137,7 @@ class Martensite():
     def getLaueidx(self):
         if self.__Laueidx is None:
             self.calcvariants()
-        return self.__Laueidx
+        return self.__Laueidx.copy()
 
     def calcvariants(self):
         """
-- 
2.43.0


From 1addb72240c154dd0919f20b1282df7977d6b098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 49/60] fix: overwriting the axes, parameters or pairs got from
 twins, or the arrays they were made of, changed their answers

---
 structrans/marttrans/twin.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/structrans/marttrans/twin.py b/structrans/marttrans/twin.py
index f312e95..aff34f0 100644
--- a/structrans/marttrans/twin.py
+++ b/structrans/marttrans/twin.py
@@ -1,4 +1,5 @@
 from ..general_imports import *
+import copy
 import math
 
 from .. import util
@@ -87,7 +88,7 @@ class TwinSystem():
         """
         if self.__twinpairs is None:
             self.TwinTable()
-        return self.__twinpairs
+        return list(self.__twinpairs)
 
     def getConventional(self):
         """
@@ -143,8 +144,8 @@ class TwinPair():
         if not skipcheck and (not util.utils.pos_def_sym(Ui) or not util.utils.pos_def_sym(Uj)):
             raise ValueError("Ui or Uj is not a 3 x 3 positive definite symmetric matrix")
 
-        self.__Ui = Ui
-        self.__Uj = Uj
+        self.__Ui = np.array(Ui)
+        self.__Uj = np.array(Uj)
 
         Uiinv = la.inv(Ui)
         self.__C = np.dot(Uiinv.dot(Uj), Uj.dot(Uiinv))
@@ -229,7 +230,7 @@ class TwinPair():
                     e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])
                     ehat.append(e/la.norm(e))
             self.__ax = ehat
-        return self.__ax
+        return [e.copy() for e in self.__ax]
 
 
     def iscompound(self):
@@ -307,7 +308,7 @@ class TwinPair():
             else:
                 self.__twinparam = _solvetwin(self.__Ui, self.__Uj, None)
 
-        return self.__twinparam
+        return copy.deepcopy(self.__twinparam)
 
     def iscompatible(self, twintype="C"):
         """
-- 
2.43.0


From ca616ead155eb5144c9253974bb7c92351ea1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 50/60] fix: overwriting what was got from a lattice or group,
 or the array it was made of, changed its answers

---
 structrans/crystallography/bravais_lattice.py | 6 +++---
 structrans/crystallography/lattice.py         | 3 +--
 structrans/crystallography/matrix_group.py    | 2 +-
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index 1a51c91..d8638f4 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -48,7 +48,7 @@ class BravaisLattice(Lattice):
 
         Lattice.__init__(self, E)
         self.__latID = latID        
-        self.__latParam = latParam
+        self.__latParam = latParam.copy()
         self.__C = C
 
     @staticmethod
@@ -299,7 +299,7 @@ class BravaisLattice(Lattice):
         '''
         get the lattice parameters
         '''
-        return self.__latParam
+        return self.__latParam.copy()
 
     def getLatParam(self):
         warn("getLatParam() is deprecated, please use lat_param() instead.", DeprecationWarning)
@@ -312,7 +312,7 @@ class BravaisLattice(Lattice):
         - conv_base = prim_base * **cnvr_mat**
         - prim_idx = **cnvr_mat** * conv_idx
         '''
-        return self.__C
+        return self.__C.copy()
 
     def getConventionalTrans(self):
         warn("getConventionalTrans() is deprecated, please use conventional_trans() instead.", DeprecationWarning)
diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 3e585ad..b622522 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -13,8 +13,7 @@ class Lattice():
     def __init__(self, E):
         # check if E is a square matrix
         try:
-            if not isinstance(E, np.ndarray):
-                E = np.array(E)
+            E = np.array(E)
             if not _is_square_mat(E):
                 raise ValueError('Base is not a square matrix')
             if np.iscomplexobj(E):
diff --git a/structrans/crystallography/matrix_group.py b/structrans/crystallography/matrix_group.py
index 64e0d4b..c6251f2 100644
--- a/structrans/crystallography/matrix_group.py
+++ b/structrans/crystallography/matrix_group.py
@@ -74,7 +74,7 @@ class MatrixGroup():
         # self.__mtable = self.isgroup(matrices)
         # if self.__mtable is False:
         #     raise ValueError("input does not form a group")
-        self.__mats = matrices
+        self.__mats = np.array(matrices)
 
 
     def matrices(self):
-- 
2.43.0


From 2f46c217b7e79cfdff4a9d69cbf49dbc33a09855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:34 +0000
Subject: [PATCH 51/60] fix: integer test of Lattice tolerated deviations
 growing with the entries of skewed bases

---
 structrans/crystallography/lattice.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index b622522..674b3ac 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -77,8 +77,7 @@ class Lattice():
             M = np.array(M)
         except Exception:
             return False
-        M_int = np.rint(M)
-        if not np.allclose(M, M_int, atol=1E-8):
+        if not _is_int_mat(M):
             return False
         # QE = EM
         E = self.base()
@@ -182,7 +181,7 @@ class Lattice():
         # E1 A = E2
         A = np.dot(la.inv(E1), E2)
         A_int = np.rint(A)
-        return np.allclose(A, A_int, atol=1E-8) and np.rint(abs(la.det(A_int))) == 1
+        return _is_int_mat(A) and np.rint(abs(la.det(A_int))) == 1
 
     def __str__(self):
         des_str = '{:d} dimensional lattice:'.format(self.__N)
@@ -197,6 +196,12 @@ def _is_square_mat(M):
     return (M.ndim == 2) and (M.shape[0] == M.shape[1])
 
 
+def _is_int_mat(M):
+    # the tolerance must not grow with the entries, they are large for skewed bases
+    M_int = np.rint(M)
+    return bool(np.all(np.abs(M - M_int) <= 1E-8 + 1E-5 * np.minimum(np.abs(M_int), 1)))
+
+
 def _in_O3(Q):
     Q = np.array(Q)
     if not _is_square_mat(Q):
-- 
2.43.0


From b9b0296a7ce57a3f0b4d6a394b0e3617701c67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:34 +0000
Subject: [PATCH 52/60] fix: inlatticegroup accepted scalars and raised on
 matrices of another dimension

---
 structrans/crystallography/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/crystallography/lattice.py b/structrans/crystallography/lattice.py
index 674b3ac..c5afb0c 100644
--- a/structrans/crystallography/lattice.py
+++ b/structrans/crystallography/lattice.py
@@ -77,7 +77,7 @@ class Lattice():
             M = np.array(M)
         except Exception:
             return False
-        if not _is_int_mat(M):
+        if M.shape != self.__E.shape or not _is_int_mat(M):
             return False
         # QE = EM
         E = self.base()
-- 
2.43.0


From f78655cf771991af9f69a5d3c174b00a9701d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:48 +0000
Subject: [PATCH 53/60] fix: lat_cor_direct raised LinAlgError when the
 determinant of a singular candidate was not exactly zero in floating point

---
 structrans/marttrans/lat_cor/main_direct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index a7d4de3..eb99130 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -160,7 +160,7 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
         if not tuple(sol['l']) in ext_sols:
             # insert the solution and update EXT_SOLS
             idx = np.searchsorted([s['d'] for s in sols], sol['d'])
-            if la.det(sol['l'].reshape(dim, dim)) != 0:
+            if abs(la.det(sol['l'].reshape(dim, dim))) > 0.5:
                 sols.insert(idx, sol)
             ext_sols = ext_sols.union(eqlatcor(sol['l']))
             if len(sols) > nsol:
-- 
2.43.0


From 14f188e9f127547683ab592c294ca992be043c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:12 +0000
Subject: [PATCH 54/60] fix: lat_cor_direct labelled its Cauchy distance with
 whatever distance name was passed

---
 structrans/marttrans/lat_cor/main_direct.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index eb99130..7eef2c2 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -78,7 +78,6 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
     disp = readkw('disp', 1)
     dim = readkw('dim', 3)
     slice_sz = readkw('slice_sz', 100)
-    distName = readkw('dist', 'Cauchy')
 
     def lprint(msg, lev=1):
         # print with level
@@ -276,7 +275,7 @@ def lat_cor(brava, pa, bravm, pm, **kwargs):
     lprint('Print and save the results')
     lprint('==========================')
 
-    output = _sols_tostr(SOLS, nsol, dim, distName)
+    output = _sols_tostr(SOLS, nsol, dim, 'Cauchy')
     if disp > 0:
         print(output)
     for line in output.split("\n"):
-- 
2.43.0


From 9ec5ce4d7d7c4c14ba1e4029be66fb649d843798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:37 +0000
Subject: [PATCH 55/60] fix: the two-fold axes of weakly distorted twins were
 missed because the eigenvectors of the symmetric C were not orthogonal enough

---
 structrans/util/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structrans/util/utils.py b/structrans/util/utils.py
index 3e0e99f..50d83eb 100644
--- a/structrans/util/utils.py
+++ b/structrans/util/utils.py
@@ -23,7 +23,7 @@ def sort_eig(A):
     :param A:
     :return:
     """
-    e = la.eig(A)
+    e = la.eigh(A)
     e = [np.append(e[0][i], e[1][:, i]).real for i in xrange(3)]
     e = np.array(sorted(e, key=lambda x: x[0]))
     eval = e[:, 0]
-- 
2.43.0


From dd2ecf95ca319f53a136d49d749474e0062fbd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 56/60] fix: lattice angles of 180 degrees and more were
 accepted and gave degenerate or left-handed cells

---
 structrans/crystallography/bravais_lattice.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structrans/crystallography/bravais_lattice.py b/structrans/crystallography/bravais_lattice.py
index d8638f4..305abdb 100644
--- a/structrans/crystallography/bravais_lattice.py
+++ b/structrans/crystallography/bravais_lattice.py
@@ -35,6 +35,8 @@ class BravaisLattice(Lattice):
             pramlen = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6] 
             if not len(latParam) == pramlen[latID - 1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
+            if any(latParam[{5: 1, 12: 3, 13: 3, 14: 3}.get(latID, 6):] >= 180):
+                raise ValueError('the angles must be less than 180 degrees')
             E, C = BravaisLattice.__primitiveBase3D__(latID, latParam)
         elif dim == 2:
             if not latID in range(1, 6):
@@ -42,6 +44,8 @@ class BravaisLattice(Lattice):
             pramlen = [1, 2, 2, 1, 3] 
             if not len(latParam) == pramlen[latID-1]:
                 raise ValueError('the number of lattice parameters does not match the type of Bravais lattice.')
+            if any(latParam[2:] >= 180):
+                raise ValueError('the angles must be less than 180 degrees')
             E, C = BravaisLattice.__primitiveBase2D__(latID, latParam)
         else:
             raise ValueError('only 2D and 3D Bravais lattices are defined.')
-- 
2.43.0


From 89fcf691bdc9aa67bf074746de89d1eb35da1a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 57/60] fix: setU accepted complex stretches and failed with
 other errors than TypeError on infinite ones

---
 structrans/marttrans/martensite.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structrans/marttrans/martensite.py b/structrans/marttrans/martensite.py
index f5a7e28..8995780 100644
--- a/structrans/marttrans/martensite.py
+++ b/structrans/marttrans/martensite.py
@@ -46,6 +46,9 @@ class Martensite():
         except:
             raise TypeError("unrecognizable input")
 
+        if np.iscomplexobj(U) or not np.all(np.isfinite(U)):
+            raise TypeError("not finite real numbers")
+
         if not np.array_equal(U, U.T):
             raise TypeError("not symmetric")
 
-- 
2.43.0


From 8109a542d577a097412eed4b601e4900513a3b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 58/60] fix: lat_opt left its log file attached, so that later
 calls wrote every message again and propagation stayed off

---
 structrans/marttrans/lat_cor/lat_opt.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index a4e17e9..a7c90f3 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -57,6 +57,7 @@ def lat_opt(E1, E2r, **kwargs):
     disp = kwargs['disp'] if 'disp' in kwargs else 1
     if 'logfile' in kwargs:
         logging.basicConfig(level=logging.INFO)
+        propagate = logger.propagate
         logger.propagate = False
         logfile = kwargs['logfile']
         fhdlr = logging.FileHandler(logfile, mode='a')
@@ -247,4 +248,9 @@ def lat_opt(E1, E2r, **kwargs):
     logger.info(final_msg)
     if disp > 1:
         print(final_msg)
+    if 'logfile' in kwargs:
+        # detach the log file, otherwise the next call would write every message to it again
+        logger.removeHandler(fhdlr)
+        fhdlr.close()
+        logger.propagate = propagate
     return {'lopt': lopt, 'dopt': dopt}
-- 
2.43.0


From b706c99a7c4825257b84f5e929a5c5d7cfd7a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:39 +0000
Subject: [PATCH 59/60] fix: the sublattice search dropped correspondences
 related by a symmetry of the sublattice that the austenite does not have

---
 structrans/marttrans/lat_cor/lat_opt.py  |  5 +++--
 structrans/marttrans/lat_cor/main_hnf.py | 12 +++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/structrans/marttrans/lat_cor/lat_opt.py b/structrans/marttrans/lat_cor/lat_opt.py
index a7c90f3..af9add1 100644
--- a/structrans/marttrans/lat_cor/lat_opt.py
+++ b/structrans/marttrans/lat_cor/lat_opt.py
@@ -21,7 +21,8 @@ def lat_opt(E1, E2r, **kwargs):
     '''
     find the optimal lattice invarient shear move E1 as close as possible to E2
     allowed kwargs:
-     - LG2: special lattice group of E2r
+     - SOLG1: special lattice group of E1, or the part of it that leaves the surroundings of E1 invariant
+     - SOLG2: special lattice group of E2r
      - nsol: number of solutions
      - dist: choose from "Cauchy", "Ericksen" and "strain", default is "Cauchy"
      - hdlr: logger handler, default is basicConfigure
@@ -94,7 +95,7 @@ def lat_opt(E1, E2r, **kwargs):
         dist = lambda x: Cauchy_dist(x, E1, E2inv)
 
     # lattice groups
-    LG1 = Lattice(E1).getspeciallatticegroup().matrices()
+    LG1 = kwargs['SOLG1'] if 'SOLG1' in kwargs else Lattice(E1).getspeciallatticegroup().matrices()
     SOLG2 = kwargs['SOLG2'] if 'SOLG2' in kwargs else Lattice(E2r).getspeciallatticegroup().matrices()
 
     SLNODE_CACHE = {'dist': dist, 'lg1': LG1, 'lg2': SOLG2}
diff --git a/structrans/marttrans/lat_cor/main_hnf.py b/structrans/marttrans/lat_cor/main_hnf.py
index b0d9e61..6fc22aa 100644
--- a/structrans/marttrans/lat_cor/main_hnf.py
+++ b/structrans/marttrans/lat_cor/main_hnf.py
@@ -184,6 +184,15 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
     if 'miniter' in kwargs:
         options['miniter'] = kwargs['miniter']
 
+    def sublattice_group(h):
+        """
+        the part of the lattice group of the austenite that maps the sublattice h onto itself:
+        the sublattice alone may be more symmetric, but correspondences related by the additional symmetry are different
+        """
+        mats = np.array([np.dot(la.inv(h), np.dot(M, h)) for M in LG_A])
+        ismember = np.max(np.abs(mats - np.rint(mats)), axis=(1, 2)) < 1E-6
+        return np.rint(mats[ismember]).astype('int')
+
     EXT_SOLS2 = {}
     def ext_sols(l):
         """add l to extended solution dictionary"""
@@ -237,7 +246,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         lprint('{:d} HNFs are being solved in parallel ...'.format(len(hnfs)), 1)
         poolsize = cpu_count() if 'poolsize' not in kwargs else kwargs['poolsize']
         lat_opt_par = kwargs['lat_opt_par']
-        args = ((np.dot(E_A, h), E_Mr, options, ih) for ih, h in enumerate(hnfs))
+        args = ((np.dot(E_A, h), E_Mr, dict(options, SOLG1=sublattice_group(h)), ih) for ih, h in enumerate(hnfs))
 
         # initialize async task list
         async_results = []
@@ -269,6 +278,7 @@ def lat_cor(ibrava, pbrava, ibravm, pbravm, **kwargs):
         lprint('{:d} HNFs are being solved ...'.format(len(hnfs)), 1)
         for ih, h in enumerate(hnfs):
             options['ihnf'] = ih
+            options['SOLG1'] = sublattice_group(h)
             res = lat_opt(np.dot(E_A, h), E_Mr, **options)
             merge_sols(sols, [{'d': d, 'l': l, 'h': hnfs[ih]} for l, d in zip(res['lopt'], res['dopt'])])
         lprint('Done.', 1)
-- 
2.43.0


From c5d84c7a687f10ffa659340b93523a77b15d6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 60/60] fix: vectors of exactly the maximum length are lost to
 rounding in vec_generator

---
 structrans/marttrans/lat_cor/main_direct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structrans/marttrans/lat_cor/main_direct.py b/structrans/marttrans/lat_cor/main_direct.py
index 7eef2c2..1f82974 100644
--- a/structrans/marttrans/lat_cor/main_direct.py
+++ b/structrans/marttrans/lat_cor/main_direct.py
@@ -15,11 +15,12 @@ def vec_generator(maxlen, dim, x0=None):
     """
     generate dim-dimensional vectors with maximum length maxlen
     """
+    # the lengths left for the last entries are rounded: allow for that, or vectors as long as maxlen are lost
     if x0 is None:
         x0 = [0] * dim
     if dim == 1:
         n = x0[0]
-        while n <= maxlen:
+        while n <= maxlen + 1E-9:
             yield [n]
             if n > 0:
                 yield [-n]
@@ -27,7 +28,7 @@ def vec_generator(maxlen, dim, x0=None):
     else:
         firstDigit = x0[0]
         xs = x0[1:]
-        while firstDigit <= maxlen:
+        while firstDigit <= maxlen + 1E-9:
             g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)
             for subvec in g:
                 v = [firstDigit] * dim
-- 
2.43.0

