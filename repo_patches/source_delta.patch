From a3d5ec8fe43a41de8782b62f089dc00bf78aa3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 01/49] fix: analytic kC ignored force_orthotropic_laminate

fk0 read shell.lam.ABD, which the laminate assembles afresh on every access,
instead of shell.ABD, where Shell stores the laminate matrix with the
extension-shear and bending-twisting couplings removed.
---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index c800f12..56a0362 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -75,7 +75,7 @@ def fk0(object shell, int size, int row0, int col0):
     a = shell.a
     b = shell.b
     r = shell.r
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 71b0f50..9f4dc0a 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -73,7 +73,7 @@ def fk0(object shell, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From 7476d6ff7e0543fb220ffb432904306e19bbea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 02/49] fix: calc_kC with ABDnxny and NLgeom but no c read past
 a one-element array

np.ascontiguousarray(None) is array([nan]); the kernel indexed it with the
shell's degrees of freedom. A zero vector is now used whenever c is not given.
---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 59ef4dd..1b499a8 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -440,7 +440,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         self.r = self.r if self.r is not None else 0.
 
-        if c is None and ABDnxny is None:
+        if c is None:
             # Empty c if the interest is only on the heterogeneous
             # laminate properties
             c = np.zeros(size, dtype=DOUBLE)
-- 
2.43.0


From f11b644be39656cf7b23c4ebd950f5ba7ae0bcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 03/49] fix: calc_kC with NLgeom and a constant stress state
 but no c_cte raised

---
 panels/shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 1b499a8..1b202bf 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -468,6 +468,8 @@ class Shell(object):
                 msg('NOTE: constant stress state taken into account by c_cte', level=3, silent=silent)
                 check_c(c_cte, size)
                 analytical_kG = False
+            else:
+                c_cte = np.zeros(size, dtype=DOUBLE)
             # This calc KG0 - Geo stiff mat at initial membrane stress state (SA formulation paper - eq 12) and adds it to K0 calc earlier
             
             # WHY IS KG0 ADDED TO KC ???????????????????????????
-- 
2.43.0


From 513fe292e0e3b13e1a9c840db67a03b6976f806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 04/49] fix: linear kC, kG and kM ignored the partial
 integration domain

---
 panels/shell.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 1b202bf..4649315 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -279,6 +279,12 @@ class Shell(object):
         self.size = self.get_size()
 
 
+    def _is_partial_domain(self):
+        # same criterion used by the numerical integration routines
+        return ((self.x1 != -1 and self.x2 != -1)
+                or (self.y1 != -1 and self.y2 != -1))
+
+
     def get_size(self):
         r"""Calculate the size of the stiffness matrices
 
@@ -426,6 +432,10 @@ class Shell(object):
         # ??????????
         if ABDnxny is not None:
             analytical_kC = False
+        # the analytical integrals are always over the full domain
+        if self._is_partial_domain():
+            analytical_kC = False
+            analytical_kG = False
         # For NL Geos, KC (and not KC0) needs to be used so only do it numerically
         if NLgeom:
             analytical_kC = False
@@ -519,7 +529,7 @@ class Shell(object):
             c = np.zeros(size, dtype=DOUBLE)
             if any((self.Nxx, self.Nyy, self.Nxy)):
                 msg('NOTE: stress state taken into account using ONLY (Nxx, Nyy, Nxy)', level=3, silent=silent)
-        if NLgeom:
+        if NLgeom or self._is_partial_domain():
             analytical_kG = False
 
         matrices = modelDB.db[self.model]['matrices']
@@ -579,7 +589,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
-        analytical_kM = True
+        analytical_kM = not self._is_partial_domain()
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
 
-- 
2.43.0


From 4af4f9494c806d739f0e2d9106de61ea82da0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 05/49] fix: one-point Gauss-Legendre rule was missing and left
 points and weights at zero

---
 panels/core/src/legendre_gauss_quadrature.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/panels/core/src/legendre_gauss_quadrature.cpp b/panels/core/src/legendre_gauss_quadrature.cpp
index 2fc26e2..d381895 100644
--- a/panels/core/src/legendre_gauss_quadrature.cpp
+++ b/panels/core/src/legendre_gauss_quadrature.cpp
@@ -8,6 +8,10 @@
 
 EXPORTIT void leggauss_quad(int n, double *points, double *weights) {
     switch(n) {
+    case 1:
+        points[0] = 0;
+        weights[0] = 2.;
+        return;
     case 2:
         points[0] = -0.577350269189625764509148780501957455647601751270126876;
         points[1] = 0.577350269189625764509148780501957455647601751270126876;
-- 
2.43.0


From d1856c0b9462b4c586fbaa702dfadec325f346c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 06/49] fix: strain and stress fields of a flat panel raised
 before any matrix was calculated

---
 panels/models/clpt_bardell_field.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index b310687..0a9a0e1 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -125,7 +125,7 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
     cdef double y1w, y1wr, y2w, y2wr
     a = s.a
     b = s.b
-    r = s.r
+    r = s.r if s.r is not None else 0. # flat panels, see Shell.calc_kC
     m = s.m
     n = s.n
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
-- 
2.43.0


From 6f6b83975af18229acef32a8fb4bee2faff089ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 07/49] fix: line prescribed-displacement penalties put the u
 and v terms on the w rows

---
 panels/multidomain/connections/kCpd.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/multidomain/connections/kCpd.pyx b/panels/multidomain/connections/kCpd.pyx
index c4563fa..ee1d323 100644
--- a/panels/multidomain/connections/kCpd.pyx
+++ b/panels/multidomain/connections/kCpd.pyx
@@ -256,12 +256,12 @@ def fkCld_xcte(double ku, double kv, double kw, object p, double xp,
                         fBw = f(k, xip, x1w, x1wr, x2w, x2wr)
             
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+0
+                        kCld_xctec[c] = col+0
                         kCld_xctev[c] += ku*b*fAu*fBu*gAugBu/2.
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+1
+                        kCld_xctec[c] = col+1
                         kCld_xctev[c] += kv*b*fAv*fBv*gAvgBv/2.
                         c += 1
                         kCld_xcter[c] = row+2
@@ -380,12 +380,12 @@ def fkCld_ycte(double ku, double kv, double kw, object p, double yp,
                         gBw = f(l, etap, y1w, y1wr, y2w, y2wr)
             
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+0
+                        kCld_yctec[c] = col+0
                         kCld_yctev[c] += ku*a*fAufBu*gAu*gBu/2.
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+1
+                        kCld_yctec[c] = col+1
                         kCld_yctev[c] += kv*a*fAvfBv*gAv*gBv/2.
                         c += 1
                         kCld_ycter[c] = row+2
-- 
2.43.0


From 7964d93b49badb4004f9eef0e4a1adad3fcf38cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 08/49] fix: connection matrix depended on the order the panels
 are listed, changed the given connections and was cached for other ones

---
 panels/multidomain/multidomain.py | 73 +++++++++++++++----------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a53fe8b..ee6bc6b 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -29,6 +29,18 @@ def default_field(panel, gridx, gridy):
     return xs, ys, shape
 
 
+def upper_block(block, p1, p2):
+    """Coupling block of ``p1`` (rows) and ``p2`` (columns), in the upper
+    triangle of the assembly, the only one used to obtain the full matrix
+
+    """
+    if p1 is p2:
+        return block + block.T
+    if p1.row_start > p2.row_start:
+        return block.T
+    return block
+
+
 class MultiDomain(object):
     r"""Class for multi-domain semi-analytical approach
 
@@ -763,12 +775,15 @@ class MultiDomain(object):
                 Each dict contains info of that specific with connection pair
         '''
         if conn is None:
+            # NOTE without its own connections, the assembly keeps the last ones given
+            if self.kC_conn is not None:
+                return self.kC_conn
             if self.conn is None:
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
-
-        if self.kC_conn is not None:
-            return self.kC_conn
+            cache = finalize
+        else:
+            cache = finalize and self.conn is None
 
         size = self.get_size()
 
@@ -777,27 +792,8 @@ class MultiDomain(object):
         # Looping through each connection pair 
         for connecti in conn:
             # connecti = ith connection pair
-            p1_temp = connecti['p1']
-            p2_temp = connecti['p2']
-            if p1_temp.col_start < p2_temp.col_start:
-                pA = p1_temp
-                pB = p2_temp
-            elif p1_temp.col_start > p2_temp.col_start:
-                pA = p2_temp
-                pB = p1_temp
-                if connecti['func'] == 'SB':
-                    pass
-                else:
-                    if 'xcte1' in connecti.keys() and 'xcte2' in connecti.keys():
-                        temp_xcte = connecti['xcte1']
-                        connecti['xcte1'] = connecti['xcte2']
-                        connecti['xcte2'] = temp_xcte
-                    # y needs to be tested
-                    if 'ycte1' in connecti.keys() and 'ycte2' in connecti.keys():
-                        temp_ycte = connecti['ycte1']
-                        connecti['ycte1'] = connecti['ycte2']
-                        connecti['ycte2'] = temp_ycte
-            
+            pA = connecti['p1']
+            pB = connecti['p2']
             connection_function = connecti['func'] # Type of connection
             
             if connection_function == 'SSycte':
@@ -812,9 +808,9 @@ class MultiDomain(object):
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
                 # adds the penalty stiffness to ycte of panel 1 and panel 2 coupling position
-                kC_conn += connections.kCSSycte.fkCSSycte12(
+                kC_conn += upper_block(connections.kCSSycte.fkCSSycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 # adds the penalty stiffness to ycte of panel pB position
                 kC_conn += connections.kCSSycte.fkCSSycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
@@ -825,9 +821,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCSSxcte.fkCSSxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSSxcte.fkCSSxcte12(
+                kC_conn += upper_block(connections.kCSSxcte.fkCSSxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCSSxcte.fkCSSxcte22(
                         kt, kr, pA, pB, connecti['xcte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -838,8 +834,8 @@ class MultiDomain(object):
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
-                        size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_block(connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
             
@@ -848,9 +844,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFycte.fkCBFycte11(
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFycte.fkCBFycte12(
+                kC_conn += upper_block(connections.kCBFycte.fkCBFycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCBFycte.fkCBFycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -860,9 +856,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFxcte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFxcte.fkCBFxcte12(
+                kC_conn += upper_block(connections.kCBFxcte.fkCBFxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCBFxcte.fkCBFxcte22(
                         kt, kr, pA, pB, connecti['xcte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -889,8 +885,8 @@ class MultiDomain(object):
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
-                        size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_block(connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
                 
@@ -900,7 +896,8 @@ class MultiDomain(object):
 
         if finalize:
             kC_conn = finalize_symmetric_matrix(kC_conn)
-        self.kC_conn = kC_conn
+        if cache:
+            self.kC_conn = kC_conn
         #NOTE memory cleanup
         gc.collect()
         return kC_conn
@@ -948,7 +945,7 @@ class MultiDomain(object):
         # NOTE move this to another class method? it's a bid hidden
         # Adding kC_conn to KC panel
         kC_conn = self.get_kC_conn(conn=conn)
-        kC += self.kC_conn
+        kC += kC_conn
 
         self.kC = kC
         msg('finished!', level=2, silent=silent)
-- 
2.43.0


From 7a119d63e4863d2130e80c3f8ac623d567fe3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 09/49] fix: MultiDomain.calc_kT raised TypeError

---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index ee6bc6b..0a6cd0f 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -1011,7 +1011,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kT += p.calc_kC(c=c, size=size, row0=p.row_start, col0=p.col_start,
-                    silent=silent, finalize=False, inc=inc, NLgeom=True)
+                    silent=silent, finalize=False, NLgeom=True)
             kT += p.calc_kG(c=c, size=size, row0=p.row_start,
                     col0=p.col_start, silent=silent, finalize=False, NLgeom=True)
         if finalize:
-- 
2.43.0


From 489efe59d5d3ae6261b7fb222d74a182707daf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 10/49] fix: calc_kM and calc_kA of a new shell raised KeyError
 and did not raise the number of integration points

---
 panels/shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 4649315..a659448 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -589,6 +589,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
+        self._rebuild()
         analytical_kM = not self._is_partial_domain()
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
@@ -641,6 +642,7 @@ class Shell(object):
         r"""Calculate the aerodynamic matrix using the linear piston theory
         """
         msg('Calculating kA... ', level=2, silent=silent)
+        self._rebuild()
 
 
         matrices_num = modelDB.db[self.model]['matrices_num']
-- 
2.43.0


From 3ab0fc88bbd84255f331be32349f08fd2961aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 11/49] fix: sign of the laminate offset in the mass matrix,
 opposite to that of the stiffness

---
 panels/models/cylshell_clpt_donnell_bardell.pyx  | 8 ++++----
 panels/models/plate_clpt_donnell_bardell.pyx     | 8 ++++----
 panels/models/plate_clpt_donnell_bardell_num.pyx | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index 56a0362..5e1ae0e 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -417,7 +417,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -425,15 +425,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 9f4dc0a..d4219df 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -415,7 +415,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+0
                         kMc[c] = col+2
-                        kMv[c] += 0.5*b*d*fAufBwxi*gAugBw*h*rho
+                        kMv[c] += -0.5*b*d*fAufBwxi*gAugBw*h*rho
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+1
@@ -423,15 +423,15 @@ def fkM(object shell, double d, int size, int row0, int col0):
                         c += 1
                         kMr[c] = row+1
                         kMc[c] = col+2
-                        kMv[c] += 0.5*a*d*fAvfBw*gAvgBweta*h*rho
+                        kMv[c] += -0.5*a*d*fAvfBw*gAvgBweta*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+0
-                        kMv[c] += 0.5*b*d*fAwxifBu*gAwgBu*h*rho
+                        kMv[c] += -0.5*b*d*fAwxifBu*gAwgBu*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+1
-                        kMv[c] += 0.5*a*d*fAwfBv*gAwetagBv*h*rho
+                        kMv[c] += -0.5*a*d*fAwfBv*gAwetagBv*h*rho
                         c += 1
                         kMr[c] = row+2
                         kMc[c] = col+2
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 1e19deb..65f7ee9 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -677,7 +677,7 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+0
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAu*fBwxi*gAu*gBw*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
@@ -687,17 +687,17 @@ def fkM_num(object shell, double offset, object hrho_input, int size,
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+1
                                     kMc[c] = col+2
-                                kMv[c] += weight*( 0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAv*fBw*gAv*gBweta*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+0
-                                kMv[c] += weight*( 0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
+                                kMv[c] += weight*( -0.5*d*fAwxi*fBu*gAw*gBu*h*intx*inty*rho/a )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
                                     kMc[c] = col+1
-                                kMv[c] += weight*( 0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
+                                kMv[c] += weight*( -0.5*d*fAw*fBv*gAweta*gBv*h*intx*inty*rho/b )
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kMr[c] = row+2
-- 
2.43.0


From bd4d49a776b190b028dc1c7badcf5221465b9527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:52 +0000
Subject: [PATCH 12/49] fix: analytic mass matrix ignored the densities of the
 plies

---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 4 ++--
 panels/models/plate_clpt_donnell_bardell.pyx    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index 5e1ae0e..0a0c7da 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -359,8 +359,8 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
-    h = sum(shell.plyts)
+    h = shell.lam.h
+    rho = shell.lam.intrho/h
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index d4219df..6d8f5dd 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -357,8 +357,8 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
-    h = sum(shell.plyts)
+    h = shell.lam.h
+    rho = shell.lam.intrho/h
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From e26ffec796f87c9540446e3fb0329e9e661b3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:24 +0000
Subject: [PATCH 13/49] fix: aerodynamic matrix kept the parameters of the
 first calculation when Mach, V or rho_air changed

---
 panels/shell.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index a659448..01d1955 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -654,14 +654,16 @@ class Shell(object):
 
         self.r = self.r if self.r is not None else 0.
 
+        beta_given = self.beta
+        gamma_given = self.gamma
         if self.beta is None:
-            if self.Mach is None:
+            Mach = self.Mach
+            if Mach is None:
                 raise ValueError('Mach number cannot be a NoneValue')
-            elif self.Mach < 1:
+            elif Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            elif Mach == 1:
+                Mach = 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if self.r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -671,15 +673,20 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
+        # NOTE needed by the functions below, restored afterwards such that
+        #      the next calculation uses the values that will be set by then
         self.beta = beta
         self.gamma = gamma
-
-        if self.flow.lower() == 'x':
-            kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-        elif self.flow.lower() == 'y':
-            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
-        else:
-            raise ValueError('Invalid flow value, must be x or y')
+        try:
+            if self.flow.lower() == 'x':
+                kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
+            elif self.flow.lower() == 'y':
+                kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
+            else:
+                raise ValueError('Invalid flow value, must be x or y')
+        finally:
+            self.beta = beta_given
+            self.gamma = gamma_given
 
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
-- 
2.43.0


From 33cfbd901b47e1a27587b52c1af646641e298f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:40 +0000
Subject: [PATCH 14/49] fix: calc_cA raised AttributeError, for a stiffened bay
 TypeError, and returned nothing

---
 panels/shell.py                       | 10 +++++++---
 panels/stiffpanelbay/stiffpanelbay.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 01d1955..40005c9 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -702,15 +702,17 @@ class Shell(object):
         return kA
 
 
-    def calc_cA(self, aeromu, silent=True, size=None, finalize=True):
+    def calc_cA(self, aeromu, silent=True, size=None, finalize=True, row0=0,
+            col0=0):
         r"""Calculate the aerodynamic damping matrix using the piston theory
         """
         msg('Calculating cA... ', level=2, silent=silent)
+        self._rebuild()
 
         if size is None:
             size = self.get_size()
-        matrices_num = modelDB.db[self.model]['matrices_num']
-        cA = matrices_num.fcA(aeromu, self, size, 0, 0)
+        matrices = modelDB.db[self.model]['matrices']
+        cA = matrices.fcA(aeromu, self, size, row0, col0)
         cA = cA*(0+1j)
 
         if finalize:
@@ -722,6 +724,8 @@ class Shell(object):
 
         msg('finished!', level=2, silent=silent)
 
+        return cA
+
 
     def uvw(self, c, xs=None, ys=None, gridx=300, gridy=300):
         r"""Calculate the displacement field
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d44397..fb292b2 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -760,7 +760,7 @@ class StiffPanelBay(object):
         msg('Calculating cA... ', level=2, silent=silent)
         a = self.a
         b = self.b
-        r = self.r
+        r = self.r if self.r is not None else 0.
         m = self.m
         n = self.n
         size = self.get_size()
@@ -772,7 +772,10 @@ class StiffPanelBay(object):
                 self.Mach = 1.0001
             Mach = self.Mach
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
+            if r != 0.:
+                gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
+            else:
+                gamma = 0.
             ainf = self.speed_sound
             aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
         else:
@@ -782,7 +785,8 @@ class StiffPanelBay(object):
 
         # contributions from panels
         p = self.panels[0]
-        p.calc_cA(size=size, row0=0, col0=0, silent=silent)
+        p.calc_cA(aeromu, size=size, row0=0, col0=0, silent=silent,
+                  finalize=False)
         cA = p.matrices['cA']
 
         cA = finalize_symmetric_matrix(cA)
-- 
2.43.0


From 4c4f41c93976965a56b93dabc6b9b7c8cda226e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 15/49] fix: aerodynamic matrix of a stiffened bay ignored its
 beta and gamma, all panels but the first and the 2D stiffeners in its size

---
 panels/stiffpanelbay/stiffpanelbay.py | 37 ++++++++++++++-------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index fb292b2..721ec10 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -720,25 +720,26 @@ class StiffPanelBay(object):
             gamma = self.gamma if self.gamma is not None else 0.
             aeromu = self.aeromu if self.aeromu is not None else 0.
 
+        size = self.get_size()
+
         # contributions from panels
-        #TODO summing up coo_matrix objects may be slow!
-        #FIXME this only works if the first panel represent the full
-        #      stiffpanelbay domain (mainly integration interval, boundary
-        #      conditions)
-        p = self.panels[0]
-        #FIXME the initialization below looks terrible
-        #      we should move as quick as possible to the strategy of using
-        #      classes more to carry data, avoiding these intrincated methods
-        #      shared among classes... (calc_kC, calc_kG etc)
-        p.flow = self.flow
-        p.Mach = self.Mach
-        p.rho_air = self.rho_air
-        p.speed_sound = self.speed_sound
-        p.size = self.size
-        p.V = self.V
-        p.r = self.r
-        p.calc_kA(silent=True, finalize=False)
-        kA = p.matrices['kA']
+        kA = 0.
+        for p in self.panels:
+            #FIXME the initialization below looks terrible
+            #      we should move as quick as possible to the strategy of using
+            #      classes more to carry data, avoiding these intrincated methods
+            #      shared among classes... (calc_kC, calc_kG etc)
+            p.flow = self.flow
+            p.beta = self.beta
+            p.gamma = self.gamma
+            p.Mach = self.Mach
+            p.rho_air = self.rho_air
+            p.speed_sound = self.speed_sound
+            p.V = self.V
+            p.r = self.r
+            p.calc_kA(size=size, row0=0, col0=0, silent=True, finalize=False)
+            #TODO summing up coo_matrix objects may be slow!
+            kA += p.matrices['kA']
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-- 
2.43.0


From e94fca7f64136ded0f7c75b5f44656e3d44d8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 16/49] fix: size of a stiffened bay with a 2D stiffener
 without flange raised

---
 panels/stiffpanelbay/stiffpanelbay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 721ec10..815fbb3 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -218,7 +218,8 @@ class StiffPanelBay(object):
         self.size = dofs*self.m*self.n
 
         for s in self.bladestiff2ds:
-            self.size += s.flange.get_size()
+            if s.flange is not None:
+                self.size += s.flange.get_size()
 
         for s in self.tstiff2ds:
             self.size += s.base.get_size() + s.flange.get_size()
-- 
2.43.0


From bfa96dc5d957622776a4c861d0d61247b74235c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 17/49] fix: displacements of the second 2D stiffener of a bay
 raised AttributeError

---
 panels/stiffpanelbay/stiffpanelbay.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 815fbb3..a143cd1 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -928,13 +928,11 @@ class StiffPanelBay(object):
         row_init = dofs*self.m*self.n
 
         # getting array position
-        for i, s in enumerate(self.stiffeners):
-            if i > 0:
-                s_1 = self.stiffeners[i-1]
-                if isinstance(s, BladeStiff2D):
-                    row_init += s_1.get_size()
-            if i == si:
+        for s in self.stiffeners:
+            if s is stiff:
                 break
+            if isinstance(s, BladeStiff2D) and s.flange is not None:
+                row_init += s.flange.get_size()
 
         if region.lower() == 'flange':
             bstiff = stiff.flange.b
-- 
2.43.0


From ca8fdfb92b8f635d6ae867065f9bc6b7225a42b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 18/49] fix: mass of the 1D stiffener flange: doubled offset
 coupling and thickness of the base ignored

---
 panels/stiffener/bladestiff1d.py                          | 1 +
 .../stiffener/models/bladestiff1d_clt_donnell_bardell.pyx | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 015c9ec..310cecd 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -90,6 +90,7 @@ class BladeStiff1D(object):
                     y1w=bay.y1w, y1wr=bay.y1wr, y2w=bay.y2w, y2wr=bay.y2wr,
                     y1=y1, y2=y2)
             self.Asb = self.bb*hb
+        self.hb = hb
 
         #TODO check offset effect on curved panels
         self.dbf = self.bf/2. + hb + h/2.
diff --git a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
index 9b56860..15197b4 100644
--- a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
+++ b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
@@ -233,7 +233,7 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+0
                         kMfc[c] = col+2
-                        kMfv[c] += 2*bf*df*fAufBwxi*gAu*gBw*hf*rho
+                        kMfv[c] += bf*df*fAufBwxi*gAu*gBw*hf*rho
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+1
@@ -241,15 +241,15 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+2
-                        kMfv[c] += 2*a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
+                        kMfv[c] += a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+0
-                        kMfv[c] += 2*bf*df*fAwxifBu*gAw*gBu*hf*rho
+                        kMfv[c] += bf*df*fAwxifBu*gAw*gBu*hf*rho
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+1
-                        kMfv[c] += 2*a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
+                        kMfv[c] += a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+2
-- 
2.43.0


From ad112a7b373024b93eb16d56c7e71639c81415b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 19/49] fix: external forces of a stiffened bay raised
 AttributeError with 2D stiffeners

---
 panels/stiffpanelbay/stiffpanelbay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index a143cd1..d31f649 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1445,6 +1445,7 @@ class StiffPanelBay(object):
             The external force vector
 
         """
+        self._rebuild()
         msg('Calculating external forces...', level=2, silent=silent)
         dofs = panelmDB.db[self.model]['dofs']
         fg = panelmDB.db[self.model]['field'].fg
@@ -1464,11 +1465,13 @@ class StiffPanelBay(object):
         # punctual forces on bladestiff2ds
         # flange
         for s in self.bladestiff2ds:
+            if s.flange is None:
+                continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
             g_flange = np.zeros((3, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
-            for i, force in enumerate(s.flange.forces):
+            for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
                 fpt = np.array([[fx, fy, fz]])
-- 
2.43.0


From 195c7e6abdf24ef11b67a4d55d2eb8a1f99e452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:27 +0000
Subject: [PATCH 20/49] fix: default points of one panel used for all the next
 ones in the fields of an assembly at given points

---
 panels/multidomain/multidomain.py | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 0a6cd0f..db1dc11 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -585,14 +585,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            xs, ys = x_gauss, y_gauss
+            if xs is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xs = linspace(0, panel.a, no_grid_x)
+            if ys is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                ys = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(xs, ys, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -656,14 +657,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            xs, ys = x_gauss, y_gauss
+            if xs is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xs = linspace(0, panel.a, no_grid_x)
+            if ys is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                ys = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(xs, ys, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -724,14 +726,15 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            xs, ys = x_gauss, y_gauss
+            if xs is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                xs = linspace(0, panel.a, no_grid_x)
+            if ys is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                ys = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(xs, ys, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
-- 
2.43.0


From 1f73eab4373b0203a32e708e3d62b1778db2fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 21/49] fix: offset of the base of a 2D stiffener ignored the
 thickness of panels defined by a unique ply thickness

---
 panels/stiffener/bladestiff2d.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f4d0c50..ce28e60 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -92,6 +92,7 @@ class BladeStiff2D(object):
             h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
             hb = sum(self.bplyts)
             self.dpb = h/2. + hb/2.
+            self.base.offset = -h/2. - hb/2.
             self.base.lam = laminated_plate(self.bstack, plyts=self.bplyts,
                                             laminaprops=self.blaminaprops,
                                             offset=(-h/2.-hb/2.))
-- 
2.43.0


From 6f7c79e6a630e2c422b5383e8c2c6c63fcf1600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 22/49] fix: 1D stiffener with only a base raised TypeError
 when no flange width was given

---
 panels/stiffener/bladestiff1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 310cecd..b309def 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -36,7 +36,7 @@ class BladeStiff1D(object):
         self.ys = ys
         self.bb = bb
         self.hb = 0.
-        self.bf = bf
+        self.bf = bf if bf is not None else 0.
         self.hf = 0.
 
         self.bstack = bstack
-- 
2.43.0


From 8b0b8c867d744c1dcc80c8ea700c8a0c40832bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 23/49] fix: displacements of a stiffened bay at
 two-dimensional arrays of points raised ValueError

---
 panels/stiffpanelbay/stiffpanelbay.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index d31f649..6f82309 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -849,10 +849,7 @@ class StiffPanelBay(object):
         a = self.a
         b = self.b
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
 
         if c.shape[0] == self.get_size():
             dofs = panelmDB.db[self.model]['dofs']
@@ -948,10 +945,7 @@ class StiffPanelBay(object):
         else:
             raise ValueError('c must be the full vector of Ritz constants')
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
 
         if region.lower() == 'flange':
             fuvw = panelmDB.db[s.flange.model]['field'].fuvw
-- 
2.43.0


From 712b752c08d57977871c53cad965a5df5c25aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 24/49] fix: calc_fint raised for a new shell and for an
 assembly, used the laminate of the last matrix calculated and read past a
 short vector

---
 panels/shell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 40005c9..aa1a803 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1191,6 +1191,7 @@ class Shell(object):
             The internal force vector
 
         """
+        self._rebuild()
         msg('Calculating internal forces...', level=2, silent=silent)
         model = self.model
         if not model in modelDB.db.keys():
@@ -1216,7 +1217,8 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
-        fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
+        check_c(c, size)
+        fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
 
-- 
2.43.0


From a0e67d4540319f48d8c85c0fabe9d7ff0557058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 25/49] fix: calc_cA raised TypeError for a size given as a
 string

---
 panels/shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index aa1a803..e6facfa 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -711,6 +711,8 @@ class Shell(object):
 
         if size is None:
             size = self.get_size()
+        elif isinstance(size, str):
+            size = int(size) + self.get_size()
         matrices = modelDB.db[self.model]['matrices']
         cA = matrices.fcA(aeromu, self, size, row0, col0)
         cA = cA*(0+1j)
-- 
2.43.0


From a65553f277d2dfb00a73363ee002bb7690330c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 26/49] fix: geometric stiffness of the flange of a 2D
 stiffener ignored the given displacements

---
 panels/stiffener/bladestiff2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index ce28e60..f5d84d2 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -183,7 +183,7 @@ class BladeStiff2D(object):
             pass
         if self.flange is not None:
             kG += self.flange.calc_kG(size=size, row0=row0, col0=col0,
-                    silent=True, finalize=False, NLgeom=NLgeom)
+                    silent=True, finalize=False, c=c, NLgeom=NLgeom)
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
-- 
2.43.0


From c7d579060186010789125a392ba39386dc844801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 27/49] fix: stretch-twist coupling of the 1D stiffener flange
 used Q16 for Q26 in the condensed modulus

---
 panels/stiffener/bladestiff1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index b309def..bdcb5c8 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -110,7 +110,7 @@ class BladeStiff1D(object):
                 if i > 0:
                     yply += self.flam.plies[i-1].h/2. + self.flam.plies[i].h/2.
                 self.E1 += ply.h*(ply.q11L - ply.q12L**2/ply.q22L)
-                self.S1 += -yply*ply.h*(ply.q16L - ply.q12L*ply.q16L/ply.q22L)
+                self.S1 += -yply*ply.h*(ply.q16L - ply.q12L*ply.q26L/ply.q22L)
 
             self.F1 = self.bf**2/12.*self.E1
 
-- 
2.43.0


From 3890a24952908ba58c9426c4e84f5cc59bc03e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 28/49] fix: external forces on the skin of a stiffened bay
 raised ValueError

---
 panels/models/clpt_bardell_field.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index 0a9a0e1..253ea62 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -314,8 +314,8 @@ def fg(double[:, ::1] g, double x, double y, object s):
     # Accessing the contiguous memory layout for C 
     # ::1 at the 2nd position means that the elements in this 2nd dimension will be 1 element apart in memory.
     
-    if s.__class__.__name__ != 'Shell':
-        raise ValueError('A Shell object must be passed')
+    if not s.__class__.__name__ in ('Shell', 'StiffPanelBay'):
+        raise ValueError('A Shell or StiffPanelBay object must be passed')
     a = s.a
     b = s.b
     m = s.m
-- 
2.43.0


From d10323721fedb15ecdb12b9db1b1ca5009a2889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 29/49] fix: external forces of a stiffened bay wrote past the
 end of the shape function matrix

---
 panels/stiffpanelbay/stiffpanelbay.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 6f82309..05a56df 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1446,14 +1446,14 @@ class StiffPanelBay(object):
 
         # punctual forces on skin
         size = dofs*self.m*self.n
-        g = np.zeros((3, size), dtype=DOUBLE)
+        g = np.zeros((5, size), dtype=DOUBLE)
         fext_skin = np.zeros(size, dtype=DOUBLE)
         for i, force in enumerate(self.forces_skin):
             x, y, fx, fy, fz = force
             fg(g, x, y, self)
 
             fpt = np.array([[fx, fy, fz]])
-            fext_skin += fpt.dot(g).ravel()
+            fext_skin += fpt.dot(g[:3]).ravel()
 
         fext = fext_skin
         # punctual forces on bladestiff2ds
@@ -1463,13 +1463,13 @@ class StiffPanelBay(object):
                 continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
             for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
                 fpt = np.array([[fx, fy, fz]])
-                fext_stiffener += fpt.dot(g_flange).ravel()
+                fext_stiffener += fpt.dot(g_flange[:3]).ravel()
 
             fext = np.concatenate((fext, fext_stiffener))
 
@@ -1477,25 +1477,25 @@ class StiffPanelBay(object):
         for s in self.tstiff2ds:
             # base
             size = s.base.get_size()
-            g_base = np.zeros((3, size), dtype=DOUBLE)
+            g_base = np.zeros((5, size), dtype=DOUBLE)
             fext_base = np.zeros(size, dtype=DOUBLE)
             fg_base = panelmDB.db[s.base.model]['field'].fg
             for i, force in enumerate(s.base.forces):
                 xb, yb, fx, fy, fz = force
                 fg_base(g_base, xb, yb, s.base)
                 fpt = np.array([[fx, fy, fz]])
-                fext_base += fpt.dot(g_base).ravel()
+                fext_base += fpt.dot(g_base[:3]).ravel()
 
             # flange
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_flange = np.zeros(size, dtype=DOUBLE)
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             for i, force in enumerate(s.flange.forces):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
                 fpt = np.array([[fx, fy, fz]])
-                fext_flange += fpt.dot(g_flange).ravel()
+                fext_flange += fpt.dot(g_flange[:3]).ravel()
 
             fext = np.concatenate((fext, fext_base, fext_flange))
 
-- 
2.43.0


From 9a1126fffb4a7e6edd650370682d8bc94e258be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 30/49] fix: cylinder_*_from_static applied the last load given
 to every panel

---
 panels/multidomain/cylinder.py                 | 3 ++-
 panels/multidomain/cylinder_blade_stiffened.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 816182d..ec15b56 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -168,7 +168,8 @@ def cylinder_compression_lb_Nxx_from_static(height, r, stack, plyt, laminaprop,
         raise ValueError('The length of "Nxxs" must be the same as "npanels"')
 
     for i, p in enumerate(assy.panels):
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxxs[i], None, None)
+        # binding the load of this panel, calc_fext() is called after the loop
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxxs[i]: Nxx, None, None)
         p.x2u = 1
 
     fext = assy.calc_fext(silent=True)
diff --git a/panels/multidomain/cylinder_blade_stiffened.py b/panels/multidomain/cylinder_blade_stiffened.py
index b8e25fe..0112f90 100644
--- a/panels/multidomain/cylinder_blade_stiffened.py
+++ b/panels/multidomain/cylinder_blade_stiffened.py
@@ -229,7 +229,8 @@ def cylinder_blade_stiffened_compression_lb_Nxx_from_static(height, r, stack,
         elif 'blade' in p.group:
             i_blade += 1
             Nxx = Nxxs_blade[i_blade]
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        # binding the load of this panel, calc_fext() is called after the loop
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxx: Nxx, None, None)
 
     fext = assy.calc_fext(silent=True)
 
-- 
2.43.0


From 8bcfe90f01c8277be9c84b12f4ab7e19708ca1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 31/49] fix: cylinder_spla ignored the load Nxx and always
 raised TypeError

---
 panels/multidomain/cylinder.py    |  6 +++---
 panels/multidomain/multidomain.py | 15 +++++++++++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index ec15b56..e2f009d 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -221,14 +221,14 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: p.Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
 
     assy.conn = conns
-    analysis = Analysis(assy.calc_fext, assy.calc_kC, assy.calc_fint,
-            assy.calc_kT)
+    analysis = Analysis(assy.calc_fext, assy.calc_fint, assy.calc_kC,
+            assy.calc_kG)
     analysis.NL_method = 'NR'
     analysis.modified_NR = False
     analysis.line_search = False
diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index db1dc11..c46a28c 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -906,7 +906,8 @@ class MultiDomain(object):
         return kC_conn
 
 
-    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.):
+    def calc_kC(self, conn=None, c=None, silent=False, finalize=True, inc=1.,
+                NLgeom=False):
         """Calculate the constitutive stiffness matrix of the assembly
         --- this is kP (made by diagonally assemblying kP_i from the MD paper)
 
@@ -926,6 +927,9 @@ class MultiDomain(object):
             symmetric, should be ``False`` when assemblying.
         inc : float, optional
             Dummy argument needed for non-linear analyses.
+        NLgeom : bool, optional
+            Flag to indicate whether geometrically non-linearities should be
+            considered.
 
         """
         size = self.get_size()
@@ -939,7 +943,7 @@ class MultiDomain(object):
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             # Calc Kc per panel (from the Shell class)
             kC += p.calc_kC(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                    silent=silent, finalize=False) 
+                    silent=silent, finalize=False, NLgeom=NLgeom)
 
         # Make the matrix symm at the end
         if finalize:
@@ -955,7 +959,7 @@ class MultiDomain(object):
         return kC
 
 
-    def calc_kG(self, c=None, silent=False, finalize=True):
+    def calc_kG(self, c=None, silent=False, finalize=True, NLgeom=False):
         """Calculate the geometric stiffness matrix of the assembly
 
         Parameters
@@ -969,6 +973,9 @@ class MultiDomain(object):
         finalize : bool, optional
             Asserts validity of output data and makes the output matrix
             symmetric, should be ``False`` when assemblying.
+        NLgeom : bool, optional
+            Flag to indicate whether geometrically non-linearities should be
+            considered.
 
         """
         size = self.get_size()
@@ -981,7 +988,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kG += p.calc_kG(c=c, row0=p.row_start, col0=p.col_start, size=size,
-                            silent=silent, finalize=False)
+                            silent=silent, finalize=False, NLgeom=NLgeom)
         if finalize:
             kG = finalize_symmetric_matrix(kG)
         self.kG = kG
-- 
2.43.0


From 338dd04f85df56b48174ca498438a4ef4fba2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 32/49] fix: tstiff2d_1stiff_flutter raised TypeError for loads
 left at None

---
 panels/multidomain/tstiff2d_1stiff_flutter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 8d61feb..2f571bf 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -121,6 +121,11 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
         :pyobject: test_tstiff2d_1stiff_flutter
 
     """
+    any_load = not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None)
+    # a load that is not given is null
+    Nxx_skin = 0. if Nxx_skin is None else Nxx_skin
+    Nxx_base = 0. if Nxx_base is None else Nxx_base
+    Nxx_flange = 0. if Nxx_flange is None else Nxx_flange
     defect = defect_a * a
     has_defect = True if defect > 0 else False
     defect = 0.33*a if defect == 0 else defect # to avoid weird domains
@@ -318,7 +323,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
     k0 = assy.calc_kC(valid_conn)
     c = None
     if run_static_case:
-        if not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None):
+        if any_load:
             fext = np.zeros(size)
             for p in [p07, p08, p09, p14, p15]:
                 p.add_distr_load_fixed_x(0, lambda y: p.Nxx, None, None)
-- 
2.43.0


From e26b3b322a2559e2201c4e70c9008d2520b6d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 33/49] fix: calculations of a flat Shell changed its radius
 from None to 0

---
 panels/models/clpt_bardell_field.pyx |  2 +-
 panels/shell.py                      | 10 +++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index 253ea62..5ab597c 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -125,7 +125,7 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
     cdef double y1w, y1wr, y2w, y2wr
     a = s.a
     b = s.b
-    r = s.r if s.r is not None else 0. # flat panels, see Shell.calc_kC
+    r = s.r if s.r is not None else 0. # flat panels
     m = s.m
     n = s.n
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
diff --git a/panels/shell.py b/panels/shell.py
index e6facfa..743dce4 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -448,7 +448,6 @@ class Shell(object):
         # Num integration points
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
-        self.r = self.r if self.r is not None else 0.
 
         if c is None:
             # Empty c if the interest is only on the heterogeneous
@@ -535,7 +534,6 @@ class Shell(object):
         matrices = modelDB.db[self.model]['matrices']
         matrices_num = modelDB.db[self.model]['matrices_num']
 
-        self.r = self.r if self.r is not None else 0.
 
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
@@ -597,7 +595,6 @@ class Shell(object):
         matrices = modelDB.db[self.model]['matrices']
         matrices_num = modelDB.db[self.model]['matrices_num']
 
-        self.r = self.r if self.r is not None else 0.
 
         if size is None:
             size = self.get_size()
@@ -652,7 +649,7 @@ class Shell(object):
         elif isinstance(size, str):
             size = int(size) + self.get_size()
 
-        self.r = self.r if self.r is not None else 0.
+        r = self.r if self.r is not None else 0.
 
         beta_given = self.beta
         gamma_given = self.gamma
@@ -665,8 +662,8 @@ class Shell(object):
             elif Mach == 1:
                 Mach = 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            if self.r != 0.:
-                gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
+            if r != 0.:
+                gamma = beta*1./(2.*r*(Mach**2 - 1)**0.5)
             else:
                 gamma = 0.
         else:
@@ -1213,7 +1210,6 @@ class Shell(object):
         elif isinstance(size, str):
             size = int(size) + self.get_size()
 
-        self.r = self.r if self.r is not None else 0.
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
-- 
2.43.0


From 8d47bc70531d9d6555c753fd770a9a79de6be9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 34/49] fix: changes of plyt, laminaprop, rho, stack or r after
 the first calculation were ignored

---
 panels/multidomain/multidomain.py |  4 +--
 panels/shell.py                   | 52 ++++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index c46a28c..406a984 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -526,7 +526,7 @@ class MultiDomain(object):
             kyy = reshape(kyy, shape)
             kxy = reshape(kxy, shape)
             Ns = np.zeros((exx.shape + (6,)))
-            F = panel.ABD
+            F = panel._get_current_ABD()
             if F is None:
                 raise ValueError('Laminate ABD matrix not defined for panel')
             for i in range(6):
@@ -753,7 +753,7 @@ class MultiDomain(object):
             kyy = reshape(kyy, shape)
             kxy = reshape(kxy, shape)
             Ns = np.zeros((exx.shape + (6,)))
-            F = panel.ABD
+            F = panel._get_current_ABD()
             if F is None:
                 raise ValueError('Laminate ABD matrix not defined for panel')
             for i in range(6):
diff --git a/panels/shell.py b/panels/shell.py
index 743dce4..a7a3308 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -89,6 +89,7 @@ class Shell(object):
         'num_eigvalues', 'num_eigvalues_print',
         'out_num_cores', 'increments', 'results',
         'lam', 'matrices', 'fields', 'plot_mesh',
+        '_derived',
         ]
 
     def __init__(self, a=None, b=None, r=None,
@@ -188,6 +189,9 @@ class Shell(object):
         self.y2w = 0.
         self.y2wr = 1.
 
+        # what was derived from other attributes, see _rebuild
+        self._derived = {}
+
         # material
         self.plyts = None
         self.laminaprops = None
@@ -238,14 +242,23 @@ class Shell(object):
         gc.collect()
 
 
+    def _derive(self, name, func, *sources):
+        # NOTE sets an attribute that was not given, or that was obtained here
+        #      from sources that changed in the meantime
+        value, old = self._derived.get(name, (None, None))
+        current = getattr(self, name)
+        if not current or (current is value
+                           and any(i is not j for i, j in zip(old, sources))):
+            value = func()
+            setattr(self, name, value)
+            self._derived = dict(self._derived, **{name: (value, sources)})
+
+
     def _rebuild(self):
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
-        if self.model is None:
-            if self.r is None:
-                self.model = 'plate_clpt_donnell_bardell'
-            elif self.r is not None:
-                self.model = 'cylshell_clpt_donnell_bardell'
+        self._derive('model', lambda: ('plate_clpt_donnell_bardell' if self.r is None
+            else 'cylshell_clpt_donnell_bardell'), self.r is None)
 
         valid_models = sorted(modelDB.db.keys())
 
@@ -256,18 +269,14 @@ class Shell(object):
         if not self.stack:
             raise ValueError('stack must be defined')
 
-        if not self.laminaprops:
-            if not self.laminaprop:
-                raise ValueError('laminaprop must be defined')
-            self.laminaprops = [self.laminaprop for i in self.stack]
-
-        if not self.rhos:
-            self.rhos = [self.rho for i in self.stack]
-
-        if not self.plyts:
-            if self.plyt is None:
-                raise ValueError('plyt must be defined')
-            self.plyts = [self.plyt for i in self.stack]
+        if not self.laminaprops and not self.laminaprop:
+            raise ValueError('laminaprop must be defined')
+        if not self.plyts and self.plyt is None:
+            raise ValueError('plyt must be defined')
+        nplies = len(self.stack)
+        self._derive('laminaprops', lambda: [self.laminaprop]*nplies, self.laminaprop, nplies)
+        self._derive('rhos', lambda: [self.rho]*nplies, self.rho, nplies)
+        self._derive('plyts', lambda: [self.plyt]*nplies, self.plyt, nplies)
 
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
@@ -276,6 +285,7 @@ class Shell(object):
                                       offset=self.offset)
             self.lam = lam
             self.ABD = self._get_lam_ABD()
+            self._derived = dict(self._derived, ABD=self.ABD)
         self.size = self.get_size()
 
 
@@ -367,6 +377,12 @@ class Shell(object):
         return ABD
 
 
+    def _get_current_ABD(self):
+        if self.lam is not None and self.ABD is self._derived.get('ABD'):
+            self._rebuild() # the laminate may have changed
+        return self.ABD
+
+
     def calc_kC(self, size=None, row0=0, col0=0, silent=True, finalize=True,
             c=None, c_cte=None, nx=None, ny=None, ABDnxny=None, NLgeom=False):
         r"""Calculate the constitutive stiffness matrix
@@ -860,7 +876,7 @@ class Shell(object):
         kyy = fields['kyy']
         kxy = fields['kxy']
         if ABD is None:
-            ABD = self.ABD
+            ABD = self._get_current_ABD()
         if ABD is None:
             raise ValueError('Laminate ABD matrix not defined for shell')
         #TODO implement for variable stiffness!
-- 
2.43.0


From 4973785de74e849e44827c5c75d7cf352d1849f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 35/49] fix: the stiffness of the connections of an assembly
 was not updated when panels or connections changed

---
 panels/multidomain/multidomain.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 406a984..544436b 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -90,6 +90,7 @@ class MultiDomain(object):
     def __init__(self, panels, conn=None):
         # Initialize the assmbly obj with these values
         self.conn = conn
+        self._last_conn = None
         self.kC_conn = None
         self.panels = panels
         self.size = None
@@ -779,14 +780,11 @@ class MultiDomain(object):
         '''
         if conn is None:
             # NOTE without its own connections, the assembly keeps the last ones given
-            if self.kC_conn is not None:
-                return self.kC_conn
-            if self.conn is None:
+            conn = self.conn if self.conn is not None else self._last_conn
+            if conn is None:
                 raise RuntimeError('No connectivity dictionary defined!')
-            conn = self.conn
-            cache = finalize
         else:
-            cache = finalize and self.conn is None
+            self._last_conn = conn
 
         size = self.get_size()
 
@@ -899,7 +897,7 @@ class MultiDomain(object):
 
         if finalize:
             kC_conn = finalize_symmetric_matrix(kC_conn)
-        if cache:
+        if finalize:
             self.kC_conn = kC_conn
         #NOTE memory cleanup
         gc.collect()
-- 
2.43.0


From e5ed5f9e541f00901f68e9fb3f8675824c48b6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 36/49] fix: aerodynamic calculations of a stiffened bay
 changed its Mach number from 1 to 1.0001

---
 panels/stiffpanelbay/stiffpanelbay.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 05a56df..106c548 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -704,11 +704,11 @@ class StiffPanelBay(object):
         n = self.n
 
         if self.beta is None:
-            if self.Mach < 1:
-                raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
             Mach = self.Mach
+            if Mach < 1:
+                raise ValueError('Mach number must be >= 1')
+            elif Mach == 1:
+                Mach = 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -768,11 +768,11 @@ class StiffPanelBay(object):
         size = self.get_size()
 
         if self.beta is None:
-            if self.Mach < 1:
-                raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
             Mach = self.Mach
+            if Mach < 1:
+                raise ValueError('Mach number must be >= 1')
+            elif Mach == 1:
+                Mach = 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
-- 
2.43.0


From 26b2a320cd152b391136414c7f822e24460b6741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 37/49] fix: get_size and fields raised KeyError before the
 first calculation of a matrix

---
 panels/multidomain/multidomain.py     | 12 ++++++------
 panels/shell.py                       | 19 ++++++++++++-------
 panels/stiffpanelbay/stiffpanelbay.py |  9 ++++++---
 3 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 544436b..74d84f1 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -401,7 +401,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
-            model = panel.model
+            model = panel._get_model()
             fuvw = modelDB.db[model]['field'].fuvw
             x, y, shape = default_field(panel, gridx, gridy)
             x = np.ascontiguousarray(x)
@@ -455,7 +455,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
-            model = panel.model
+            model = panel._get_model()
             # In panels\panels\models - for plates, clpt_bardell_field
             fstrain = modelDB.db[model]['field'].fstrain
             
@@ -513,7 +513,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
-            model = panel.model
+            model = panel._get_model()
             fstrain = modelDB.db[model]['field'].fstrain
             x, y, shape = default_field(panel, gridx, gridy)
             x = np.ascontiguousarray(x)
@@ -581,7 +581,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
-            model = panel.model
+            model = panel._get_model()
             fuvw = modelDB.db[model]['field'].fuvw
             
             if x_gauss is None and y_gauss is None:
@@ -652,7 +652,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
-            model = panel.model
+            model = panel._get_model()
             # In panels\panels\models - for plates, clpt_bardell_field
             fstrain = modelDB.db[model]['field'].fstrain
             
@@ -722,7 +722,7 @@ class MultiDomain(object):
                 continue
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
-            model = panel.model
+            model = panel._get_model()
             fstrain = modelDB.db[model]['field'].fstrain
             
             if x_gauss is None and y_gauss is None:
diff --git a/panels/shell.py b/panels/shell.py
index a7a3308..98c9e43 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -254,9 +254,7 @@ class Shell(object):
             self._derived = dict(self._derived, **{name: (value, sources)})
 
 
-    def _rebuild(self):
-        self.nx = max(self.nx, self.m)
-        self.ny = max(self.ny, self.n)
+    def _get_model(self):
         self._derive('model', lambda: ('plate_clpt_donnell_bardell' if self.r is None
             else 'cylshell_clpt_donnell_bardell'), self.r is None)
 
@@ -265,6 +263,13 @@ class Shell(object):
         if not self.model in valid_models:
             raise ValueError('ERROR - valid models are:\n    ' +
                      '\n    '.join(valid_models))
+        return self.model
+
+
+    def _rebuild(self):
+        self.nx = max(self.nx, self.m)
+        self.ny = max(self.ny, self.n)
+        self._get_model()
 
         if not self.stack:
             raise ValueError('stack must be defined')
@@ -314,7 +319,7 @@ class Shell(object):
             obtained by the :method:`.Shell.get_size`
 
         """
-        dofs = modelDB.db[self.model]['dofs']
+        dofs = modelDB.db[self._get_model()]['dofs']
         self.size = dofs*self.m*self.n
         return self.size
 
@@ -776,7 +781,7 @@ class Shell(object):
         c = np.ascontiguousarray(c, dtype=DOUBLE)
 
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
-        fuvw = modelDB.db[self.model]['field'].fuvw
+        fuvw = modelDB.db[self._get_model()]['field'].fuvw
         us, vs, ws, phixs, phiys = fuvw(c, self, xs, ys, self.out_num_cores)
 
         self.plot_mesh['Xs'] = xs.reshape(xshape)
@@ -821,7 +826,7 @@ class Shell(object):
         """
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
-        fstrain = modelDB.db[self.model]['field'].fstrain
+        fstrain = modelDB.db[self._get_model()]['field'].fstrain
         exx, eyy, gxy, kxx, kyy, kxy = fstrain(c, self, xs, ys, self.out_num_cores, int(NLgeom))
 
         self.plot_mesh['Xs'] = xs.reshape(xshape)
@@ -1113,7 +1118,7 @@ class Shell(object):
            account in the calculations.
 
         """
-        fg = modelDB.db[self.model]['field'].fg
+        fg = modelDB.db[self._get_model()]['field'].fg
         size = self.get_size()
         g = np.zeros((5, size), dtype=DOUBLE)
         fg(g, x, y, self)
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 106c548..01e31f0 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -214,6 +214,8 @@ class StiffPanelBay(object):
             The size of the stiffness matrices.
 
         """
+        if self.model is None:
+            self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
 
@@ -921,6 +923,7 @@ class StiffPanelBay(object):
             #TODO why this case isn't working?
             raise RuntimeError('Use plot_skin for the base of BladeStiff2D')
 
+        size = self.get_size()
         dofs = panelmDB.db[self.model]['dofs']
         row_init = dofs*self.m*self.n
 
@@ -940,7 +943,7 @@ class StiffPanelBay(object):
         else:
             raise ValueError('Invalid region')
 
-        if c.shape[0] == self.get_size():
+        if c.shape[0] == size:
             c = c[row_init: row_final]
         else:
             raise ValueError('c must be the full vector of Ritz constants')
@@ -948,11 +951,11 @@ class StiffPanelBay(object):
         xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
 
         if region.lower() == 'flange':
-            fuvw = panelmDB.db[s.flange.model]['field'].fuvw
+            fuvw = panelmDB.db[s.flange._get_model()]['field'].fuvw
             us, vs, ws, phixs, phiys = fuvw(c, s.flange, xs, ys, self.out_num_cores)
 
         elif region.lower() == 'base':
-            fuvw = panelmDB.db[s.base.model]['field'].fuvw
+            fuvw = panelmDB.db[s.base._get_model()]['field'].fuvw
             us, vs, ws, phixs, phiys = fuvw(c, s.base, xs, ys, self.out_num_cores)
 
         self.u = reshape(us, xshape)
-- 
2.43.0


From ae2d22be642be9cddfa127bfa20c805ea827930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 38/49] fix: saving a stiffened bay with panels raised
 AttributeError

---
 panels/stiffpanelbay/stiffpanelbay.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 01e31f0..75c2751 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -132,9 +132,7 @@ class StiffPanelBay(object):
         self.Ys = None
 
         for panel in self.panels:
-            panel.kC = None
-            panel.kM = None
-            panel.kG = None
+            panel._clear_matrices()
 
         for s in self.bladestiff1ds:
             s.kC = None
-- 
2.43.0


From e06621b8e6abbadb3de08dac32ba88f5e91b27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 39/49] fix: stresses of a saved or reloaded shell used the
 laminate of the last matrix calculated

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 98c9e43..6e2d7d3 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -383,7 +383,7 @@ class Shell(object):
 
 
     def _get_current_ABD(self):
-        if self.lam is not None and self.ABD is self._derived.get('ABD'):
+        if self.ABD is not None and self.ABD is self._derived.get('ABD'):
             self._rebuild() # the laminate may have changed
         return self.ABD
 
-- 
2.43.0


From 2666a6c8518acd1383250962bffdf4f308a97a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 40/49] fix: contour plots of the deformed shape moved the
 points against u

---
 panels/plot_shell.py                  | 2 +-
 panels/stiffpanelbay/stiffpanelbay.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index a164724..18ac206 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -147,7 +147,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
             shell.uvw(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
         field_u = shell.fields['u']
         field_v = shell.fields['v']
-        y -= deform_u_sf*field_u
+        y += deform_u_sf*field_u
         x += deform_u_sf*field_v
 
     if isinstance(colormap, str):
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 75c2751..dd84e7e 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1114,8 +1114,8 @@ class StiffPanelBay(object):
                 self.uvw_skin(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
             field_u = self.u
             field_v = self.v
-            y -= deform_u_sf*field_u
-            x += deform_u_sf*field_v
+            y = y + deform_u_sf*field_u
+            x = x + deform_u_sf*field_v
         contour = ax.contourf(x, y, field, levels=levels)
 
         if colorbar:
@@ -1338,8 +1338,8 @@ class StiffPanelBay(object):
                                    gridx=gridx, gridy=gridy)
             field_u = self.u
             field_v = self.v
-            y -= deform_u_sf*field_u
-            x += deform_u_sf*field_v
+            y = y + deform_u_sf*field_u
+            x = x + deform_u_sf*field_v
         contour = ax.contourf(x, y, field, levels=levels)
 
         if colorbar:
-- 
2.43.0


From f8f0465b3b6494f784b539d7472dc4ac328385a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 41/49] fix: contour plots of strains ignored NLgeom

---
 panels/plot_shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index 18ac206..3d17d22 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -107,7 +107,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     if vec in displs:
         shell.uvw(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
     elif vec in strains:
-        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
+        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     elif vec in stresses:
         shell.stress(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     else:
-- 
2.43.0


From 6fc122b9f88b747ee71ba5223bb9673071ca952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:45 +0000
Subject: [PATCH 42/49] fix: contour plots left their own points with the
 fields calculated before

---
 panels/plot_shell.py                  |  4 ++++
 panels/stiffpanelbay/stiffpanelbay.py | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index 3d17d22..9266d75 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -99,6 +99,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     msg('Plotting contour...')
 
     fields_bkp = deepcopy(shell.fields)
+    plot_mesh_bkp = deepcopy(shell.plot_mesh)
 
     msg('Computing field variables...', level=1)
     displs = ['u', 'v', 'w', 'phix', 'phiy']
@@ -210,6 +211,9 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     for k, v in fields_bkp.items():
         if v is not None:
             shell.fields[k] = v
+    for k, v in plot_mesh_bkp.items():
+        if v is not None:
+            shell.plot_mesh[k] = v
 
     msg('finished!')
 
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index dd84e7e..7df4441 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1067,6 +1067,7 @@ class StiffPanelBay(object):
 
         ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
                                               self.phix, self.phiy)
+        Xsbkp, Ysbkp = self.Xs, self.Ys
 
         import matplotlib
         import matplotlib.pyplot as plt
@@ -1177,6 +1178,10 @@ class StiffPanelBay(object):
             self.phix = phixbkp
         if phiybkp is not None:
             self.phiy = phiybkp
+        if Xsbkp is not None:
+            self.Xs = Xsbkp
+        if Ysbkp is not None:
+            self.Ys = Ysbkp
 
         msg('finished!', silent=silent)
 
@@ -1289,6 +1294,7 @@ class StiffPanelBay(object):
 
         ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
                                               self.phix, self.phiy)
+        Xsbkp, Ysbkp = self.Xs, self.Ys
 
         import matplotlib.pyplot as plt
         import matplotlib
@@ -1401,6 +1407,10 @@ class StiffPanelBay(object):
             self.phix = phixbkp
         if phiybkp is not None:
             self.phiy = phiybkp
+        if Xsbkp is not None:
+            self.Xs = Xsbkp
+        if Ysbkp is not None:
+            self.Ys = Ysbkp
 
         msg('finished!', silent=silent)
 
-- 
2.43.0


From 49632635e8f9be0088d82c6a3e0fae736668417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 43/49] fix: fields read past the end of short vectors and of
 the 30 functions

---
 panels/models/clpt_bardell_field.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index 5ab597c..a4cd727 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -40,6 +40,10 @@ def fuvw(double [::1] c, object s, double [::1] xs, double [::1] ys,
     b = s.b
     m = s.m
     n = s.n
+    if m > NMAX or n > NMAX:
+        raise ValueError('At most %d terms are available along each direction' % NMAX)
+    if c.shape[0] < DOF*m*n:
+        raise ValueError('"c" must have all the Ritz constants of the domain')
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
     x1v = s.x1v; x1vr = s.x1vr; x2v = s.x2v; x2vr = s.x2vr
     x1w = s.x1w; x1wr = s.x1wr; x2w = s.x2w; x2wr = s.x2wr
@@ -128,6 +132,10 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
     r = s.r if s.r is not None else 0. # flat panels
     m = s.m
     n = s.n
+    if m > NMAX or n > NMAX:
+        raise ValueError('At most %d terms are available along each direction' % NMAX)
+    if c.shape[0] < DOF*m*n:
+        raise ValueError('"c" must have all the Ritz constants of the domain')
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
     x1v = s.x1v; x1vr = s.x1vr; x2v = s.x2v; x2vr = s.x2vr
     x1w = s.x1w; x1wr = s.x1wr; x2w = s.x2w; x2wr = s.x2wr
@@ -320,6 +328,8 @@ def fg(double[:, ::1] g, double x, double y, object s):
     b = s.b
     m = s.m
     n = s.n
+    if m > NMAX or n > NMAX:
+        raise ValueError('At most %d terms are available along each direction' % NMAX)
     cfg(g, m, n, x, y, a, b,
         s.x1u, s.x1ur, s.x2u, s.x2ur,
         s.x1v, s.x1vr, s.x2v, s.x2vr,
-- 
2.43.0


From e43399b348d4389633a1f0b321fe1139159b5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:00 +0000
Subject: [PATCH 44/49] fix: series of more than 30 terms gave matrices of
 zeros instead of an error

---
 panels/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 6e2d7d3..181867b 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -12,6 +12,7 @@ from structsolve.sparseutils import remove_null_cols, make_skew_symmetric, final
 
 from .logger import msg, warn
 from . import modelDB
+from . bardell import NUM
 from . shell_fext import shell_fext
 
 DOUBLE = np.float64
@@ -319,6 +320,8 @@ class Shell(object):
             obtained by the :method:`.Shell.get_size`
 
         """
+        if self.m > NUM or self.n > NUM:
+            raise ValueError('At most {0} terms are available along each direction'.format(NUM))
         dofs = modelDB.db[self._get_model()]['dofs']
         self.size = dofs*self.m*self.n
         return self.size
-- 
2.43.0


From 85a3cd9fed0fffe3c100b5931078e34a4f658112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 45/49] fix: integrations with more than 64 points gave zeros
 instead of an error

---
 panels/legendre_gauss_quadrature.pyx |  4 ++++
 panels/shell.py                      | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/panels/legendre_gauss_quadrature.pyx b/panels/legendre_gauss_quadrature.pyx
index e46337f..46233a1 100644
--- a/panels/legendre_gauss_quadrature.pyx
+++ b/panels/legendre_gauss_quadrature.pyx
@@ -11,5 +11,9 @@ cdef extern from 'legendre_gauss_quadrature.hpp':
 def get_points_weights(int n,
                        double [::1] points,
                        double [::1] weights):
+    if n < 1 or n > 64:
+        raise ValueError('Rules are available from 1 to 64 points')
+    if points.shape[0] < n or weights.shape[0] < n:
+        raise ValueError('Arrays points and weights must have room for n values')
     leggauss_quad(n, &points[0], &weights[0])
 
diff --git a/panels/shell.py b/panels/shell.py
index 181867b..cfda749 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -35,6 +35,12 @@ def check_c(c, size):
         raise ValueError('"c" must have the same size as the global stiffness matrix')
 
 
+def check_points(nx, ny):
+    # Legendre-Gauss rules are available up to 64 points
+    if not (1 <= nx <= 64 and 1 <= ny <= 64):
+        raise ValueError('"nx" and "ny" must be between 1 and 64')
+
+
 class Shell(object):
     r"""General shell class that can be used for plates or shells
 
@@ -491,6 +497,7 @@ class Shell(object):
             kC = matrices.fk0(self, size, row0, col0)
         # This is what happens for NL Geo
         else:
+            check_points(nx, ny)
             kC = matrices_num.fkC_num(c, ABDnxny, self,
                      size, row0, col0, nx, ny, NLgeom=int(NLgeom))
 
@@ -509,6 +516,7 @@ class Shell(object):
             if analytical_kG:
                 kC += matrices.fkG0(self.Nxx_cte, self.Nyy_cte, self.Nxy_cte, self, size, row0, col0)
             else:
+                check_points(nx, ny)
                 kC += matrices_num.fkG_num(c_cte, ABDnxny, self,
                         size, row0, col0, nx, ny, NLgeom,
                         self.Nxx_cte, self.Nyy_cte, self.Nxy_cte)
@@ -567,6 +575,7 @@ class Shell(object):
         else:
             if ABDnxny is None:
                 ABDnxny = self._get_lam_ABD()
+            check_points(nx, ny)
             kG = matrices_num.fkG_num(c, ABDnxny, self, size, row0, col0,
                                       nx, ny, int(NLgeom), self.Nxx, self.Nyy, self.Nxy)
 
@@ -645,6 +654,7 @@ class Shell(object):
             kM = matrices.fkM(self, self.offset, size, row0, col0)
         else:
             hrho_input = np.concatenate((h_nxny[..., None], rho_nxny[..., None]), axis=2)
+            check_points(nx, ny)
             kM = matrices_num.fkM_num(self, self.offset, hrho_input, size, row0, col0, nx, ny)
 
         if finalize:
@@ -673,6 +683,7 @@ class Shell(object):
         elif isinstance(size, str):
             size = int(size) + self.get_size()
 
+        check_points(self.nx, self.ny)
         r = self.r if self.r is not None else 0.
 
         beta_given = self.beta
@@ -1236,6 +1247,7 @@ class Shell(object):
 
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
+        check_points(nx, ny)
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
-- 
2.43.0


From c2bfe78179df33b01bf318a0d7c3df4f7b292cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 46/49] fix: internal forces were written past the end of a
 vector without room for them

---
 panels/shell.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index cfda749..dffd863 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -35,6 +35,12 @@ def check_c(c, size):
         raise ValueError('"c" must have the same size as the global stiffness matrix')
 
 
+def check_room(size, col0, own):
+    # the values from col0 on are those of the shell
+    if not 0 <= col0 <= size - own:
+        raise ValueError('"size" and "col0" must leave room for all terms of the shell')
+
+
 def check_points(nx, ny):
     # Legendre-Gauss rules are available up to 64 points
     if not (1 <= nx <= 64 and 1 <= ny <= 64):
@@ -450,6 +456,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
+        check_room(size, col0, self.get_size())
         msg('Calculating kC... ', level=2, silent=silent)
 
         analytical_kC = True
@@ -549,6 +556,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
+        check_room(size, col0, self.get_size())
         analytical_kG = True
         if c is not None:
             check_c(c, size)
@@ -1244,6 +1252,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
+        check_room(size, col0, self.get_size())
 
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
-- 
2.43.0


From 9e763db7c98b67e4c75e415d0405ceb02b62171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:06 +0000
Subject: [PATCH 47/49] fix: displacements and strains were calculated from
 coordinates past the end of ys

---
 panels/models/clpt_bardell_field.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index a4cd727..1f7cab3 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -44,6 +44,8 @@ def fuvw(double [::1] c, object s, double [::1] xs, double [::1] ys,
         raise ValueError('At most %d terms are available along each direction' % NMAX)
     if c.shape[0] < DOF*m*n:
         raise ValueError('"c" must have all the Ritz constants of the domain')
+    if ys.shape[0] != xs.shape[0]:
+        raise ValueError('"xs" and "ys" must have the same length')
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
     x1v = s.x1v; x1vr = s.x1vr; x2v = s.x2v; x2vr = s.x2vr
     x1w = s.x1w; x1wr = s.x1wr; x2w = s.x2w; x2wr = s.x2wr
@@ -136,6 +138,8 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
         raise ValueError('At most %d terms are available along each direction' % NMAX)
     if c.shape[0] < DOF*m*n:
         raise ValueError('"c" must have all the Ritz constants of the domain')
+    if ys.shape[0] != xs.shape[0]:
+        raise ValueError('"xs" and "ys" must have the same length')
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
     x1v = s.x1v; x1vr = s.x1vr; x2v = s.x2v; x2vr = s.x2vr
     x1w = s.x1w; x1wr = s.x1wr; x2w = s.x2w; x2wr = s.x2wr
-- 
2.43.0


From fc14df2958ebcdaa623868ceebc4c0ce328cc87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:06 +0000
Subject: [PATCH 48/49] fix: external forces were placed elsewhere when the
 offset left no room for them

---
 panels/shell_fext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/shell_fext.py b/panels/shell_fext.py
index 87dfc95..ef8c55d 100644
--- a/panels/shell_fext.py
+++ b/panels/shell_fext.py
@@ -25,6 +25,8 @@ def shell_fext(shell, inc, size, col0):
     elif isinstance(size, str):
         size = int(size) + shell.get_size()
     col1 = col0 + shell.get_size()
+    if not 0 <= col0 <= col1 <= size:
+        raise ValueError('"size" and "col0" must leave room for all terms of the shell')
     g = np.zeros((5, shell.get_size()), dtype=np.float64)
     fext = np.zeros(size, dtype=np.float64) # A vector bec size = single integer
 
-- 
2.43.0


From c5b8e6043996324aeb369dadb99b3f448391f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 49/49] fix: traction separation connection raised TypeError
 before its panels were calculated

---
 panels/multidomain/connections/penalties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/multidomain/connections/penalties.py b/panels/multidomain/connections/penalties.py
index 5c41cf9..067c2bc 100644
--- a/panels/multidomain/connections/penalties.py
+++ b/panels/multidomain/connections/penalties.py
@@ -42,6 +42,8 @@ def calc_kw_tsl(pA, pB, tsl_type):
         tsl_type = type of TSL to be used
             Possible options: 'linear' (no softening)
     '''
+    pA._rebuild()
+    pB._rebuild()
     if pA.a != pB.a or pA.b != pB.b:
         raise ValueError('Dimensions of both the panels in contact should be same')
     
-- 
2.43.0

