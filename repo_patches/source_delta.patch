From 3af854ca88ae6199ca404554497998078a2b262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 01/54] fix: Shell.calc_kM builds the laminate before using it

It read the laminate of a previous call (or none: AttributeError when
called first or after save, stale after the laminate changed).
---
 panels/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/shell.py b/panels/shell.py
index 59ef4dd..5cfa384 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -577,6 +577,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
+        self._rebuild()
         analytical_kM = True
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
-- 
2.43.0


From f54de72221196f0d2a10494240f14fd14afa6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 02/54] fix: sign of the offset coupling terms in Shell.calc_kM

The constitutive matrix places the laminate at z = offset and uses
u(z) = u - z*w,x; the mass matrix coupled u and w with the opposite sign.
---
 panels/shell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 5cfa384..0c41046 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -609,10 +609,11 @@ class Shell(object):
             analytical_kM = False
 
         if analytical_kM:
-            kM = matrices.fkM(self, self.offset, size, row0, col0)
+            #NOTE u(z) = u - z*w,x and v(z) = v - z*w,y, with the mid-thickness at z = offset
+            kM = matrices.fkM(self, -self.offset, size, row0, col0)
         else:
             hrho_input = np.concatenate((h_nxny[..., None], rho_nxny[..., None]), axis=2)
-            kM = matrices_num.fkM_num(self, self.offset, hrho_input, size, row0, col0, nx, ny)
+            kM = matrices_num.fkM_num(self, -self.offset, hrho_input, size, row0, col0, nx, ny)
 
         if finalize:
             kM = finalize_symmetric_matrix(kM)
-- 
2.43.0


From 248536f71970143d22176c9475edd2a21e8cf70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 03/54] fix: analytical mass matrices use the density of each
 ply

fkM read Shell.rho and ignored Shell.rhos, giving a null mass matrix when
only the density of each ply is defined.
---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index c800f12..637c746 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -359,8 +359,8 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
     h = sum(shell.plyts)
+    rho = shell.lam.intrho/h
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 71b0f50..cb43414 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -357,8 +357,8 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
     h = sum(shell.plyts)
+    rho = shell.lam.intrho/h
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From 99498ef53b42903c92d60669272077a05a9b0b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 04/54] fix: Shell follows changes of stack, plyt, laminaprop
 and rho

The lists with one value per ply were built by the first calculation and
kept, such that later changes of the parameters were silently ignored.
---
 panels/shell.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 0c41046..287c736 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -89,6 +89,7 @@ class Shell(object):
         'num_eigvalues', 'num_eigvalues_print',
         'out_num_cores', 'increments', 'results',
         'lam', 'matrices', 'fields', 'plot_mesh',
+        '_derived',
         ]
 
     def __init__(self, a=None, b=None, r=None,
@@ -192,6 +193,7 @@ class Shell(object):
         self.plyts = None
         self.laminaprops = None
         self.rhos = None
+        self._derived = {} # lists above that were built from laminaprop, rho and plyt
 
         # aeroelastic parameters for panel flutter
         self.flow = 'x'
@@ -256,18 +258,21 @@ class Shell(object):
         if not self.stack:
             raise ValueError('stack must be defined')
 
-        if not self.laminaprops:
+        if not self.laminaprops or self.laminaprops == self._derived.get('laminaprops'):
             if not self.laminaprop:
                 raise ValueError('laminaprop must be defined')
             self.laminaprops = [self.laminaprop for i in self.stack]
+            self._derived['laminaprops'] = list(self.laminaprops)
 
-        if not self.rhos:
+        if not self.rhos or self.rhos == self._derived.get('rhos'):
             self.rhos = [self.rho for i in self.stack]
+            self._derived['rhos'] = list(self.rhos)
 
-        if not self.plyts:
+        if not self.plyts or self.plyts == self._derived.get('plyts'):
             if self.plyt is None:
                 raise ValueError('plyt must be defined')
             self.plyts = [self.plyt for i in self.stack]
+            self._derived['plyts'] = list(self.plyts)
 
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
-- 
2.43.0


From 1dc631c8a57a4650a9226834d56976612d4be164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 05/54] fix: partial domains are respected by kC, kG and kM

With x1, x2, y1, y2 defined the analytical matrices still integrated over
the full domain.
---
 panels/shell.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 287c736..3719b25 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -284,6 +284,11 @@ class Shell(object):
         self.size = self.get_size()
 
 
+    def _partial_domain(self):
+        # same criterion used in the functions for numerical integration
+        return (self.x1 != -1 and self.x2 != -1) or (self.y1 != -1 and self.y2 != -1)
+
+
     def get_size(self):
         r"""Calculate the size of the stiffness matrices
 
@@ -435,6 +440,10 @@ class Shell(object):
         if NLgeom:
             analytical_kC = False
             analytical_kG = False
+        # the analytical integrals cover the full domain
+        if self._partial_domain():
+            analytical_kC = False
+            analytical_kG = False
 
         matrices = modelDB.db[self.model]['matrices']  # selects what matrix functions to use
             # self.model = model of the current shell obj
@@ -522,7 +531,7 @@ class Shell(object):
             c = np.zeros(size, dtype=DOUBLE)
             if any((self.Nxx, self.Nyy, self.Nxy)):
                 msg('NOTE: stress state taken into account using ONLY (Nxx, Nyy, Nxy)', level=3, silent=silent)
-        if NLgeom:
+        if NLgeom or self._partial_domain():
             analytical_kG = False
 
         matrices = modelDB.db[self.model]['matrices']
@@ -583,7 +592,7 @@ class Shell(object):
         """
         msg('Calculating kM... ', level=2, silent=silent)
         self._rebuild()
-        analytical_kM = True
+        analytical_kM = not self._partial_domain()
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
 
-- 
2.43.0


From 734ebe9f52b7b9eff9ae6320f8627eb098288697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 06/54] fix: Shell.calc_kC without c or c_cte

NLgeom with Nxx_cte, Nyy_cte, Nxy_cte and no c_cte raised a TypeError;
NLgeom with ABDnxny and no c read past the end of a 1-element array.
---
 panels/shell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 3719b25..9a74b6c 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -454,7 +454,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         self.r = self.r if self.r is not None else 0.
 
-        if c is None and ABDnxny is None:
+        if c is None:
             # Empty c if the interest is only on the heterogeneous
             # laminate properties
             c = np.zeros(size, dtype=DOUBLE)
@@ -485,6 +485,9 @@ class Shell(object):
             # This calc KG0 - Geo stiff mat at initial membrane stress state (SA formulation paper - eq 12) and adds it to K0 calc earlier
             
             # WHY IS KG0 ADDED TO KC ???????????????????????????
+            if c_cte is None:
+                c_cte = np.zeros(size, dtype=DOUBLE)
+            c_cte = np.ascontiguousarray(c_cte, dtype=DOUBLE)
             if analytical_kG:
                 kC += matrices.fkG0(self.Nxx_cte, self.Nyy_cte, self.Nxy_cte, self, size, row0, col0)
             else:
-- 
2.43.0


From ee2db972ffd67c641cd72d540201c7b8a7b48ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 07/54] fix: Shell.calc_cA raised AttributeError and returned
 nothing

fcA only exists in the modules with the analytical matrices.
---
 panels/shell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 9a74b6c..918a236 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -705,10 +705,11 @@ class Shell(object):
         """
         msg('Calculating cA... ', level=2, silent=silent)
 
+        self._rebuild()
         if size is None:
             size = self.get_size()
-        matrices_num = modelDB.db[self.model]['matrices_num']
-        cA = matrices_num.fcA(aeromu, self, size, 0, 0)
+        matrices = modelDB.db[self.model]['matrices']
+        cA = matrices.fcA(aeromu, self, size, 0, 0)
         cA = cA*(0+1j)
 
         if finalize:
@@ -720,6 +721,8 @@ class Shell(object):
 
         msg('finished!', level=2, silent=silent)
 
+        return cA
+
 
     def uvw(self, c, xs=None, ys=None, gridx=300, gridy=300):
         r"""Calculate the displacement field
-- 
2.43.0


From 2338f660f3e25798491607e2eb20c96d245360fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 08/54] fix: Shell.calc_kA follows changes of rho_air, V and
 Mach

beta and gamma calculated by the first call were stored as if given by
the user, such that later calls ignored the flow parameters.
---
 panels/shell.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 918a236..0748cbb 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -650,6 +650,7 @@ class Shell(object):
         msg('Calculating kA... ', level=2, silent=silent)
 
 
+        self._rebuild()
         matrices_num = modelDB.db[self.model]['matrices_num']
 
         if size is None:
@@ -658,15 +659,14 @@ class Shell(object):
             size = int(size) + self.get_size()
 
         self.r = self.r if self.r is not None else 0.
+        input_beta, input_gamma = self.beta, self.gamma
 
         if self.beta is None:
             if self.Mach is None:
                 raise ValueError('Mach number cannot be a NoneValue')
             elif self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if self.r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -679,12 +679,16 @@ class Shell(object):
         self.beta = beta
         self.gamma = gamma
 
-        if self.flow.lower() == 'x':
-            kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-        elif self.flow.lower() == 'y':
-            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
-        else:
-            raise ValueError('Invalid flow value, must be x or y')
+        try:
+            if self.flow.lower() == 'x':
+                kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
+            elif self.flow.lower() == 'y':
+                kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
+            else:
+                raise ValueError('Invalid flow value, must be x or y')
+        finally:
+            #NOTE otherwise the next call would ignore rho_air, V and Mach
+            self.beta, self.gamma = input_beta, input_gamma
 
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
-- 
2.43.0


From b5649d1605b89120dabf654ee8538b230451148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 09/54] fix: calc_stiffness_point_constraint returns a
 csr_matrix as documented

It returned a np.matrix, turning a dense matrix product semantics into
the matrices to which it is added.
---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 0748cbb..7ec5c67 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1115,7 +1115,7 @@ class Shell(object):
             kPC += kphi*np.outer(gphix, gphix)
         if phiy:
             kPC += kphi*np.outer(gphiy, gphiy)
-        return kPC
+        return csr_matrix(kPC)
 
 
     def calc_fext(self, inc=1., size=None, col0=0, silent=True):
-- 
2.43.0


From 18c0a8d9a4eff0f6d350a5d403eb8ccdd211a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 10/54] fix: Shell.calc_fint uses the current laminate

It used the constitutive matrix of a previous calculation, or none.
---
 panels/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/shell.py b/panels/shell.py
index 7ec5c67..90a2287 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1193,6 +1193,7 @@ class Shell(object):
 
         """
         msg('Calculating internal forces...', level=2, silent=silent)
+        self._rebuild()
         model = self.model
         if not model in modelDB.db.keys():
             raise ValueError(
-- 
2.43.0


From 9608fbfdb39fd7c56fda22a8204bb44fbef6f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 11/54] fix: MultiDomain.calc_kT always raised a TypeError

Shell.calc_kC has no argument inc.
---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a53fe8b..4a455a1 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -1014,7 +1014,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kT += p.calc_kC(c=c, size=size, row0=p.row_start, col0=p.col_start,
-                    silent=silent, finalize=False, inc=inc, NLgeom=True)
+                    silent=silent, finalize=False, NLgeom=True)
             kT += p.calc_kG(c=c, size=size, row0=p.row_start,
                     col0=p.col_start, silent=silent, finalize=False, NLgeom=True)
         if finalize:
-- 
2.43.0


From dfba17e11b9375e3078b4faacaa21e4bfdf5ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 12/54] fix: connections keep the roles of p1 and p2 given by
 the user

When p2 came before p1 in the list of panels they were exchanged, turning
base into flange (BFxcte, BFycte) and top into bottom (SB), and the
positions in the connectivity dictionaries of the user were overwritten.
---
 panels/multidomain/multidomain.py | 57 ++++++++++++-------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 4a455a1..44775ed 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -29,6 +29,11 @@ def default_field(panel, gridx, gridy):
     return xs, ys, shape
 
 
+def upper_block(kC12, p1, p2):
+    # the assembled matrices are made symmetric based on their upper triangle
+    return kC12 if p1.row_start <= p2.row_start else kC12.T
+
+
 class MultiDomain(object):
     r"""Class for multi-domain semi-analytical approach
 
@@ -777,27 +782,9 @@ class MultiDomain(object):
         # Looping through each connection pair 
         for connecti in conn:
             # connecti = ith connection pair
-            p1_temp = connecti['p1']
-            p2_temp = connecti['p2']
-            if p1_temp.col_start < p2_temp.col_start:
-                pA = p1_temp
-                pB = p2_temp
-            elif p1_temp.col_start > p2_temp.col_start:
-                pA = p2_temp
-                pB = p1_temp
-                if connecti['func'] == 'SB':
-                    pass
-                else:
-                    if 'xcte1' in connecti.keys() and 'xcte2' in connecti.keys():
-                        temp_xcte = connecti['xcte1']
-                        connecti['xcte1'] = connecti['xcte2']
-                        connecti['xcte2'] = temp_xcte
-                    # y needs to be tested
-                    if 'ycte1' in connecti.keys() and 'ycte2' in connecti.keys():
-                        temp_ycte = connecti['ycte1']
-                        connecti['ycte1'] = connecti['ycte2']
-                        connecti['ycte2'] = temp_ycte
-            
+            pA = connecti['p1']
+            pB = connecti['p2']
+
             connection_function = connecti['func'] # Type of connection
             
             if connection_function == 'SSycte':
@@ -812,9 +799,9 @@ class MultiDomain(object):
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
                 # adds the penalty stiffness to ycte of panel 1 and panel 2 coupling position
-                kC_conn += connections.kCSSycte.fkCSSycte12(
+                kC_conn += upper_block(connections.kCSSycte.fkCSSycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 # adds the penalty stiffness to ycte of panel pB position
                 kC_conn += connections.kCSSycte.fkCSSycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
@@ -825,9 +812,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCSSxcte.fkCSSxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSSxcte.fkCSSxcte12(
+                kC_conn += upper_block(connections.kCSSxcte.fkCSSxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCSSxcte.fkCSSxcte22(
                         kt, kr, pA, pB, connecti['xcte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -838,8 +825,8 @@ class MultiDomain(object):
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
-                        size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_block(connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
             
@@ -848,9 +835,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFycte.fkCBFycte11(
                         kt, kr, pA, connecti['ycte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFycte.fkCBFycte12(
+                kC_conn += upper_block(connections.kCBFycte.fkCBFycte12(
                         kt, kr, pA, pB, connecti['ycte1'], connecti['ycte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCBFycte.fkCBFycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -860,9 +847,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCBFxcte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCBFxcte.fkCBFxcte12(
+                kC_conn += upper_block(connections.kCBFxcte.fkCBFxcte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['xcte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCBFxcte.fkCBFxcte22(
                         kt, kr, pA, pB, connecti['xcte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -873,9 +860,9 @@ class MultiDomain(object):
                 kC_conn += connections.kCLTxycte.fkCBFxcte11(
                         kt, kr, pA, connecti['xcte1'],
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCLTxycte.fkCBFxycte12(
+                kC_conn += upper_block(connections.kCLTxycte.fkCBFxycte12(
                         kt, kr, pA, pB, connecti['xcte1'], connecti['ycte2'],
-                        size, row0=pA.row_start, col0=pB.col_start)
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCLTxycte.fkCBFycte22(
                         kt, kr, pA, pB, connecti['ycte2'],
                         size, row0=pB.row_start, col0=pB.col_start)
@@ -889,8 +876,8 @@ class MultiDomain(object):
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-                kC_conn += connections.kCSB.fkCSB12(kt, dsb, pA, pB,
-                        size, row0=pA.row_start, col0=pB.col_start)
+                kC_conn += upper_block(connections.kCSB.fkCSB12(kt, dsb, pA, pB,
+                        size, row0=pA.row_start, col0=pB.col_start), pA, pB)
                 kC_conn += connections.kCSB.fkCSB22(kt, pA, pB,
                         size, row0=pB.row_start, col0=pB.col_start)
                 
-- 
2.43.0


From b6c848efe9f7fe00f9ef4b8a67fedd7002bcf384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 13/54] fix: MultiDomain uses the connectivity passed to
 get_kC_conn and calc_kC

After the first calculation any other connectivity was ignored.
---
 panels/multidomain/multidomain.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 44775ed..4ae1720 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -768,13 +768,12 @@ class MultiDomain(object):
                 Each dict contains info of that specific with connection pair
         '''
         if conn is None:
+            if self.kC_conn is not None:
+                return self.kC_conn
             if self.conn is None:
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
 
-        if self.kC_conn is not None:
-            return self.kC_conn
-
         size = self.get_size()
 
         kC_conn = 0.
-- 
2.43.0


From c22cc45a4a88726d316de67973d01a363cc42a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 14/54] fix: line penalties of u and v were added to the w
 degrees of freedom

In fkCld_xcte and fkCld_ycte the terms of ku and kv went to the rows and
columns of w.
---
 panels/multidomain/connections/kCpd.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/multidomain/connections/kCpd.pyx b/panels/multidomain/connections/kCpd.pyx
index c4563fa..ee1d323 100644
--- a/panels/multidomain/connections/kCpd.pyx
+++ b/panels/multidomain/connections/kCpd.pyx
@@ -256,12 +256,12 @@ def fkCld_xcte(double ku, double kv, double kw, object p, double xp,
                         fBw = f(k, xip, x1w, x1wr, x2w, x2wr)
             
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+0
+                        kCld_xctec[c] = col+0
                         kCld_xctev[c] += ku*b*fAu*fBu*gAugBu/2.
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+1
+                        kCld_xctec[c] = col+1
                         kCld_xctev[c] += kv*b*fAv*fBv*gAvgBv/2.
                         c += 1
                         kCld_xcter[c] = row+2
@@ -380,12 +380,12 @@ def fkCld_ycte(double ku, double kv, double kw, object p, double yp,
                         gBw = f(l, etap, y1w, y1wr, y2w, y2wr)
             
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+0
+                        kCld_yctec[c] = col+0
                         kCld_yctev[c] += ku*a*fAufBu*gAu*gBu/2.
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+1
+                        kCld_yctec[c] = col+1
                         kCld_yctev[c] += kv*a*fAvfBv*gAv*gBv/2.
                         c += 1
                         kCld_ycter[c] = row+2
-- 
2.43.0


From f6d0f363add227a89657f7726e18e4509c628ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 15/54] fix: mass coupling between translation and rotation in
 BladeStiff1D

The first moment of the flange about the skin mid-surface was counted
twice, such that the mass matrix was not positive semi-definite.
---
 .../stiffener/models/bladestiff1d_clt_donnell_bardell.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
index 9b56860..15197b4 100644
--- a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
+++ b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
@@ -233,7 +233,7 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+0
                         kMfc[c] = col+2
-                        kMfv[c] += 2*bf*df*fAufBwxi*gAu*gBw*hf*rho
+                        kMfv[c] += bf*df*fAufBwxi*gAu*gBw*hf*rho
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+1
@@ -241,15 +241,15 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+2
-                        kMfv[c] += 2*a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
+                        kMfv[c] += a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+0
-                        kMfv[c] += 2*bf*df*fAwxifBu*gAw*gBu*hf*rho
+                        kMfv[c] += bf*df*fAwxifBu*gAw*gBu*hf*rho
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+1
-                        kMfv[c] += 2*a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
+                        kMfv[c] += a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+2
-- 
2.43.0


From 0325c9e5aa003a19eb17d9a89812e1a1e2f9598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 16/54] fix: BladeStiff1D.calc_kM accounts for the base under
 the flange

The rotary inertia of the flange was calculated with a null base thickness.
---
 panels/stiffener/bladestiff1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 015c9ec..67014a5 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -75,7 +75,7 @@ class BladeStiff1D(object):
         hb = 0.
         bay = self.bay
         if self.bstack is not None:
-            hb = sum(self.bplyts)
+            hb = self.hb = sum(self.bplyts)
             y1 = self.ys - self.bb/2.
             y2 = self.ys + self.bb/2.
             self.base = Shell(a=bay.a, b=bay.b, r=bay.r,
-- 
2.43.0


From b213b82bfe9f0dcb55219cea3652ba1695bfc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 17/54] fix: offset of the base of BladeStiff2D follows the
 thickness of the panels

---
 panels/stiffener/bladestiff2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f4d0c50..949081e 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -92,6 +92,8 @@ class BladeStiff2D(object):
             h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
             hb = sum(self.bplyts)
             self.dpb = h/2. + hb/2.
+            #NOTE the panels' plyts may not have been known by __init__
+            self.base.offset = -h/2.-hb/2.
             self.base.lam = laminated_plate(self.bstack, plyts=self.bplyts,
                                             laminaprops=self.blaminaprops,
                                             offset=(-h/2.-hb/2.))
-- 
2.43.0


From d771ee53273f1d68647aa21f1fa221d151a336a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 18/54] fix: StiffPanelBay with a BladeStiff2D that only has a
 base

---
 panels/stiffpanelbay/stiffpanelbay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d44397..bf72f75 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -218,7 +218,8 @@ class StiffPanelBay(object):
         self.size = dofs*self.m*self.n
 
         for s in self.bladestiff2ds:
-            self.size += s.flange.get_size()
+            if s.flange is not None:
+                self.size += s.flange.get_size()
 
         for s in self.tstiff2ds:
             self.size += s.base.get_size() + s.flange.get_size()
-- 
2.43.0


From b89933b066c0308d13f0922042857b80301991f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 19/54] fix: BladeStiff1D that only has a base

---
 panels/stiffener/bladestiff1d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 67014a5..cd94917 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -92,9 +92,10 @@ class BladeStiff1D(object):
             self.Asb = self.bb*hb
 
         #TODO check offset effect on curved panels
-        self.dbf = self.bf/2. + hb + h/2.
-        self.Iyy = self.hf*self.bf**3/12.
-        self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
+        if self.fstack is not None:
+            self.dbf = self.bf/2. + hb + h/2.
+            self.Iyy = self.hf*self.bf**3/12.
+            self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
 
         Asb = self.Asb if self.Asb is not None else 0.
         Asf = self.Asf if self.Asf is not None else 0.
-- 
2.43.0


From 9f3900fe7583c8d920b6dfce098132170ef212e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 20/54] fix: StiffPanelBay.save raised AttributeError

---
 panels/stiffpanelbay/stiffpanelbay.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index bf72f75..63e0d15 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -132,9 +132,7 @@ class StiffPanelBay(object):
         self.Ys = None
 
         for panel in self.panels:
-            panel.kC = None
-            panel.kM = None
-            panel.kG = None
+            panel._clear_matrices()
 
         for s in self.bladestiff1ds:
             s.kC = None
-- 
2.43.0


From d42e18ceeef1cea3df9d12505f8cf2a6cb161ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 21/54] fix: StiffPanelBay.calc_cA always raised a TypeError

---
 panels/stiffpanelbay/stiffpanelbay.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 63e0d15..e02a2d5 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -771,7 +771,10 @@ class StiffPanelBay(object):
                 self.Mach = 1.0001
             Mach = self.Mach
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
+            if r:
+                gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
+            else:
+                gamma = 0.
             ainf = self.speed_sound
             aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
         else:
@@ -781,8 +784,7 @@ class StiffPanelBay(object):
 
         # contributions from panels
         p = self.panels[0]
-        p.calc_cA(size=size, row0=0, col0=0, silent=silent)
-        cA = p.matrices['cA']
+        cA = p.calc_cA(aeromu, size=size, silent=silent, finalize=False)
 
         cA = finalize_symmetric_matrix(cA)
         self.cA = cA
-- 
2.43.0


From 80353b5c93e06a1b866ca4d370c3d0b1bda496d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 22/54] fix: StiffPanelBay.calc_kA covers all panels and uses
 the bay properties

---
 panels/stiffpanelbay/stiffpanelbay.py | 31 +++++++++++----------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index e02a2d5..e17af21 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -720,24 +720,19 @@ class StiffPanelBay(object):
             aeromu = self.aeromu if self.aeromu is not None else 0.
 
         # contributions from panels
-        #TODO summing up coo_matrix objects may be slow!
-        #FIXME this only works if the first panel represent the full
-        #      stiffpanelbay domain (mainly integration interval, boundary
-        #      conditions)
-        p = self.panels[0]
-        #FIXME the initialization below looks terrible
-        #      we should move as quick as possible to the strategy of using
-        #      classes more to carry data, avoiding these intrincated methods
-        #      shared among classes... (calc_kC, calc_kG etc)
-        p.flow = self.flow
-        p.Mach = self.Mach
-        p.rho_air = self.rho_air
-        p.speed_sound = self.speed_sound
-        p.size = self.size
-        p.V = self.V
-        p.r = self.r
-        p.calc_kA(silent=True, finalize=False)
-        kA = p.matrices['kA']
+        size = self.get_size()
+        kA = 0.
+        for p in self.panels:
+            #FIXME the initialization below looks terrible
+            #      we should move as quick as possible to the strategy of using
+            #      classes more to carry data, avoiding these intrincated methods
+            #      shared among classes... (calc_kC, calc_kG etc)
+            p.flow = self.flow
+            p.r = self.r
+            p.beta = beta
+            p.gamma = gamma
+            #TODO summing up coo_matrix objects may be slow!
+            kA += p.calc_kA(size=size, silent=True, finalize=False)
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-- 
2.43.0


From 6835cde44004612ad54c397ac4bc074f366f1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 23/54] fix: StiffPanelBay.uvw_stiffener for any but the first
 stiffener

---
 panels/stiffpanelbay/stiffpanelbay.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index e17af21..366043d 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -918,13 +918,11 @@ class StiffPanelBay(object):
         row_init = dofs*self.m*self.n
 
         # getting array position
-        for i, s in enumerate(self.stiffeners):
-            if i > 0:
-                s_1 = self.stiffeners[i-1]
-                if isinstance(s, BladeStiff2D):
-                    row_init += s_1.get_size()
-            if i == si:
+        for s in self.bladestiff2ds:
+            if s is stiff:
                 break
+            if s.flange is not None:
+                row_init += s.flange.get_size()
 
         if region.lower() == 'flange':
             bstiff = stiff.flange.b
-- 
2.43.0


From 6ae990cfce2a3043abebf91ca4febb00a5bd05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 24/54] fix: StiffPanelBay.calc_fext never accepted a force

---
 panels/stiffpanelbay/stiffpanelbay.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 366043d..bcbe668 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1441,27 +1441,29 @@ class StiffPanelBay(object):
 
         # punctual forces on skin
         size = dofs*self.m*self.n
-        g = np.zeros((3, size), dtype=DOUBLE)
+        g = np.zeros((5, size), dtype=DOUBLE)
         fext_skin = np.zeros(size, dtype=DOUBLE)
         for i, force in enumerate(self.forces_skin):
             x, y, fx, fy, fz = force
-            fg(g, x, y, self)
+            fg(g, x, y, self.panels[0])
 
-            fpt = np.array([[fx, fy, fz]])
+            fpt = np.array([[fx, fy, fz, 0., 0.]])
             fext_skin += fpt.dot(g).ravel()
 
         fext = fext_skin
         # punctual forces on bladestiff2ds
         # flange
         for s in self.bladestiff2ds:
+            if s.flange is None:
+                continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
-            for i, force in enumerate(s.flange.forces):
+            for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0., 0.]])
                 fext_stiffener += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_stiffener))
-- 
2.43.0


From 49cca0c78de8e12285fad60dbae3fd656e23f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 25/54] fix: static pre-buckling of cylinders applied the last
 Nxx to all panels

---
 panels/multidomain/cylinder.py                 | 2 +-
 panels/multidomain/cylinder_blade_stiffened.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 816182d..0d74630 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -168,7 +168,7 @@ def cylinder_compression_lb_Nxx_from_static(height, r, stack, plyt, laminaprop,
         raise ValueError('The length of "Nxxs" must be the same as "npanels"')
 
     for i, p in enumerate(assy.panels):
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxxs[i], None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxxs[i]: Nxx, None, None)
         p.x2u = 1
 
     fext = assy.calc_fext(silent=True)
diff --git a/panels/multidomain/cylinder_blade_stiffened.py b/panels/multidomain/cylinder_blade_stiffened.py
index b8e25fe..4a098a8 100644
--- a/panels/multidomain/cylinder_blade_stiffened.py
+++ b/panels/multidomain/cylinder_blade_stiffened.py
@@ -229,7 +229,7 @@ def cylinder_blade_stiffened_compression_lb_Nxx_from_static(height, r, stack,
         elif 'blade' in p.group:
             i_blade += 1
             Nxx = Nxxs_blade[i_blade]
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxx: Nxx, None, None)
 
     fext = assy.calc_fext(silent=True)
 
-- 
2.43.0


From 21ddb84a6bef6cbb1e8be33949c0d18ea2b8fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 26/54] fix: cylinder_spla ignored Nxx

---
 panels/multidomain/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 0d74630..2f8a4df 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -220,7 +220,7 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: p.Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
-- 
2.43.0


From 20aaaf47a97de249b6d0c503eec27844a7d34877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 27/54] fix: default sampling points of the *_gauss_points
 follow the size of each panel

---
 panels/multidomain/multidomain.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 4ae1720..65d5eed 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -578,14 +578,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
+            #NOTE the default grid depends on the panel
+            x_panel, y_panel = x_gauss, y_gauss
             if x_gauss is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
+                x_panel = linspace(0, panel.a, no_grid_x)
             if y_gauss is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -649,14 +651,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
+            #NOTE the default grid depends on the panel
+            x_panel, y_panel = x_gauss, y_gauss
             if x_gauss is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
+                x_panel = linspace(0, panel.a, no_grid_x)
             if y_gauss is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -717,14 +721,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
+            #NOTE the default grid depends on the panel
+            x_panel, y_panel = x_gauss, y_gauss
             if x_gauss is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
+                x_panel = linspace(0, panel.a, no_grid_x)
             if y_gauss is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_panel = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_panel, y_panel, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
-- 
2.43.0


From 13615de2e183ad7a4cc6c37a667c5aba2d484eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 28/54] fix: closed-form kC ignored force_orthotropic_laminate

---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index 637c746..c23c517 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -75,7 +75,7 @@ def fk0(object shell, int size, int row0, int col0):
     a = shell.a
     b = shell.b
     r = shell.r
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index cb43414..12c49a4 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -73,7 +73,7 @@ def fk0(object shell, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From b1d7759fb22d883b35c21921bdb0609b28fd781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 29/54] fix: Shell.calc_fint returns a NumPy array as
 documented

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 90a2287..900d912 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1218,7 +1218,7 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
-        fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
+        fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
 
-- 
2.43.0


From 2ed81ac12745b281b65c6dfb286ed8be9114282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 30/54] fix: MultiDomain follows changes of conn and of the
 connected panels

---
 panels/multidomain/multidomain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 65d5eed..3da4c18 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -774,10 +774,11 @@ class MultiDomain(object):
                 Each dict contains info of that specific with connection pair
         '''
         if conn is None:
-            if self.kC_conn is not None:
-                return self.kC_conn
             if self.conn is None:
+                if self.kC_conn is not None:
+                    return self.kC_conn
                 raise RuntimeError('No connectivity dictionary defined!')
+            #NOTE recalculated to follow changes of conn and of the panels
             conn = self.conn
 
         size = self.get_size()
-- 
2.43.0


From b9f08e5e1e6a844a12103adc7220d7c93d5539cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 31/54] fix: aerodynamic matrix with free edges or curvature

The matrix was assumed skew-symmetric, which only holds when w is zero along
the edges crossed by the flow and without the curvature term, whose sign was
also wrong.
---
 .../cylshell_clpt_donnell_bardell_num.pyx     | 10 ++++-----
 .../models/plate_clpt_donnell_bardell_num.pyx | 22 ++++++++-----------
 panels/multidomain/tstiff2d_1stiff_flutter.py |  3 +--
 panels/shell.py                               |  4 ++--
 panels/stiffpanelbay/stiffpanelbay.py         |  4 ++--
 5 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell_num.pyx b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
index 2939b5f..f56b2fe 100644
--- a/panels/models/cylshell_clpt_donnell_bardell_num.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell_num.pyx
@@ -536,7 +536,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fAwxi, fBw, gAw, gBw
+    cdef double fAw, fBw, fBwxi, gAw, gBw
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -610,10 +610,10 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                 c = -1
                 for i in range(m):
                     fAw = f(i, xi, x1w, x1wr, x2w, x2wr)
-                    fAwxi = fp(i, xi, x1w, x1wr, x2w, x2wr)
 
                     for k in range(m):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
+                        fBwxi = fp(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
                             gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
@@ -623,9 +623,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
+                                #NOTE not symmetric, all terms are needed
 
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
@@ -633,7 +631,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(2*beta*fAw*fBwxi*gAw*gBw/a - fAw*fBw*gAw*gBw*gamma) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
diff --git a/panels/models/plate_clpt_donnell_bardell_num.pyx b/panels/models/plate_clpt_donnell_bardell_num.pyx
index 1e19deb..aabda96 100644
--- a/panels/models/plate_clpt_donnell_bardell_num.pyx
+++ b/panels/models/plate_clpt_donnell_bardell_num.pyx
@@ -722,7 +722,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fAwxi, fBw, gAw, gBw
+    cdef double fAw, fBw, fBwxi, gAw, gBw
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -796,10 +796,10 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                 c = -1
                 for i in range(m):
                     fAw = f(i, xi, x1w, x1wr, x2w, x2wr)
-                    fAwxi = fp(i, xi, x1w, x1wr, x2w, x2wr)
 
                     for k in range(m):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
+                        fBwxi = fp(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
                             gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
@@ -809,9 +809,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
+                                #NOTE not symmetric, all terms are needed
 
                                 gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
 
@@ -819,7 +817,7 @@ def fkAx_num(object shell, int size, int row0, int col0, int nx, int ny):
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( 0.25*intx*inty*(fAw*fBw*gAw*gBw*gamma - 2*beta*fAwxi*fBw*gAw*gBw/a) )
+                                kAv[c] += weight*( 0.25*intx*inty*(2*beta*fAw*fBwxi*gAw*gBw/a - fAw*fBw*gAw*gBw*gamma) )
 
     kAx = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
@@ -838,7 +836,7 @@ def fkAy_num(object shell, int size, int row0, int col0, int nx, int ny):
     cdef long [::1] kAr, kAc
     cdef double [::1] kAv
 
-    cdef double fAw, fBw, gAweta, gBw
+    cdef double fAw, fBw, gAw, gBweta
     cdef double xi, eta, weight
     cdef double xi1, xi2, eta1, eta2
 
@@ -916,24 +914,22 @@ def fkAy_num(object shell, int size, int row0, int col0, int nx, int ny):
                         fBw = f(k, xi, x1w, x1wr, x2w, x2wr)
 
                         for j in range(n):
-                            gAweta = fp(j, eta, y1w, y1wr, y2w, y2wr)
+                            gAw = f(j, eta, y1w, y1wr, y2w, y2wr)
 
                             for l in range(n):
 
                                 row = row0 + DOF*(j*m + i)
                                 col = col0 + DOF*(l*m + k)
 
-                                #NOTE symmetry assumption True if no follower forces are used
-                                if row > col:
-                                    continue
+                                #NOTE not symmetric, all terms are needed
 
-                                gBw = f(l, eta, y1w, y1wr, y2w, y2wr)
+                                gBweta = fp(l, eta, y1w, y1wr, y2w, y2wr)
 
                                 c += 1
                                 if ptx == 0 and pty == 0:
                                     kAr[c] = row+2
                                     kAc[c] = col+2
-                                kAv[c] += weight*( -0.5*beta*fAw*fBw*gAweta*gBw*intx*inty/b )
+                                kAv[c] += weight*( 0.5*beta*fAw*fBw*gAw*gBweta*intx*inty/b )
 
     kAy = coo_matrix((kAv, (kAr, kAc)), shape=(size, size))
 
diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 8d61feb..4d92903 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -1,7 +1,6 @@
 import numpy as np
 from scipy.sparse import csr_matrix
 
-from structsolve.sparseutils import make_skew_symmetric
 from structsolve import freq, static
 
 from panels.shell import Shell
@@ -343,7 +342,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
 
     assert np.any(np.isnan(kA.data)) == False
     assert np.any(np.isinf(kA.data)) == False
-    kA = csr_matrix(make_skew_symmetric(kA))
+    kA = csr_matrix(kA)
 
     eigvals, eigvecs = freq((k0 + kG + kA), kM, tol=0, sparse_solver=True, silent=True,
              num_eigvalues=25, num_eigvalues_print=5)
diff --git a/panels/shell.py b/panels/shell.py
index 900d912..76b856a 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -8,7 +8,7 @@ from scipy.sparse.linalg import eigs, eigsh
 from scipy.linalg import eig
 from numpy import linspace, deg2rad
 from composites import laminated_plate
-from structsolve.sparseutils import remove_null_cols, make_skew_symmetric, finalize_symmetric_matrix
+from structsolve.sparseutils import remove_null_cols, finalize_symmetric_matrix
 
 from .logger import msg, warn
 from . import modelDB
@@ -693,7 +693,7 @@ class Shell(object):
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
             assert np.any(np.isinf(kA.data)) == False
-            kA = csr_matrix(make_skew_symmetric(kA))
+            kA = csr_matrix(kA)
         self.matrices['kA'] = kA
 
         #NOTE memory cleanup
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index bcbe668..773a44b 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -5,7 +5,7 @@ from multiprocessing import cpu_count
 import numpy as np
 from scipy.sparse import csr_matrix
 from numpy import linspace, reshape
-from structsolve.sparseutils import finalize_symmetric_matrix, make_skew_symmetric
+from structsolve.sparseutils import finalize_symmetric_matrix
 
 from panels.logger import msg
 from panels import Shell, modelDB as panelmDB
@@ -736,7 +736,7 @@ class StiffPanelBay(object):
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-        kA = csr_matrix(make_skew_symmetric(kA))
+        kA = csr_matrix(kA)
         self.kA = kA
 
         #NOTE forcing Python garbage collector to clean the memory
-- 
2.43.0


From 1f793994ced9ea6cb4d569a138b140f75217e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:30 +0000
Subject: [PATCH 32/54] fix: the model follows changes of the radius

---
 panels/shell.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 76b856a..0fc3c0c 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -243,11 +243,12 @@ class Shell(object):
     def _rebuild(self):
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
-        if self.model is None:
-            if self.r is None:
+        if self.model is None or self.model == self._derived.get('model'):
+            if not self.r: #NOTE the calculations replace None by 0
                 self.model = 'plate_clpt_donnell_bardell'
-            elif self.r is not None:
+            else:
                 self.model = 'cylshell_clpt_donnell_bardell'
+            self._derived['model'] = self.model
 
         valid_models = sorted(modelDB.db.keys())
 
-- 
2.43.0


From 1af08b36c7677664d773984a3457683c148a2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 33/54] fix: the positions of the panels in a MultiDomain
 follow their number of terms

---
 panels/multidomain/multidomain.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 3da4c18..90fbfa9 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -87,11 +87,16 @@ class MultiDomain(object):
         self.panels = panels
         self.size = None
         self.out_num_cores = 4
-        row0 = 0
-        col0 = 0
         for p in panels:
             assert isinstance(p, Shell) # Check if its Shell obj
-            # This actually modifies the shell obj (i.e. passed panels)
+        self._number_panels()
+
+
+    def _number_panels(self):
+        # This actually modifies the shell obj (i.e. passed panels)
+        row0 = 0
+        col0 = 0
+        for p in self.panels:
             p.row_start = row0 # 1st panel starts at 0,0. Rest start at end of last matrix  --- Assembly of Kp_i from the paper
             p.col_start = col0
             row0 += 3*p.m*p.n # 3 bec 3 dof i.e. u,v,w - For FSDT, change to 5
@@ -104,6 +109,9 @@ class MultiDomain(object):
         '''
         Size of K of a single panel
         '''
+        #NOTE the panels may have changed since the last time, or belong to
+        #     other assemblies
+        self._number_panels()
         self.size = sum([3*p.m*p.n for p in self.panels])
         return self.size
 
-- 
2.43.0


From 8b2fbed17a49089076e2a0c69c3fe031b88d8fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 34/54] fix: displacement vectors of the wrong size are
 rejected

---
 panels/multidomain/multidomain.py | 13 +++++++++++++
 panels/shell.py                   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 90fbfa9..a1e192a 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -395,6 +395,8 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -448,6 +450,8 @@ class MultiDomain(object):
         """
         
         # res = results
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -507,6 +511,8 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -575,6 +581,8 @@ class MultiDomain(object):
         stored as parameters with the same name in the ``Shell`` object.
 
         """
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], u=[], v=[], w=[], phix=[], phiy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -646,6 +654,8 @@ class MultiDomain(object):
         
         
         # res = results
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], exx=[], eyy=[], gxy=[], kxx=[], kyy=[], kxy=[])
         for panel in self.panels:
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
@@ -718,6 +728,8 @@ class MultiDomain(object):
             ``(x, y, Nxx, Nyy, Nxy, Mxx, Myy, Mxy)``.
 
         """
+        c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         res = dict(x=[], y=[], Nxx=[], Nyy=[], Nxy=[], Mxx=[], Myy=[], Mxy=[])
         for panel in self.panels:
             if panel.group != group:
@@ -1030,6 +1042,7 @@ class MultiDomain(object):
     def calc_fint(self, c, silent=False, inc=1.):
         msg('Calculating internal forces for assembly...', level=2, silent=silent)
         size = self.get_size()
+        check_c(c, size)
         fint = 0
         for p in self.panels:
             if p.col_start is None:
diff --git a/panels/shell.py b/panels/shell.py
index 0fc3c0c..3bda708 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -761,6 +761,7 @@ class Shell(object):
 
         """
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
 
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fuvw = modelDB.db[self.model]['field'].fuvw
@@ -807,6 +808,7 @@ class Shell(object):
 
         """
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, self.get_size())
         xs, ys, xshape, yshape = self._default_field(xs, ys, gridx, gridy)
         fstrain = modelDB.db[self.model]['field'].fstrain
         exx, eyy, gxy, kxx, kyy, kxy = fstrain(c, self, xs, ys, self.out_num_cores, int(NLgeom))
@@ -1219,6 +1221,7 @@ class Shell(object):
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, size)
         fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
-- 
2.43.0


From f618cf9c6a43d7ebbcee57df6724f065a63d7483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 35/54] fix: recovered stresses follow changes of the laminate
 and need no previous calculation

---
 panels/multidomain/multidomain.py | 12 ++++++++++++
 panels/shell.py                   |  7 ++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a1e192a..2fb7ff6 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -401,6 +401,8 @@ class MultiDomain(object):
         for panel in self.panels:
             if panel.group != group:
                 continue
+            if panel.stack:
+                panel._rebuild()
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
             model = panel.model
@@ -457,6 +459,8 @@ class MultiDomain(object):
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
             if panel.group != group:
                 continue
+            if panel.stack:
+                panel._rebuild()
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
             model = panel.model
@@ -517,6 +521,8 @@ class MultiDomain(object):
         for panel in self.panels:
             if panel.group != group:
                 continue
+            if panel.stack:
+                panel._rebuild()
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
             model = panel.model
@@ -587,6 +593,8 @@ class MultiDomain(object):
         for panel in self.panels:
             if panel.group != group:
                 continue
+            if panel.stack:
+                panel._rebuild()
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
             model = panel.model
@@ -661,6 +669,8 @@ class MultiDomain(object):
             # If that panel's (in the MD assembly) group is not whose strain u want, skip it
             if panel.group != group:
                 continue
+            if panel.stack:
+                panel._rebuild()
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
             model = panel.model
@@ -734,6 +744,8 @@ class MultiDomain(object):
         for panel in self.panels:
             if panel.group != group:
                 continue
+            if panel.stack:
+                panel._rebuild()
             c_panel = c[panel.col_start: panel.col_end]
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
             model = panel.model
diff --git a/panels/shell.py b/panels/shell.py
index 3bda708..0e16b5e 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -309,6 +309,8 @@ class Shell(object):
             obtained by the :method:`.Shell.get_size`
 
         """
+        if self.model is None:
+            self._rebuild()
         dofs = modelDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
         return self.size
@@ -865,6 +867,9 @@ class Shell(object):
         kyy = fields['kyy']
         kxy = fields['kxy']
         if ABD is None:
+            if self.stack:
+                #NOTE the laminate may have changed since the last calculation
+                self._rebuild()
             ABD = self.ABD
         if ABD is None:
             raise ValueError('Laminate ABD matrix not defined for shell')
@@ -1102,8 +1107,8 @@ class Shell(object):
            account in the calculations.
 
         """
-        fg = modelDB.db[self.model]['field'].fg
         size = self.get_size()
+        fg = modelDB.db[self.model]['field'].fg
         g = np.zeros((5, size), dtype=DOUBLE)
         fg(g, x, y, self)
         gu, gv, gw, gphix, gphiy = g
-- 
2.43.0


From 4fc7a352e79ad358d13297dede23252e3f349e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 36/54] fix: the offset of a traction separation joint follows
 the laminates

---
 panels/multidomain/multidomain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 2fb7ff6..ba5ae9a 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -822,6 +822,8 @@ class MultiDomain(object):
             # connecti = ith connection pair
             pA = connecti['p1']
             pB = connecti['p2']
+            pA._rebuild()
+            pB._rebuild()
 
             connection_function = connecti['func'] # Type of connection
             
-- 
2.43.0


From 43d7cf010d401f01e32cf4ecee1a4ae304741ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 37/54] fix: strains of a plate can be recovered before any
 other calculation

---
 panels/models/clpt_bardell_field.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index b310687..9f1591f 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -125,7 +125,7 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
     cdef double y1w, y1wr, y2w, y2wr
     a = s.a
     b = s.b
-    r = s.r
+    r = s.r if s.r is not None else 0.
     m = s.m
     n = s.n
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
-- 
2.43.0


From c202e49f109031c549483f036bc5585674bac747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:09 +0000
Subject: [PATCH 38/54] fix: a model or ply data given by the user are not
 taken for derived ones

---
 panels/shell.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 0e16b5e..1393e73 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -71,7 +71,7 @@ class Shell(object):
     __slots__ = [ 'a', 'x1', 'x2', 'b', 'y1', 'y2', 'r',
         'stack', 'plyt', 'laminaprop', 'rho', 'offset',
         'group', 'x0', 'y0', 'row_start', 'col_start', 'row_end', 'col_end',
-        'name', 'bay', 'model',
+        'name', 'bay', '_model',
         'fsdt_shear_correction',
         'm', 'n', 'nx', 'ny', 'size',
         'point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc',
@@ -95,6 +95,7 @@ class Shell(object):
     def __init__(self, a=None, b=None, r=None,
             stack=None, plyt=None, laminaprop=None, rho=0,
             m=11, n=11, offset=0., **kwargs):
+        self._derived = {} # model and per-ply lists that were not given by the user
         self.a = a
         self.x1 = -1 # used to integrate part of the shell domain, -1 will use 0
         self.x2 = +1 # used to integrate part of the shell domain, +1 will use a
@@ -193,7 +194,6 @@ class Shell(object):
         self.plyts = None
         self.laminaprops = None
         self.rhos = None
-        self._derived = {} # lists above that were built from laminaprop, rho and plyt
 
         # aeroelastic parameters for panel flutter
         self.flow = 'x'
@@ -240,15 +240,32 @@ class Shell(object):
         gc.collect()
 
 
+    @property
+    def model(self):
+        return self._model
+
+
+    @model.setter
+    def model(self, model):
+        self._model = model
+        self._derived['model'] = False
+
+
+    def _is_derived(self, name):
+        value = getattr(self, name)
+        built, copy = self._derived.get(name, (None, None))
+        return not value or (value is built and value == copy)
+
+
     def _rebuild(self):
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
-        if self.model is None or self.model == self._derived.get('model'):
+        if self.model is None or self._derived.get('model'):
             if not self.r: #NOTE the calculations replace None by 0
                 self.model = 'plate_clpt_donnell_bardell'
             else:
                 self.model = 'cylshell_clpt_donnell_bardell'
-            self._derived['model'] = self.model
+            self._derived['model'] = True
 
         valid_models = sorted(modelDB.db.keys())
 
@@ -259,21 +276,21 @@ class Shell(object):
         if not self.stack:
             raise ValueError('stack must be defined')
 
-        if not self.laminaprops or self.laminaprops == self._derived.get('laminaprops'):
+        if self._is_derived('laminaprops'):
             if not self.laminaprop:
                 raise ValueError('laminaprop must be defined')
             self.laminaprops = [self.laminaprop for i in self.stack]
-            self._derived['laminaprops'] = list(self.laminaprops)
+            self._derived['laminaprops'] = (self.laminaprops, list(self.laminaprops))
 
-        if not self.rhos or self.rhos == self._derived.get('rhos'):
+        if self._is_derived('rhos'):
             self.rhos = [self.rho for i in self.stack]
-            self._derived['rhos'] = list(self.rhos)
+            self._derived['rhos'] = (self.rhos, list(self.rhos))
 
-        if not self.plyts or self.plyts == self._derived.get('plyts'):
+        if self._is_derived('plyts'):
             if self.plyt is None:
                 raise ValueError('plyt must be defined')
             self.plyts = [self.plyt for i in self.stack]
-            self._derived['plyts'] = list(self.plyts)
+            self._derived['plyts'] = (self.plyts, list(self.plyts))
 
         if self.stack is not None:
             lam = laminated_plate(stack=self.stack, plyts=self.plyts,
-- 
2.43.0


From b31a86df8aadcf607a6d294264ff5bedf711e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:05 +0000
Subject: [PATCH 39/54] fix: bending-torsion coupling of the flange of
 BladeStiff1D

---
 panels/stiffener/bladestiff1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index cd94917..eee1333 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -110,7 +110,7 @@ class BladeStiff1D(object):
                 if i > 0:
                     yply += self.flam.plies[i-1].h/2. + self.flam.plies[i].h/2.
                 self.E1 += ply.h*(ply.q11L - ply.q12L**2/ply.q22L)
-                self.S1 += -yply*ply.h*(ply.q16L - ply.q12L*ply.q16L/ply.q22L)
+                self.S1 += -yply*ply.h*(ply.q16L - ply.q12L*ply.q26L/ply.q22L)
 
             self.F1 = self.bf**2/12.*self.E1
 
-- 
2.43.0


From 99ac534247595d2397d3515784853ba3dafd34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 40/54] fix: displacements of a StiffPanelBay at arrays of
 points of any shape

---
 panels/stiffpanelbay/stiffpanelbay.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 773a44b..c985433 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -189,8 +189,8 @@ class StiffPanelBay(object):
             raise ValueError('Arrays xs and ys must have the same shape')
         self.Xs = xs
         self.Ys = ys
-        xs = xs.ravel()
-        ys = ys.ravel()
+        xs = np.ascontiguousarray(xs.ravel(), dtype=DOUBLE)
+        ys = np.ascontiguousarray(ys.ravel(), dtype=DOUBLE)
 
         return xs, ys, xshape, yshape
 
@@ -839,10 +839,7 @@ class StiffPanelBay(object):
         a = self.a
         b = self.b
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
 
         if c.shape[0] == self.get_size():
             dofs = panelmDB.db[self.model]['dofs']
@@ -938,10 +935,7 @@ class StiffPanelBay(object):
         else:
             raise ValueError('c must be the full vector of Ritz constants')
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
 
         if region.lower() == 'flange':
             fuvw = panelmDB.db[s.flange.model]['field'].fuvw
-- 
2.43.0


From 1baf877283dcf611b4a1b90e62f6e64f06b292db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 41/54] fix: external forces of a StiffPanelBay before any
 other calculation

---
 panels/stiffpanelbay/stiffpanelbay.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index c985433..e53d414 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -212,6 +212,8 @@ class StiffPanelBay(object):
             The size of the stiffness matrices.
 
         """
+        if self.model is None:
+            self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         self.size = dofs*self.m*self.n
 
@@ -1430,6 +1432,7 @@ class StiffPanelBay(object):
 
         """
         msg('Calculating external forces...', level=2, silent=silent)
+        self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         fg = panelmDB.db[self.model]['field'].fg
 
-- 
2.43.0


From 0b9abbb284b4beb5e3b9d667496f512693b4befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 42/54] fix: the flange of BladeStiff2D contributes to the
 geometric stiffness of a displacement state

---
 panels/stiffener/bladestiff2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index 949081e..31414c7 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -184,7 +184,7 @@ class BladeStiff2D(object):
             pass
         if self.flange is not None:
             kG += self.flange.calc_kG(size=size, row0=row0, col0=col0,
-                    silent=True, finalize=False, NLgeom=NLgeom)
+                    silent=True, finalize=False, c=c, NLgeom=NLgeom)
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
-- 
2.43.0


From a1b3f8e424bbf2910b573cb9fe3ef7079058d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 43/54] fix: assembly with an empty list of connections

---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index ba5ae9a..99ad152 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -815,7 +815,7 @@ class MultiDomain(object):
 
         size = self.get_size()
 
-        kC_conn = 0.
+        kC_conn = csr_matrix((size, size))
         
         # Looping through each connection pair 
         for connecti in conn:
-- 
2.43.0


From 06f795bddccd7c2a2840e1078952b88d3ae158dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:16 +0000
Subject: [PATCH 44/54] fix: flutter of the T-stiffened panel with loads that
 are not given

---
 panels/multidomain/tstiff2d_1stiff_flutter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/tstiff2d_1stiff_flutter.py b/panels/multidomain/tstiff2d_1stiff_flutter.py
index 4d92903..98c1d33 100644
--- a/panels/multidomain/tstiff2d_1stiff_flutter.py
+++ b/panels/multidomain/tstiff2d_1stiff_flutter.py
@@ -131,6 +131,10 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
     nb = n if nb is None else nb
     mf = m if mf is None else mf
     nf = n if nf is None else nf
+    has_loads = not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None)
+    Nxx_skin = 0. if Nxx_skin is None else Nxx_skin
+    Nxx_base = 0. if Nxx_base is None else Nxx_base
+    Nxx_flange = 0. if Nxx_flange is None else Nxx_flange
     # skin panels
     p01 = Shell(group='skin', Nxx=Nxx_skin, x0=alow+defect, y0=ys+bb/2., a=aup, b=bleft, r=r, m=m, n=n, plyt=plyt, stack=stack_skin, laminaprop=laminaprop, rho=rho, rho_air=rho_air, speed_sound=speed_sound, Mach=Mach, V=air_speed, flow=flow)
     p02 = Shell(group='skin', Nxx=Nxx_skin, x0=alow+defect, y0=ys-bb/2., a=aup, b=bb, r=r, m=m, n=n, plyt=plyt, stack=stack_skin, laminaprop=laminaprop, rho=rho, rho_air=rho_air, speed_sound=speed_sound, Mach=Mach, V=air_speed, flow=flow)
@@ -317,7 +321,7 @@ def tstiff2d_1stiff_flutter(a, b, ys, bb, bf, defect_a, rho, plyt,
     k0 = assy.calc_kC(valid_conn)
     c = None
     if run_static_case:
-        if not (Nxx_skin is None and Nxx_base is None and Nxx_flange is None):
+        if has_loads:
             fext = np.zeros(size)
             for p in [p07, p08, p09, p14, p15]:
                 p.add_distr_load_fixed_x(0, lambda y: p.Nxx, None, None)
-- 
2.43.0


From b02e16f5dcda3f79da2616801ceb56ac956e165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 45/54] fix: non-linear analysis of the cylinder with the
 callables of structsolve

---
 panels/multidomain/cylinder.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 2f8a4df..027c11e 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -220,14 +220,32 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None, cte=False)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
 
     assy.conn = conns
-    analysis = Analysis(assy.calc_fext, assy.calc_kC, assy.calc_fint,
-            assy.calc_kT)
+    # the solver scales calc_fext, such that the constant loads go to calc_fint
+    fext_cte = assy.calc_fext(inc=0., silent=True)
+
+    def calc_fext(inc=1., silent=False):
+        return assy.calc_fext(inc=inc, silent=silent) - fext_cte
+
+    def calc_fint(c, silent=False):
+        return assy.calc_fint(c, silent=silent) - fext_cte
+
+    # kT already contains the geometric part
+    def calc_kC(c=None, NLgeom=False, silent=False):
+        if NLgeom:
+            return assy.calc_kT(c=c, silent=silent)
+        return assy.calc_kC(silent=silent)
+
+    def calc_kG(c=None, NLgeom=False, silent=False):
+        return csr_matrix((assy.get_size(), assy.get_size()))
+
+    analysis = Analysis(calc_fext=calc_fext, calc_fint=calc_fint,
+            calc_kC=calc_kC, calc_kG=calc_kG)
     analysis.NL_method = 'NR'
     analysis.modified_NR = False
     analysis.line_search = False
-- 
2.43.0


From 32905660d82e9045c51e5d92a5080a99eb97a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 46/54] fix: contour plot of strains with NLgeom=False

---
 panels/plot_shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index a164724..3c0bc10 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -107,7 +107,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     if vec in displs:
         shell.uvw(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
     elif vec in strains:
-        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
+        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     elif vec in stresses:
         shell.stress(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     else:
-- 
2.43.0


From e97936f54757873a57b79324ff8f7af5c7352c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 47/54] fix: deformed contour plot of the bay displacing its
 stored mesh

---
 panels/stiffpanelbay/stiffpanelbay.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index e53d414..77e32b7 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1105,8 +1105,8 @@ class StiffPanelBay(object):
                 self.uvw_skin(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
             field_u = self.u
             field_v = self.v
-            y -= deform_u_sf*field_u
-            x += deform_u_sf*field_v
+            y = y - deform_u_sf*field_u
+            x = x + deform_u_sf*field_v
         contour = ax.contourf(x, y, field, levels=levels)
 
         if colorbar:
@@ -1329,8 +1329,8 @@ class StiffPanelBay(object):
                                    gridx=gridx, gridy=gridy)
             field_u = self.u
             field_v = self.v
-            y -= deform_u_sf*field_u
-            x += deform_u_sf*field_v
+            y = y - deform_u_sf*field_u
+            x = x + deform_u_sf*field_v
         contour = ax.contourf(x, y, field, levels=levels)
 
         if colorbar:
-- 
2.43.0


From 6ee0d1a30b1514758312dcaa58b3293aef593b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 48/54] fix: powers of names that end like another name in
 mprint_as_array

---
 panels/dev/matrixtools.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/panels/dev/matrixtools.py b/panels/dev/matrixtools.py
index e112761..121670b 100644
--- a/panels/dev/matrixtools.py
+++ b/panels/dev/matrixtools.py
@@ -155,10 +155,7 @@ def mprint_as_array(m, mname, sufix, use_cse=False,
                     ls.append('    {expr}'.format(expr=k*expr))
             else:
                 if pow_by_mul:
-                    v = str(v)
-                    for p in re.findall(r'\w+\*\*\d+', v):
-                        var, exp = p.split('**')
-                        v = v.replace(p, '(' + '*'.join([var]*int(exp)) + ')')
+                    v = pow2mult(str(v))
                 ls.append('{0}[pos+{1}] {2} {3}'.format(mname, i, op, v))
     string = '\n'.join(ls)
     if print_file:
-- 
2.43.0


From 88c00dc177f262b5216ff30d7ef4463f65054d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 49/54] fix: powers with fractional exponents in pow2mult

---
 panels/dev/matrixtools.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/panels/dev/matrixtools.py b/panels/dev/matrixtools.py
index 121670b..897dbdb 100644
--- a/panels/dev/matrixtools.py
+++ b/panels/dev/matrixtools.py
@@ -21,25 +21,12 @@ def pow2mult(instr):
         The output string
 
     """
-    old_new = []
-    for p in re.findall(r'\w+\*\*\d+', instr):
-        var, exp = p.split('**')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    # putting longer patterns first to avoid wrong
-    # substitutions
-    old_new = sorted(old_new, key=lambda x: len(x[0]))[::-1]
-    outstr = instr
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
-
-    old_new = []
-    for p in re.findall(r'pow\(\w+,\s*\w+\)', instr):
-        var, exp = p.split('pow')[1].split('(')[1].split(')')[0].split(',')
-        new = '(' + '*'.join([var]*int(exp)) + ')'
-        old_new.append([p, new])
-    for old, new in old_new:
-        outstr = outstr.replace(old, new)
+    def mult(match):
+        return '(' + '*'.join([match.group(1)]*int(match.group(2))) + ')'
+
+    #NOTE whole names and whole exponents only
+    outstr = re.sub(r'(\w+)\*\*(\d+)(?!\.?\d)', mult, instr)
+    outstr = re.sub(r'\bpow\((\w+),\s*(\d+)\)', mult, outstr)
 
     return outstr
 
-- 
2.43.0


From a10469a592f41a8bc564a9ac8ee33882a05ff581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 50/54] fix: mprint_as_array with use_cse replacing the input
 matrix

---
 panels/dev/matrixtools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/dev/matrixtools.py b/panels/dev/matrixtools.py
index 897dbdb..b20f336 100644
--- a/panels/dev/matrixtools.py
+++ b/panels/dev/matrixtools.py
@@ -108,6 +108,7 @@ def mprint_as_array(m, mname, sufix, use_cse=False,
     ls = []
     if use_cse:
         subs, m_list = sympy.cse(m)
+        m = m.copy() # the input is kept
         for i, v in enumerate(m_list):
             m[i] = v
     namesufix = '{0}_{1}'.format(mname, sufix)
-- 
2.43.0


From 92abe14b4bfb43b38e0ab747b96cb1b918fbcbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:23 +0000
Subject: [PATCH 51/54] fix: the aerodynamic matrices of a stiffened panel keep
 its Mach number

---
 panels/stiffpanelbay/stiffpanelbay.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 77e32b7..d93bdb1 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -706,9 +706,7 @@ class StiffPanelBay(object):
         if self.beta is None:
             if self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -764,9 +762,7 @@ class StiffPanelBay(object):
         if self.beta is None:
             if self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if r:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
-- 
2.43.0


From aa54fdaa1e947bf4c71fb790416ef62006282171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:39 +0000
Subject: [PATCH 52/54] fix: a stiffener of a bay that was not calculated
 before knows the thickness of the skin

---
 panels/stiffener/bladestiff1d.py | 9 +++++++++
 panels/stiffener/bladestiff2d.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index eee1333..90d4192 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -115,9 +115,16 @@ class BladeStiff1D(object):
             self.F1 = self.bf**2/12.*self.E1
 
 
+    def _rebuild_skin(self):
+        # the plies of the panels are only known after their own _rebuild
+        self.panel1._rebuild()
+        self.panel2._rebuild()
+
+
     def calc_kC(self, size=None, row0=0, col0=0, silent=False, finalize=True):
         """Calculate the linear constitutive stiffness matrix
         """
+        self._rebuild_skin()
         self._rebuild()
         msg('Calculating kC... ', level=2, silent=silent)
 
@@ -156,6 +163,7 @@ class BladeStiff1D(object):
         if c is not None:
             raise NotImplementedError('numerical kG not implemented')
 
+        self._rebuild_skin()
         self._rebuild()
         msg('Calculating kG... ', level=2, silent=silent)
 
@@ -188,6 +196,7 @@ class BladeStiff1D(object):
     def calc_kM(self, size=None, row0=0, col0=0, silent=False, finalize=True):
         """Calculate the mass matrix
         """
+        self._rebuild_skin()
         self._rebuild()
         msg('Calculating kM... ', level=2, silent=silent)
 
diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index 31414c7..618dfab 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -100,9 +100,16 @@ class BladeStiff2D(object):
             self.base.lam.calc_equivalent_properties()
 
 
+    def _rebuild_skin(self):
+        # the plies of the panels are only known after their own _rebuild
+        self.panel1._rebuild()
+        self.panel2._rebuild()
+
+
     def calc_kC(self, size=None, row0=0, col0=0, silent=False, finalize=True):
         """Calculate the linear constitutive stiffness matrix
         """
+        self._rebuild_skin()
         self._rebuild()
         msg('Calculating kC... ', level=2, silent=silent)
 
@@ -175,6 +182,7 @@ class BladeStiff2D(object):
             c=None, NLgeom=False):
         """Calculate the linear geometric stiffness matrix
         """
+        self._rebuild_skin()
         self._rebuild()
         msg('Calculating kG... ', level=2, silent=silent)
 
@@ -201,6 +209,7 @@ class BladeStiff2D(object):
     def calc_kM(self, size=None, row0=0, col0=0, silent=False, finalize=True):
         """Calculate the mass matrix
         """
+        self._rebuild_skin()
         self._rebuild()
         msg('Calculating kM... ', level=2, silent=silent)
 
-- 
2.43.0


From afb601ce076e250e359f6a74fbdc26d784b0e8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:01 +0000
Subject: [PATCH 53/54] fix: the extension of a saved file is only looked for
 at the end of its name

---
 panels/shell.py                       | 2 +-
 panels/stiffpanelbay/stiffpanelbay.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 1393e73..d659ff5 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -18,7 +18,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.Shell' in name:
+    if name.endswith('.Shell'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.Shell', 'rb'))
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index d93bdb1..b09cd56 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -16,7 +16,7 @@ DOUBLE = np.float64
 
 
 def load(name):
-    if '.StiffPanelBay' in name:
+    if name.endswith('.StiffPanelBay'):
         return pickle.load(open(name, 'rb'))
     else:
         return pickle.load(open(name + '.StiffPanelBay', 'rb'))
-- 
2.43.0


From 32bc4ee9e0d29473cb3955401f07733b52245a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:03 +0000
Subject: [PATCH 54/54] fix: a shell with displacements prescribed along a line
 can be saved

---
 panels/shell.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index d659ff5..64db7bb 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -24,6 +24,16 @@ def load(name):
         return pickle.load(open(name + '.Shell', 'rb'))
 
 
+class ScaledFunction(object):
+    """The function ``func`` multiplied by ``k``, which unlike a local function can be saved"""
+    def __init__(self, k, func):
+        self.k = k
+        self.func = func
+
+    def __call__(self, pos):
+        return self.k*self.func(pos)
+
+
 def check_c(c, size):
     # Conducts a check on c
     if not isinstance(c, np.ndarray):
@@ -1035,15 +1045,15 @@ class Shell(object):
         if (ku is not None) or (funcu is not None): # ku or funcu is specified
             if ku is None or funcu is None: # if atmost 1 is specified for u means u is to be specified, but is currently incomplete
                 raise ValueError('Both ku and funcu must be specified')
-            new_funcu = lambda y: ku*funcu(y) # y is param in ftn 
+            new_funcu = ScaledFunction(ku, funcu) # y is param in ftn 
         if (kv is not None) or (funcv is not None):
             if kv is None or funcv is None:
                 raise ValueError('Both kv and funcv must be specified')
-            new_funcv = lambda y: kv*funcv(y)
+            new_funcv = ScaledFunction(kv, funcv)
         if (kw is not None) or (funcw is not None):
             if kw is None or funcw is None:
                 raise ValueError('Both kw and funcw must be specified')
-            new_funcw = lambda y: kw*funcw(y)
+            new_funcw = ScaledFunction(kw, funcw)
         if cte:
             self.distr_pds.append([x, None, new_funcu, new_funcv, new_funcw])
         else:
@@ -1081,15 +1091,15 @@ class Shell(object):
         if (ku is not None) or (funcu is not None):
             if ku is None or funcu is None:
                 raise ValueError('Both ku and funcu must be specified')
-            new_funcu = lambda x: ku*funcu(x)
+            new_funcu = ScaledFunction(ku, funcu)
         if (kv is not None) or (funcv is not None):
             if kv is None or funcv is None:
                 raise ValueError('Both kv and funcv must be specified')
-            new_funcv = lambda x: kv*funcv(x)
+            new_funcv = ScaledFunction(kv, funcv)
         if (kw is not None) or (funcw is not None):
             if kw is None or funcw is None:
                 raise ValueError('Both kw and funcw must be specified')
-            new_funcw = lambda x: kw*funcw(x)
+            new_funcw = ScaledFunction(kw, funcw)
         if cte:
             self.distr_pds.append([None, y, new_funcu, new_funcv, new_funcw])
         else:
-- 
2.43.0

