From 36265136a7f11abb89f9df9e26ad2ecd3e841752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 01/21] fix: del_element also deletes the element and material
 type

---
 src/trusspy/handlers/handler_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 273dd38..80d5986 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -103,6 +103,8 @@ class ElementHandler:
         idx = np.where(self.labels == label)[0]
         self.labels = np.delete(self.labels, idx, axis=0)
         self.conns = np.delete(self.conns, idx, axis=0)
+        self.elem_type = np.delete(self.elem_type, idx, axis=0)
+        self.mat_type = np.delete(self.mat_type, idx, axis=0)
         self.material_properties = np.delete(self.material_properties, idx, axis=0)
         self.geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
 
-- 
2.43.0


From bc04f5be4e121c18e2f22933c3937e250f7d852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 02/21] fix: do not truncate assigned element properties to
 integers

---
 src/trusspy/handlers/handler_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 80d5986..6bcf9a5 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -85,8 +85,8 @@ class ElementHandler:
             self.elem_type = np.array([E.elem_type])
             self.mat_type = np.array([E.mat_type])
             self.conns = np.array([E.conn])
-            self.material_properties = np.array([E.material_properties])
-            self.geometric_properties = np.array([E.geometric_properties])
+            self.material_properties = np.array([E.material_properties], dtype=float)
+            self.geometric_properties = np.array([E.geometric_properties], dtype=float)
         else:
             self.labels = np.append(self.labels, E.label)
             self.conns = np.vstack((self.conns, E.conn))
-- 
2.43.0


From 5b8959afecc0c02225d450c4cff9124e7bc53d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 03/21] fix: keep boundary values two-dimensional for a single
 boundary

---
 src/trusspy/handlers/handler_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 9f27858..b981f3d 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -41,7 +41,7 @@ class BoundaryHandler:
 
         if self.Unodes is None:
             self.Unodes = np.array([B.node])
-            self.Uvalues = np.array(B.values)
+            self.Uvalues = np.array([B.values])
         else:
             self.Unodes = np.append(self.Unodes, B.node)
             self.Uvalues = np.vstack((self.Uvalues, B.values))
-- 
2.43.0


From 4819050c2c271cdd3012b9b5672609cf1f3a6b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 04/21] fix: never skip the solution of an increment after the
 pre-identification of j

---
 src/trusspy/solvers/tpsolver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 0f7c669..0deb3d5 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -402,8 +402,9 @@ def pathfollow(
             # set the found solution to j
             j = j_pre
 
-            if abs(v1) > dxtol:
-                nr_success_pre = False
+            # the linearized solution identifies j only, it is never accepted as
+            # the solution of the increment
+            nr_success_pre = False
 
         # -----------------------------------------------------------------
         # END PRE-IDENTIFY j
-- 
2.43.0


From 24a0f9a2271ab70e688a5a5e9d9a9734174a7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 05/21] fix: do not add the solution of a failed increment to
 the results

---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 01f41a2..1bcdbfe 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -397,7 +397,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)
 
             # append last lpf value
-            self.Results.step_lpf_end.append(self.Results.R[-1].lpf)
+            self.Results.step_lpf_end.append(res_a[-1].lpf)
 
             # reset LPF for new step
             if step + 1 < self.Settings.nsteps:
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 0deb3d5..5a6cc9d 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -542,8 +542,11 @@ def pathfollow(
             print("")
             print("* recycling increment")
 
+        # Stop due to error, do not save the result of a failed increment
+        if stop:
+            break
+
         # save results to analysis object
-        # if not stop:
         analysis.Vred = x
         analysis.Ured = x[:-1]
         analysis.lpf = x[-1]
@@ -555,10 +558,6 @@ def pathfollow(
             print("")
             print("* final LPF: {0: 10.4g}".format(x[-1]))
 
-        # Stop due to error
-        if stop:
-            break
-
         # Maximum value reached
         if xlimit is not None:
             if abs(x[xlimit[0] - 1]) > xlimit[1]:
-- 
2.43.0


From cee085cad2136589b0f83f35b61ca73b587065cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 06/21] fix: take the initial control component into account

---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 1bcdbfe..3928a8f 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -238,7 +238,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             )
             print(
                 "|Initial control component            |     `j0`|",
-                "LPF|" if self.Settings.j0 == None else self.Settings.j0 + "|",
+                "LPF|" if self.Settings.j0 == None else str(self.Settings.j0) + "|",
             )
             print(
                 "|Locked control component             |`j_fixed`|",
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 5a6cc9d..7e9b116 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -324,7 +324,7 @@ def pathfollow(
     dxmax0 = dxmax.copy()
 
     # init control component to LPF
-    if not j_fixed:
+    if j is None:
         j = len(x)
 
     # init INCREMENTS SINCE LAST REFINEMENT (stepcontrol)
-- 
2.43.0


From 1ad2d1336cda8b9f010c8fafb4905a5226420e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 07/21] fix: keep the adaptive incremental limits inside minfac
 and maxfac

---
 src/trusspy/solvers/tpsolver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 7e9b116..a19f9a7 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -154,7 +154,7 @@ def dxmax_control(
                     print(
                         "* reduce NR-step size by factor: {:10.3g}".format(1 / reduce)
                     )
-                dxmax = dxmax / reduce
+                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac)
                 dx_changed = True
                 b = 0  # reset counter to increase width again
 
@@ -179,7 +179,9 @@ def dxmax_control(
                     #   nfev = 8, n = 4
                     #   1+(8-n)/8 = 1.5
                     #   total_increase = increase*1.5
-                    dxmax = dxmax * (1 + (nfev - n) / nfev * increase)
+                    dxmax = np.minimum(
+                        dxmax * (1 + (nfev - n) / nfev * increase), dxmax0 * maxfac
+                    )
                     dx_changed = True
                     if verbose > 1:
                         print(
-- 
2.43.0


From bdf9090900cbe9e79c916bb71acaa7aca9c8fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 08/21] fix: plot elements of models with arbitrary node labels

---
 src/trusspy/tools/plot_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 7e82eed..5db95eb 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -121,7 +121,7 @@ def p_model(
         size=nodesize,
     )
     fig, ax = plot_elems(
-        self.Elements.conns,
+        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),
         self.Nodes.coords + self.Results.R[inc].U,
         fig,
         ax,
-- 
2.43.0


From 7c67a9afb8122d44ae7a6ee06139badfe23744de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 09/21] fix: do not prepend the undeformed increment twice in
 history plots

---
 src/trusspy/tools/plot_utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 5db95eb..ee837a7 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -232,8 +232,8 @@ def p_path(self, nodepath, increment=-1, Y="Displacement X", fig=None, ax=None):
 
 def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None):
     # loop over increments
-    xx = [0]
-    yy = [0]
+    xx = []
+    yy = []
     dir_dict = {"X": 0, "Y": 1, "Z": 2}
 
     x, y = np.nan, np.nan
@@ -261,9 +261,9 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
         yy.append(y)
 
     if "Increments" in X:
-        xx = np.arange(1 + len(self.Results.R), dtype=int)
+        xx = np.arange(len(self.Results.R), dtype=int)
     if "Increments" in Y:
-        yy = np.arange(1 + len(self.Results.R))
+        yy = np.arange(len(self.Results.R))
 
     if fig is None:
         fig, ax = plt.subplots()
-- 
2.43.0


From fd9cf362e31504195d25b012f5ca5076219d0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 10/21] fix: keep the order of movie frames for increments
 above 999

---
 src/trusspy/tools/movie_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/movie_generator.py b/src/trusspy/tools/movie_generator.py
index a7e56a5..90f7300 100644
--- a/src/trusspy/tools/movie_generator.py
+++ b/src/trusspy/tools/movie_generator.py
@@ -20,7 +20,7 @@ def png_to_gif(workdir=r"figures/", png_subdir=r"png/", gif_subdir=r"gif/", **kw
         rmtree(gif_dir)
     os.mkdir(gif_dir)
 
-    for file_name in sorted(os.listdir(png_dir)):
+    for file_name in sorted(os.listdir(png_dir), key=lambda name: (len(name), name)):
         if file_name.endswith(".png"):
             file_path = os.path.join(png_dir, file_name)
             images.append(imageio.imread(file_path))
-- 
2.43.0


From 72a5c3dd9c3cceae677b33eff1d2d25e229fdb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:12 +0000
Subject: [PATCH 11/21] fix: the stretch of the undeformed model is one

---
 src/trusspy/core/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/core/analysis.py b/src/trusspy/core/analysis.py
index 949bd66..d797691 100644
--- a/src/trusspy/core/analysis.py
+++ b/src/trusspy/core/analysis.py
@@ -115,7 +115,7 @@ class Analysis:
             self.g = np.zeros((nnodes, ndim))
             self.K = np.zeros((nnodes, nnodes, ndim, ndim))
 
-            self.stretch = np.zeros((nelems, 1))
+            self.stretch = np.ones((nelems, 1))
             self.element_force = np.zeros((nelems, 1))
             self.element_stress0 = np.zeros((nelems, 1))
             self.element_stress = np.zeros((nelems, 1))
-- 
2.43.0


From 58bf44b2a9a899d06a25902ac30814861094bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 12/21] fix: do not print progress informations for log level
 zero

---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 3928a8f..34b3adb 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -336,7 +336,7 @@ Dutzler Andreas, Graz University of Technology, 2023
                     self.Results.step_lpf_end[s]
                     * self.ExtForces.forces[:, 3 * (s) : 3 * (s + 1)]
                 )
-            if len(range(step)) != 0:
+            if len(range(step)) != 0 and self.Settings.log > 0:
                 print("\nconstant part of external forces due to previous step(s)")
                 print("    ", f0_const, "\n")
                 print("\ninitial values of active DOF due to previous step(s)")
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index a19f9a7..ab35406 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -505,7 +505,7 @@ def pathfollow(
                     maxfac,
                     reduce,
                     increase,
-                    verbose=2,
+                    verbose=verbose,
                 )
 
             if solution_valid and nr_success:
@@ -541,8 +541,9 @@ def pathfollow(
             z = z + 1
             n_pre = 0
 
-            print("")
-            print("* recycling increment")
+            if verbose > 0:
+                print("")
+                print("* recycling increment")
 
         # Stop due to error, do not save the result of a failed increment
         if stop:
-- 
2.43.0


From 558d492d5970af5f8595a9ba3e2fe3a57584c37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 13/21] fix: refuse unknown material types

---
 src/trusspy/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 34b3adb..30e2d43 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -539,6 +539,8 @@ Dutzler Andreas, Graz University of Technology, 2023
                 umat = umat_el
             elif mat_type == 2:
                 umat = umat_elplast_iso
+            else:
+                raise ValueError(f"Unknown material type {mat_type} of element {e}.")
 
             self.Analysis, state_v = truss(
                 e,
-- 
2.43.0


From 677e80acd5fbf2de58e6572eb7089bcb35fc10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 14/21] fix: refuse duplicate node and element labels

---
 src/trusspy/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 30e2d43..798c5e3 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -149,6 +149,10 @@ Dutzler Andreas, Graz University of Technology, 2023
         ):
             raise IOError("Node sorting failed.")
 
+        for labels in (self.Nodes.labels, self.Elements.labels):
+            if len(np.unique(labels)) != len(labels):
+                raise ValueError("Duplicate node or element labels.")
+
         # init state variables for plasticity
         if 2 in self.Elements.mat_type:
             self.Settings.nstatev = 2
-- 
2.43.0


From 950252c85b36e27cc85b3e38b54db50a643354a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 15/21] fix: restore stdout if a job with a logfile raises

---
 src/trusspy/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 798c5e3..7b41d58 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -205,6 +205,13 @@ Dutzler Andreas, Graz University of Technology, 2023
     def run(self):
         """Run job."""
 
+        try:
+            self._run()
+        finally:
+            if self.logfile:
+                sys.stdout = self.stdout
+
+    def _run(self):
         if self.Settings.log > 1:
             print(r"\pagebreak")
             print(" ")
@@ -441,9 +448,6 @@ Dutzler Andreas, Graz University of Technology, 2023
                 '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
             )
 
-        if self.logfile:
-            sys.stdout = self.stdout
-
     def stiffness(self, Ured, analysis=None):
         """Method for evaluating the stiffness matrix. It re-shapes the stiffness matrix
         to ``K(nnodes,nnodes,ndim,ndim) --> K(nnodes*ndim,nnodes*nim)`` and returns a
-- 
2.43.0


From 68e20480f6f970481cca5ffda19746109fa74aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 16/21] fix: accept a list of incremental limits for all
 components of x

---
 src/trusspy/solvers/tpsolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index ab35406..d1a996e 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -319,6 +319,7 @@ def pathfollow(
             dxm[:-1] = np.ones(len(x) - 1) * dxmax[0]
             dxm[-1] = dxmax[-1]
             dxmax = dxm
+        dxmax = np.array(dxmax, dtype=float)
 
     except:
         # if dxmax is a scalar: assign it to every component of dx
-- 
2.43.0


From 1b0b69b4cee659d3e71bfbaa9fb4e866a349f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:02 +0000
Subject: [PATCH 17/21] fix: draw history and path plots on given axes without
 a figure

---
 src/trusspy/tools/plot_utilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index ee837a7..e64058e 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -223,8 +223,10 @@ def p_path(self, nodepath, increment=-1, Y="Displacement X", fig=None, ax=None):
         xx.append(x)
         yy.append(y)
 
-    if fig is None:
+    if ax is None:
         fig, ax = plt.subplots()
+    elif fig is None:
+        fig = ax.figure
     fig, ax = plot_pth(nodepath, yy, increment, Y, fig, ax)
 
     return fig, ax
@@ -265,8 +267,10 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
     if "Increments" in Y:
         yy = np.arange(len(self.Results.R))
 
-    if fig is None:
+    if ax is None:
         fig, ax = plt.subplots()
+    elif fig is None:
+        fig = ax.figure
     fig, ax = plot_hist(xx, yy, nodes[0], X, Y, fig, ax)
 
     return fig, ax
-- 
2.43.0


From b6d734ad81fa76d3f97c36cac159e423840ab2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 18/21] fix: do not share the default properties between
 elements

---
 src/trusspy/core/element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/core/element.py b/src/trusspy/core/element.py
index 37f144b..8c56229 100644
--- a/src/trusspy/core/element.py
+++ b/src/trusspy/core/element.py
@@ -5,6 +5,8 @@ author: Andreas Dutzler
 year: 2023
 """
 
+import copy
+
 import numpy as np
 
 
@@ -81,9 +83,9 @@ class Element:
         if mprop is not None:
             self.material_properties = mprop
         else:
-            self.material_properties = material_properties
+            self.material_properties = copy.copy(material_properties)
 
         if gprop is not None:
             self.geometric_properties = gprop
         else:
-            self.geometric_properties = geometric_properties
+            self.geometric_properties = copy.copy(geometric_properties)
-- 
2.43.0


From 2b9065a0a16ddeab80eca50f08e5b7941c84942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 19/21] fix: refuse elements without material or geometric
 properties

---
 src/trusspy/model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 7b41d58..a8e3474 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -153,6 +153,13 @@ Dutzler Andreas, Graz University of Technology, 2023
             if len(np.unique(labels)) != len(labels):
                 raise ValueError("Duplicate node or element labels.")
 
+        for properties in (
+            self.Elements.material_properties,
+            self.Elements.geometric_properties,
+        ):
+            if np.isnan(properties[:, 0]).any():
+                raise ValueError("Missing material or geometric properties.")
+
         # init state variables for plasticity
         if 2 in self.Elements.mat_type:
             self.Settings.nstatev = 2
-- 
2.43.0


From 3ef378c7d5075d8496cafe3dca9c128d34a5e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:28 +0000
Subject: [PATCH 20/21] fix: do not write a single code fence to log files of
 low log levels

---
 src/trusspy/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index a8e3474..a87b965 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -113,8 +113,8 @@ TrussPy - Truss Solver for Python
 Dutzler Andreas, Graz University of Technology, 2023
         """
             )
-        if self.logfile:
-            print("```")
+            if self.logfile:
+                print("```")
 
         self.Nodes = NodeHandler()
         self.Elements = ElementHandler()
-- 
2.43.0


From 9ec514aa8df42dd3d6309ebc9c2b6e83e2e92328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 21/21] fix: do not truncate the incremental limits of integer
 start points

---
 src/trusspy/solvers/tpsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index d1a996e..d4ea02c 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -303,7 +303,7 @@ def pathfollow(
     """
 
     # extend x by one dimension
-    x = np.append(x, 0)
+    x = np.append(x, 0.0)
 
     # init result
     res_x = x.copy()
-- 
2.43.0

