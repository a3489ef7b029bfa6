From dd62af9807a4c5003403cbe1fd5dfbcb26880875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 01/35] fix: do not record increments which did not converge as
 results

---
 src/trusspy/model.py            | 2 +-
 src/trusspy/solvers/tpsolver.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 01f41a2..1bcdbfe 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -397,7 +397,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             self.Results.R[-1].U0 = np.copy(self.Results.R[-1].U)
 
             # append last lpf value
-            self.Results.step_lpf_end.append(self.Results.R[-1].lpf)
+            self.Results.step_lpf_end.append(res_a[-1].lpf)
 
             # reset LPF for new step
             if step + 1 < self.Settings.nsteps:
diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 0f7c669..dfb9bf6 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -541,8 +541,11 @@ def pathfollow(
             print("")
             print("* recycling increment")
 
+        # Stop due to error (do not save a non-converged or invalid solution)
+        if stop:
+            break
+
         # save results to analysis object
-        # if not stop:
         analysis.Vred = x
         analysis.Ured = x[:-1]
         analysis.lpf = x[-1]
@@ -554,10 +557,6 @@ def pathfollow(
             print("")
             print("* final LPF: {0: 10.4g}".format(x[-1]))
 
-        # Stop due to error
-        if stop:
-            break
-
         # Maximum value reached
         if xlimit is not None:
             if abs(x[xlimit[0] - 1]) > xlimit[1]:
-- 
2.43.0


From 6b90e2bcb523113e3c2068d3e24caee778b54073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 02/35] fix: always run the nonlinear solution after the
 pre-identification of j

---
 src/trusspy/solvers/tpsolver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index dfb9bf6..f3360b3 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -378,7 +378,8 @@ def pathfollow(
             xmax_pre = x[abs(j) - 1] + dxmax[abs(j) - 1] * np.sign(j)
             args = x0, j, xmax_pre, g, dgdx, analysis, False
 
-            x_pre, nr_success_pre, n_pre, f_norm_pre, x_norm_pre = newton(
+            # (the linearized solution only identifies j, it is not taken as result)
+            x_pre, _, n_pre, f_norm_pre, x_norm_pre = newton(
                 f, dfdx, x, nfev_pre, ftol, xtol, 0, *args
             )
 
@@ -402,9 +403,6 @@ def pathfollow(
             # set the found solution to j
             j = j_pre
 
-            if abs(v1) > dxtol:
-                nr_success_pre = False
-
         # -----------------------------------------------------------------
         # END PRE-IDENTIFY j
         # -----------------------------------------------------------------
-- 
2.43.0


From 1e039fca7b5e950f4855be473f75583f190b8158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:39 +0000
Subject: [PATCH 03/35] fix: keep the adapted stepwidth inside minfac and
 maxfac

---
 src/trusspy/solvers/tpsolver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index f3360b3..d2b7554 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -154,7 +154,7 @@ def dxmax_control(
                     print(
                         "* reduce NR-step size by factor: {:10.3g}".format(1 / reduce)
                     )
-                dxmax = dxmax / reduce
+                dxmax = np.maximum(dxmax / reduce, dxmax0 * minfac)
                 dx_changed = True
                 b = 0  # reset counter to increase width again
 
@@ -179,7 +179,9 @@ def dxmax_control(
                     #   nfev = 8, n = 4
                     #   1+(8-n)/8 = 1.5
                     #   total_increase = increase*1.5
-                    dxmax = dxmax * (1 + (nfev - n) / nfev * increase)
+                    dxmax = np.minimum(
+                        dxmax * (1 + (nfev - n) / nfev * increase), dxmax0 * maxfac
+                    )
                     dx_changed = True
                     if verbose > 1:
                         print(
-- 
2.43.0


From 75c8c34dcff46d9a5436daa3d371d0482186c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 04/35] fix: do not truncate properties assigned to elements
 created with integers

---
 src/trusspy/handlers/handler_element.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 273dd38..ce97a1b 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -85,8 +85,10 @@ class ElementHandler:
             self.elem_type = np.array([E.elem_type])
             self.mat_type = np.array([E.mat_type])
             self.conns = np.array([E.conn])
-            self.material_properties = np.array([E.material_properties])
-            self.geometric_properties = np.array([E.geometric_properties])
+            self.material_properties = np.array([E.material_properties], dtype=float)
+            self.geometric_properties = np.array(
+                [E.geometric_properties], dtype=float
+            )
         else:
             self.labels = np.append(self.labels, E.label)
             self.conns = np.vstack((self.conns, E.conn))
-- 
2.43.0


From bbc047151da49c141e9edf6ab84f4d03ec8e569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 05/35] fix: delete the element and material type along with an
 element

---
 src/trusspy/handlers/handler_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index ce97a1b..e747463 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -105,6 +105,8 @@ class ElementHandler:
         idx = np.where(self.labels == label)[0]
         self.labels = np.delete(self.labels, idx, axis=0)
         self.conns = np.delete(self.conns, idx, axis=0)
+        self.elem_type = np.delete(self.elem_type, idx, axis=0)
+        self.mat_type = np.delete(self.mat_type, idx, axis=0)
         self.material_properties = np.delete(self.material_properties, idx, axis=0)
         self.geometric_properties = np.delete(self.geometric_properties, idx, axis=0)
 
-- 
2.43.0


From b8bf97846cbd47ea51eaf03c02b5e6fe0b9d3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 06/35] fix: print the summary of a model with a given initial
 control component

---
 src/trusspy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 1bcdbfe..3928a8f 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -238,7 +238,7 @@ Dutzler Andreas, Graz University of Technology, 2023
             )
             print(
                 "|Initial control component            |     `j0`|",
-                "LPF|" if self.Settings.j0 == None else self.Settings.j0 + "|",
+                "LPF|" if self.Settings.j0 == None else str(self.Settings.j0) + "|",
             )
             print(
                 "|Locked control component             |`j_fixed`|",
-- 
2.43.0


From aee1f03c99a323e40ff1572774b47d566489980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 07/35] fix: keep the reduced internal forces and the shape of
 g up to date

---
 src/trusspy/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 3928a8f..dd7d7c9 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -566,8 +566,9 @@ Dutzler Andreas, Graz University of Technology, 2023
                 -self.Analysis.r.flatten()
                 + self.Analysis.ExtForces.forces_const.flatten()
                 + lpf * self.Analysis.ExtForces.forces.flatten()
-            )
-            return self.Analysis.g[self.Analysis.DOF1]
+            ).reshape(self.Analysis.r.shape)
+            self.Analysis.rred = self.Analysis.r.flatten()[self.Analysis.DOF1]
+            return self.Analysis.g.flatten()[self.Analysis.DOF1]
         else:
             return
 
-- 
2.43.0


From c46c0001404eb812e98d28e97580034e395840b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 08/35] fix: store the element stress at the beginning of the
 increment

---
 src/trusspy/solvers/tpsolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index d2b7554..24c9305 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -354,6 +354,7 @@ def pathfollow(
 
         # COPY RESULT
         x0 = x.copy()
+        analysis.element_stress0 = res_a[-1].element_stress.copy()
 
         # RECYCLE UNTIL VALID SOLUTION IS FOUND
         z = 0
-- 
2.43.0


From de004a55d5ba011fb63630c671d0b37246b397f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 09/35] fix: build a model without external forces

---
 src/trusspy/handlers/handler_extforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index 7e703ab..0dfaa9a 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -49,7 +49,7 @@ class ExternalForceHandler:
         # are nodelist entries in force-nodes?
         mask = np.isin(nodelist, self.nodes, invert=True)
         fix_nodes = nodelist[mask]  # nodes to fix
-        comp = self.forces.shape[1]
+        comp = 3 if self.forces is None else self.forces.shape[1]
         for n in fix_nodes:
             F = ExternalForce(n, np.zeros(comp))
             self.add_force(F)
-- 
2.43.0


From 8e658c0ccbaf17e6d5f51eb59e9bc1da452fd821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:00 +0000
Subject: [PATCH 10/35] fix: accept arrays as material and geometric properties
 of an element

---
 src/trusspy/core/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trusspy/core/element.py b/src/trusspy/core/element.py
index 37f144b..ee13f47 100644
--- a/src/trusspy/core/element.py
+++ b/src/trusspy/core/element.py
@@ -68,12 +68,12 @@ class Element:
         self.elem_type = elem_type
         self.mat_type = mat_type
 
-        if material_properties != [np.nan] and mprop is not None:
+        if list(material_properties) != [np.nan] and mprop is not None:
             raise TypeError(
                 'Wrong Material Properties. Use either "material_properties" or "mprop", not both.'
             )
 
-        if geometric_properties != [np.nan] and gprop is not None:
+        if list(geometric_properties) != [np.nan] and gprop is not None:
             raise TypeError(
                 'Wrong Geometric Properties. Use either "geometric_properties" or "gprop", not both.'
             )
-- 
2.43.0


From bc577a9420f99d3bc98d4e275806c0d445c0773f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 11/35] fix: go back to the last valid solution if an increment
 fails

---
 src/trusspy/solvers/tpsolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 24c9305..f428fff 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -544,6 +544,8 @@ def pathfollow(
 
         # Stop due to error (do not save a non-converged or invalid solution)
         if stop:
+            # go back to the last valid solution
+            analysis.__dict__.update(copy.deepcopy(res_a[-1]).__dict__)
             break
 
         # save results to analysis object
-- 
2.43.0


From a47411461cff0e1b2d6d0e8ce85bf3dce0e21543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 12/35] fix: plot elements of models with arbitrary node labels

---
 src/trusspy/tools/plot_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 7e82eed..5db95eb 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -121,7 +121,7 @@ def p_model(
         size=nodesize,
     )
     fig, ax = plot_elems(
-        self.Elements.conns,
+        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),
         self.Nodes.coords + self.Results.R[inc].U,
         fig,
         ax,
-- 
2.43.0


From ca9b65d23430fe5de902c964e202825ad7667dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 13/35] fix: do not insert an additional zero increment in
 history plots

---
 src/trusspy/tools/plot_utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 5db95eb..ee837a7 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -232,8 +232,8 @@ def p_path(self, nodepath, increment=-1, Y="Displacement X", fig=None, ax=None):
 
 def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None):
     # loop over increments
-    xx = [0]
-    yy = [0]
+    xx = []
+    yy = []
     dir_dict = {"X": 0, "Y": 1, "Z": 2}
 
     x, y = np.nan, np.nan
@@ -261,9 +261,9 @@ def p_history(self, nodes=[1, 1], X="Displacement X", Y="LPF", fig=None, ax=None
         yy.append(y)
 
     if "Increments" in X:
-        xx = np.arange(1 + len(self.Results.R), dtype=int)
+        xx = np.arange(len(self.Results.R), dtype=int)
     if "Increments" in Y:
-        yy = np.arange(1 + len(self.Results.R))
+        yy = np.arange(len(self.Results.R))
 
     if fig is None:
         fig, ax = plt.subplots()
-- 
2.43.0


From e58c23451e5dda84b23ec6e5fcc0862228b1ad18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 14/35] fix: order of movie frames with more than 999
 increments

---
 src/trusspy/tools/movie_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/movie_generator.py b/src/trusspy/tools/movie_generator.py
index a7e56a5..61fbbd2 100644
--- a/src/trusspy/tools/movie_generator.py
+++ b/src/trusspy/tools/movie_generator.py
@@ -20,7 +20,7 @@ def png_to_gif(workdir=r"figures/", png_subdir=r"png/", gif_subdir=r"gif/", **kw
         rmtree(gif_dir)
     os.mkdir(gif_dir)
 
-    for file_name in sorted(os.listdir(png_dir)):
+    for file_name in sorted(os.listdir(png_dir), key=lambda f: (len(f), f)):
         if file_name.endswith(".png"):
             file_path = os.path.join(png_dir, file_name)
             images.append(imageio.imread(file_path))
-- 
2.43.0


From acf5bf3a5ebb1f42400eebf78df77394e21242d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 15/35] fix: restore stdout if a run with a logfile fails

---
 src/trusspy/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index dd7d7c9..afc5e4d 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -201,6 +201,13 @@ Dutzler Andreas, Graz University of Technology, 2023
     def run(self):
         """Run job."""
 
+        try:
+            self._run()
+        finally:
+            if self.logfile:
+                sys.stdout = self.stdout
+
+    def _run(self):
         if self.Settings.log > 1:
             print(r"\pagebreak")
             print(" ")
@@ -437,9 +444,6 @@ Dutzler Andreas, Graz University of Technology, 2023
                 '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
             )
 
-        if self.logfile:
-            sys.stdout = self.stdout
-
     def stiffness(self, Ured, analysis=None):
         """Method for evaluating the stiffness matrix. It re-shapes the stiffness matrix
         to ``K(nnodes,nnodes,ndim,ndim) --> K(nnodes*ndim,nnodes*nim)`` and returns a
-- 
2.43.0


From e1820be1e3a7f1aa3cdb9e98ca2b33061269f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 16/35] fix: plot nodes, elements and external forces of the
 model

---
 src/trusspy/tools/plot_utilities.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index ee837a7..0164af2 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -15,18 +15,28 @@ from .helper_functions2 import plot_elems, plot_force, plot_hist, plot_nodes, pl
 from .movie_generator import png_to_gif
 
 
-def p_nodes(self):
-    plot_nodes(self.Nodes.coords + self.Results.U, color="C1")
+def _coords(self, config="undeformed"):
+    if config == "undeformed":
+        return self.Nodes.coords
+    return self.Nodes.coords + self.Results.R[-1].U
 
 
-def p_elements(self):
-    plot_elems(self.Elements.conns, self.Nodes.coords + self.Results.U, color="C0")
+def p_nodes(self, config="undeformed"):
+    plot_nodes(_coords(self, config), color="C1")
 
 
-def p_extforces(self, step=1):
+def p_elements(self, config="undeformed"):
+    plot_elems(
+        1 + np.searchsorted(self.Nodes.labels, self.Elements.conns),
+        _coords(self, config),
+        color="C0",
+    )
+
+
+def p_extforces(self, config="undeformed", step=1):
     plot_force(
         self.ExtForces.forces[:, 3 * (step - 1) : 3 * step],
-        self.Nodes.coords + self.Results.U,
+        _coords(self, config),
     )
 
 
-- 
2.43.0


From af5c9fe9a77afafe2595559ccd6e152ab96d3eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 17/35] fix: stretch of the undeformed state is one

---
 src/trusspy/core/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/core/analysis.py b/src/trusspy/core/analysis.py
index 949bd66..d797691 100644
--- a/src/trusspy/core/analysis.py
+++ b/src/trusspy/core/analysis.py
@@ -115,7 +115,7 @@ class Analysis:
             self.g = np.zeros((nnodes, ndim))
             self.K = np.zeros((nnodes, nnodes, ndim, ndim))
 
-            self.stretch = np.zeros((nelems, 1))
+            self.stretch = np.ones((nelems, 1))
             self.element_force = np.zeros((nelems, 1))
             self.element_stress0 = np.zeros((nelems, 1))
             self.element_stress = np.zeros((nelems, 1))
-- 
2.43.0


From c74700623c78918747d150a24aec1df9c3e1a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:58 +0000
Subject: [PATCH 18/35] fix: treat an increment without finite solution as not
 converged

---
 src/trusspy/solvers/tpsolver.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index f428fff..3c75ad8 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -389,13 +389,15 @@ def pathfollow(
             # incremental solution
             Dx_pre = x_pre - x0
 
+            # (there is no linearized solution at singular points)
+            finite_pre = np.all(np.isfinite(Dx_pre))
+
             # Dx/dxmax --> get j-th component with maximum value and it's sign
             Dxi_pre = 1 + np.argsort(abs(Dx_pre / dxmax))
             Dxs_pre = np.sort(abs(Dx_pre / dxmax)) * np.sign(
                 (Dx_pre / dxmax).T[Dxi_pre - 1]
             )
             i1, v1 = Dxi_pre[-1], Dxs_pre[-1]
-            j_pre = int(i1 * np.sign(v1))
             if verbose > 1:
                 print(
                     "| {0:2d}  |  {1:2d}  |  {2:2d}   |{3:1.3e}|{4:4d}|{5:8.1g}|    |        |    |        |".format(
@@ -404,7 +406,8 @@ def pathfollow(
                 )
 
             # set the found solution to j
-            j = j_pre
+            if finite_pre:
+                j = int(i1 * np.sign(v1))
 
         # -----------------------------------------------------------------
         # END PRE-IDENTIFY j
@@ -432,7 +435,7 @@ def pathfollow(
 
             # NEWTON-RHAPSON ITERATIONS (nonlinear solution process)
             args = x0, j, xmax, g, dgdx, analysis, False
-            if z == 0 and j_pre and not j_fixed:
+            if z == 0 and j_pre and not j_fixed and finite_pre:
                 x = x0 + Dx_pre / abs(Dxs_pre[-1])
 
             x, nr_success, n, f_norm, x_norm = newton(
@@ -467,7 +470,7 @@ def pathfollow(
                 )
 
             # set new control comp. if not fixed by the user
-            if not j_fixed:
+            if not j_fixed and np.all(np.isfinite(Dx)):
                 j = int(i1 * np.sign(v1))
 
             # save current dxmax as dVmax to analysis object
-- 
2.43.0


From 37e1d43f5febd91fbe78d34d13d7dfa61d66ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 19/35] fix: delete the last entry of a handler and add new
 ones afterwards

---
 src/trusspy/handlers/handler_boundary.py | 4 ++--
 src/trusspy/handlers/handler_element.py  | 2 +-
 src/trusspy/handlers/handler_extforce.py | 4 ++--
 src/trusspy/handlers/handler_node.py     | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 9f27858..290a6f6 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -39,9 +39,9 @@ class BoundaryHandler:
         if "BoundaryU" not in str(type(B)):
             B = BoundaryU(B, *args, **kwargs)
 
-        if self.Unodes is None:
+        if self.Unodes is None or len(self.Unodes) == 0:
             self.Unodes = np.array([B.node])
-            self.Uvalues = np.array(B.values)
+            self.Uvalues = np.array([B.values])
         else:
             self.Unodes = np.append(self.Unodes, B.node)
             self.Uvalues = np.vstack((self.Uvalues, B.values))
diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index e747463..e402c9a 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -80,7 +80,7 @@ class ElementHandler:
         if "Element" not in str(type(E)):
             E = Element(E, *args, **kwargs)
 
-        if self.labels is None:
+        if self.labels is None or len(self.labels) == 0:
             self.labels = np.array([E.label])
             self.elem_type = np.array([E.elem_type])
             self.mat_type = np.array([E.mat_type])
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index 0dfaa9a..abd0675 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -27,7 +27,7 @@ class ExternalForceHandler:
         if "ExternalForce" not in str(type(F)):
             F = ExternalForce(F, *args, **kwargs)
 
-        if self.nodes is None:
+        if self.nodes is None or len(self.nodes) == 0:
             self.nodes = np.array([F.node])
             self.forces = np.array([F.force])
         else:
@@ -49,7 +49,7 @@ class ExternalForceHandler:
         # are nodelist entries in force-nodes?
         mask = np.isin(nodelist, self.nodes, invert=True)
         fix_nodes = nodelist[mask]  # nodes to fix
-        comp = 3 if self.forces is None else self.forces.shape[1]
+        comp = 3 if self.nodes is None or len(self.nodes) == 0 else self.forces.shape[1]
         for n in fix_nodes:
             F = ExternalForce(n, np.zeros(comp))
             self.add_force(F)
diff --git a/src/trusspy/handlers/handler_node.py b/src/trusspy/handlers/handler_node.py
index eb8a6e0..cda9b81 100644
--- a/src/trusspy/handlers/handler_node.py
+++ b/src/trusspy/handlers/handler_node.py
@@ -28,7 +28,7 @@ class NodeHandler:
         if "Node" not in str(type(N)):
             N = Node(N, *args, **kwargs)
 
-        if self.labels is None:
+        if self.labels is None or len(self.labels) == 0:
             self.labels = np.array([N.label])
             self.coords = np.array([N.coord])
         else:
-- 
2.43.0


From 7223ca042e6aec5f8986b19d131640df3deabc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 20/35] fix: change boundaries and forces of a model which was
 already built

---
 src/trusspy/handlers/handler_boundary.py | 18 ++++++++++++++++++
 src/trusspy/handlers/handler_extforce.py | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index 290a6f6..f5c533b 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -22,6 +22,9 @@ class BoundaryHandler:
         # 0=inactive (locked) DOF
         self.Uvalues = None
 
+        # nodes without a boundary (set to free by `fix_bounds_U`)
+        self.Ufree = []
+
         # NOT IMPLEMENTED
         # Element based thermal boundary condition
         self.Telements = None
@@ -39,6 +42,8 @@ class BoundaryHandler:
         if "BoundaryU" not in str(type(B)):
             B = BoundaryU(B, *args, **kwargs)
 
+        self._drop_free()
+
         if self.Unodes is None or len(self.Unodes) == 0:
             self.Unodes = np.array([B.node])
             self.Uvalues = np.array([B.values])
@@ -48,6 +53,8 @@ class BoundaryHandler:
 
     def del_bound_U(self, label):
         """delete boundary U by label"""
+        self._drop_free()
+
         idx = np.where(self.Unodes == label)[0]
         self.Unodes = np.delete(self.Unodes, idx, axis=0)
         self.Uvalues = np.delete(self.Uvalues, idx, axis=0)
@@ -60,16 +67,27 @@ class BoundaryHandler:
     def fix_bounds_U(self, nodelist):
         # check for undefined DOF --> set them all to free
 
+        self._drop_free()
+
         # are nodelist entries in Unodes?
         mask = np.isin(nodelist, self.Unodes, invert=True)
         fix_nodes = nodelist[mask]  # nodes to fix
         for n in fix_nodes:
             B = BoundaryU(n, (1, 1, 1))
             self.add_bound_U(B)
+        self.Ufree = list(fix_nodes)
         indices = np.argsort(self.Unodes)
         self.Unodes = self.Unodes.take(indices)
         self.Uvalues = self.Uvalues.take(indices, axis=0)
 
+    def _drop_free(self):
+        # drop the boundaries of undefined DOF, `fix_bounds_U` sets them again
+        if len(self.Ufree) > 0:
+            mask = np.isin(self.Unodes, self.Ufree, invert=True)
+            self.Unodes = self.Unodes[mask]
+            self.Uvalues = self.Uvalues[mask]
+            self.Ufree = []
+
     def add_bound_T(self, B):
         # add thermal boundary
         if self.Tnodes is None:
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index abd0675..ff85a3f 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -17,6 +17,9 @@ class ExternalForceHandler:
         self.nodes = None
         self.forces = None
 
+        # nodes without an external force (set to zero by `fix_forces`)
+        self.unloaded = []
+
     def __enter__(self):
         return self
 
@@ -27,6 +30,8 @@ class ExternalForceHandler:
         if "ExternalForce" not in str(type(F)):
             F = ExternalForce(F, *args, **kwargs)
 
+        self._drop_unloaded()
+
         if self.nodes is None or len(self.nodes) == 0:
             self.nodes = np.array([F.node])
             self.forces = np.array([F.force])
@@ -35,6 +40,8 @@ class ExternalForceHandler:
             self.forces = np.vstack((self.forces, F.force))
 
     def del_force(self, label):
+        self._drop_unloaded()
+
         idx = np.where(self.nodes == label)[0]
         self.nodes = np.delete(self.nodes, idx, axis=0)
         self.forces = np.delete(self.forces, idx, axis=0)
@@ -46,6 +53,8 @@ class ExternalForceHandler:
     def fix_forces(self, nodelist):
         # check for missing external forces --> set them all to zero
 
+        self._drop_unloaded()
+
         # are nodelist entries in force-nodes?
         mask = np.isin(nodelist, self.nodes, invert=True)
         fix_nodes = nodelist[mask]  # nodes to fix
@@ -53,6 +62,15 @@ class ExternalForceHandler:
         for n in fix_nodes:
             F = ExternalForce(n, np.zeros(comp))
             self.add_force(F)
+        self.unloaded = list(fix_nodes)
         indices = np.argsort(self.nodes)
         self.nodes = self.nodes.take(indices)
         self.forces = self.forces.take(indices, axis=0)
+
+    def _drop_unloaded(self):
+        # drop the zero forces of unloaded nodes, `fix_forces` sets them again
+        if len(self.unloaded) > 0:
+            mask = np.isin(self.nodes, self.unloaded, invert=True)
+            self.nodes = self.nodes[mask]
+            self.forces = self.forces[mask]
+            self.unloaded = []
-- 
2.43.0


From 94ba0cf432678f1e1f65ebd7cdb24f93acda0e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 21/35] fix: add elements with property lists of different
 length

---
 src/trusspy/handlers/handler_element.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index e402c9a..a01e247 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -94,13 +94,20 @@ class ElementHandler:
             self.conns = np.vstack((self.conns, E.conn))
             self.elem_type = np.append(self.elem_type, E.elem_type)
             self.mat_type = np.append(self.mat_type, E.mat_type)
-            self.material_properties = np.vstack(
-                (self.material_properties, E.material_properties)
+            self.material_properties = self._append(
+                self.material_properties, E.material_properties
             )
-            self.geometric_properties = np.vstack(
-                (self.geometric_properties, E.geometric_properties)
+            self.geometric_properties = self._append(
+                self.geometric_properties, E.geometric_properties
             )
 
+    def _append(self, table, row):
+        "append a row to the table, fill up the shorter one with zeros"
+        result = np.zeros((len(table) + 1, max(table.shape[1], len(row))))
+        result[:-1, : table.shape[1]] = table
+        result[-1, : len(row)] = row
+        return result
+
     def del_element(self, label):
         idx = np.where(self.labels == label)[0]
         self.labels = np.delete(self.labels, idx, axis=0)
-- 
2.43.0


From ca1284674749c87cc0f388a1e0e7b3505510e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 22/35] fix: treat a singular matrix which can not be
 factorized as not converged

---
 src/trusspy/solvers/zerosearch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trusspy/solvers/zerosearch.py b/src/trusspy/solvers/zerosearch.py
index 5deb5c3..4d787f1 100644
--- a/src/trusspy/solvers/zerosearch.py
+++ b/src/trusspy/solvers/zerosearch.py
@@ -5,6 +5,7 @@ author: Andreas Dutzler
 year: 2023
 """
 
+import numpy as np
 from numpy.linalg import norm
 from scipy.sparse import csr_matrix
 from scipy.sparse.linalg import spsolve
@@ -89,7 +90,12 @@ def newton(f, dfdx, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
 
     # NEWTON-RHAPSON ITERATIONS
     for n in range(nfev):
-        dx = spsolve(csr_matrix(dfdx(x, *args)), -f(x, *args))
+        A, b = csr_matrix(dfdx(x, *args)), -f(x, *args)
+        try:
+            dx = spsolve(A, b)
+        except RuntimeError:
+            # depending on its structure, a singular matrix can not be factorized
+            dx = np.full(b.shape, np.nan)
 
         # UPDATE SOLUTION
         x = x + dx
-- 
2.43.0


From 717f62cbf1635c9f2b92f73c68b157cb141471a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 23/35] fix: print cpu and wall time of a job with the right
 labels

---
 src/trusspy/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index afc5e4d..669110f 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -428,20 +428,20 @@ Dutzler Andreas, Graz University of Technology, 2023
                 'Time measurement for execution times of "Model.build()" and "Model.run()".\n'
             )
             print(
-                '    total  cpu time "build": {:10.3f} seconds'.format(
+                '    total wall time "build": {:10.3f} seconds'.format(
                     time_dclock_build
                 )
             )
             print(
-                '    total wall time "build": {:10.3f} seconds\n'.format(
+                '    total  cpu time "build": {:10.3f} seconds\n'.format(
                     time_dtime_build
                 )
             )
             print(
-                '    total  cpu time "run":   {:10.3f} seconds'.format(time_dclock_run)
+                '    total wall time "run":   {:10.3f} seconds'.format(time_dclock_run)
             )
             print(
-                '    total wall time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
+                '    total  cpu time "run":   {:10.3f} seconds\n'.format(time_dtime_run)
             )
 
     def stiffness(self, Ured, analysis=None):
-- 
2.43.0


From 34f0aa8172277ec3558db8aa2bb2bb1dbdaaad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:24 +0000
Subject: [PATCH 24/35] fix: pathfollow failed if the limits of all components
 were given as a list

---
 src/trusspy/solvers/tpsolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 3c75ad8..502724b 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -323,6 +323,7 @@ def pathfollow(
     except:
         # if dxmax is a scalar: assign it to every component of dx
         dxmax = np.ones_like(x) * dxmax
+    dxmax = np.array(dxmax, dtype=float)
     dxmax0 = dxmax.copy()
 
     # init control component to LPF
-- 
2.43.0


From f269546ff7315c710aa67eb4b9a05bc2d4357429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:05 +0000
Subject: [PATCH 25/35] fix: pathfollow failed for a start vector of integers

---
 src/trusspy/solvers/tpsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 502724b..6e7d4d1 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -303,7 +303,7 @@ def pathfollow(
     """
 
     # extend x by one dimension
-    x = np.append(x, 0)
+    x = np.append(x, 0.0)
 
     # init result
     res_x = x.copy()
-- 
2.43.0


From 5d4610c4a0226c1bb52c32ff60f1443fe0433cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 26/35] fix: a given initial control component was ignored
 unless it was locked

---
 src/trusspy/solvers/tpsolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/solvers/tpsolver.py b/src/trusspy/solvers/tpsolver.py
index 6e7d4d1..724baeb 100644
--- a/src/trusspy/solvers/tpsolver.py
+++ b/src/trusspy/solvers/tpsolver.py
@@ -327,7 +327,7 @@ def pathfollow(
     dxmax0 = dxmax.copy()
 
     # init control component to LPF
-    if not j_fixed:
+    if j is None:
         j = len(x)
 
     # init INCREMENTS SINCE LAST REFINEMENT (stepcontrol)
-- 
2.43.0


From 4dc881e323838e64af869abbf7943876bed5920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 27/35] fix: assigning properties to an array of element labels
 failed

---
 src/trusspy/handlers/handler_element.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index a01e247..4260f52 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -28,7 +28,7 @@ class ElementHandler:
         pass
 
     def assign_material(self, labels, mprop, mtype=None):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
 
         # reshape (extend) material properties
@@ -50,25 +50,25 @@ class ElementHandler:
                 self.mat_type[np.where(self.labels == label)] = [mtype]
 
     def assign_geometry(self, labels, gprop):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.geometric_properties[np.where(self.labels == label)] = [gprop]
 
     def assign_geometries(self, labels, gprops):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label, gprop in zip(labels, gprops):
             self.geometric_properties[np.where(self.labels == label)] = [gprop]
 
     def assign_etype(self, labels, elem_type):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.elem_type[np.where(self.labels == label)] = elem_type
 
     def assign_mtype(self, labels, mat_type):
-        if labels == "all":
+        if isinstance(labels, str) and labels == "all":
             labels = self.labels
         for label in labels:
             self.mat_type[np.where(self.labels == label)] = mat_type
-- 
2.43.0


From 11681347db45f2af8a2bbcdc569c8512a30e9ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:14 +0000
Subject: [PATCH 28/35] fix: movies of an array of increments failed

---
 src/trusspy/tools/plot_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/plot_utilities.py b/src/trusspy/tools/plot_utilities.py
index 0164af2..dd3c201 100644
--- a/src/trusspy/tools/plot_utilities.py
+++ b/src/trusspy/tools/plot_utilities.py
@@ -194,7 +194,7 @@ def p_movie(
     incs="all",
     **kwargs,
 ):
-    if incs == "all":
+    if isinstance(incs, str) and incs == "all":
         incs = range(1, len(self.Results.R))
 
     if os.path.isdir("figures/"):
-- 
2.43.0


From 2c1408c84e5276502496d8b9b873073744f8b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 29/35] fix: path plots of an array of nodes failed

---
 src/trusspy/tools/helper_functions2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trusspy/tools/helper_functions2.py b/src/trusspy/tools/helper_functions2.py
index 51d7917..22890f4 100644
--- a/src/trusspy/tools/helper_functions2.py
+++ b/src/trusspy/tools/helper_functions2.py
@@ -55,7 +55,7 @@ def plot_hist(x, y, nl, xl, yl="LPF", fig=None, ax=None):
 def plot_pth(x, y, inc, yl="LPF", fig=None, ax=None):
     if fig is None:
         fig, ax = plt.subplots()
-    if x == range(min(x), max(x) + 1):
+    if isinstance(x, range) and x == range(min(x), max(x) + 1):
         xx = np.linspace(min(x), max(x), 11, dtype=int)
         xdata = x
         xtcks = xx
-- 
2.43.0


From 730b2e76ef47e985689f3c35899439682b4d6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 30/35] fix: a run with one Newton iteration per increment
 raised instead of stopping with a notice

---
 src/trusspy/solvers/zerosearch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/trusspy/solvers/zerosearch.py b/src/trusspy/solvers/zerosearch.py
index 4d787f1..f97d451 100644
--- a/src/trusspy/solvers/zerosearch.py
+++ b/src/trusspy/solvers/zerosearch.py
@@ -87,6 +87,7 @@ def newton(f, dfdx, x, nfev=8, ftol=1e-8, xtol=1e-8, verbose=0, *args):
     """
 
     success = False
+    n, f_norm, x_norm = -1, np.nan, np.nan
 
     # NEWTON-RHAPSON ITERATIONS
     for n in range(nfev):
-- 
2.43.0


From c79c31dc4b48fd532b0c7e0bc21f0e1d5d582636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 31/35] fix: a bar with an unknown material type silently used
 the material law of the bar before it

---
 src/trusspy/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 669110f..175f08b 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -543,6 +543,8 @@ Dutzler Andreas, Graz University of Technology, 2023
                 umat = umat_el
             elif mat_type == 2:
                 umat = umat_elplast_iso
+            else:
+                raise ValueError(f"Unknown material type of element {e}.")
 
             self.Analysis, state_v = truss(
                 e,
-- 
2.43.0


From ab238cdff690feee69645933724ec43e105993b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 32/35] fix: two bars with the same label were solved as two
 copies of the first one

---
 src/trusspy/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 175f08b..3ce3c07 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -149,6 +149,9 @@ Dutzler Andreas, Graz University of Technology, 2023
         ):
             raise IOError("Node sorting failed.")
 
+        if len(np.unique(self.Elements.labels)) != self.nelems:
+            raise IOError("Element labels are not unique.")
+
         # init state variables for plasticity
         if 2 in self.Elements.mat_type:
             self.Settings.nstatev = 2
-- 
2.43.0


From d0bd50e00790954047da083f1c5c2e1a548b7742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 33/35] fix: a refused entry of a table left a part of it
 behind

---
 src/trusspy/handlers/handler_boundary.py |  2 +-
 src/trusspy/handlers/handler_element.py  | 13 ++++++++-----
 src/trusspy/handlers/handler_extforce.py |  2 +-
 src/trusspy/handlers/handler_node.py     |  2 +-
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/trusspy/handlers/handler_boundary.py b/src/trusspy/handlers/handler_boundary.py
index f5c533b..93899bf 100644
--- a/src/trusspy/handlers/handler_boundary.py
+++ b/src/trusspy/handlers/handler_boundary.py
@@ -48,8 +48,8 @@ class BoundaryHandler:
             self.Unodes = np.array([B.node])
             self.Uvalues = np.array([B.values])
         else:
-            self.Unodes = np.append(self.Unodes, B.node)
             self.Uvalues = np.vstack((self.Uvalues, B.values))
+            self.Unodes = np.append(self.Unodes, B.node)
 
     def del_bound_U(self, label):
         """delete boundary U by label"""
diff --git a/src/trusspy/handlers/handler_element.py b/src/trusspy/handlers/handler_element.py
index 4260f52..84b4896 100644
--- a/src/trusspy/handlers/handler_element.py
+++ b/src/trusspy/handlers/handler_element.py
@@ -90,16 +90,19 @@ class ElementHandler:
                 [E.geometric_properties], dtype=float
             )
         else:
-            self.labels = np.append(self.labels, E.label)
-            self.conns = np.vstack((self.conns, E.conn))
-            self.elem_type = np.append(self.elem_type, E.elem_type)
-            self.mat_type = np.append(self.mat_type, E.mat_type)
-            self.material_properties = self._append(
+            # (a wrong entry raises before the table is changed)
+            conns = np.vstack((self.conns, E.conn))
+            material_properties = self._append(
                 self.material_properties, E.material_properties
             )
             self.geometric_properties = self._append(
                 self.geometric_properties, E.geometric_properties
             )
+            self.material_properties = material_properties
+            self.conns = conns
+            self.labels = np.append(self.labels, E.label)
+            self.elem_type = np.append(self.elem_type, E.elem_type)
+            self.mat_type = np.append(self.mat_type, E.mat_type)
 
     def _append(self, table, row):
         "append a row to the table, fill up the shorter one with zeros"
diff --git a/src/trusspy/handlers/handler_extforce.py b/src/trusspy/handlers/handler_extforce.py
index ff85a3f..196567d 100644
--- a/src/trusspy/handlers/handler_extforce.py
+++ b/src/trusspy/handlers/handler_extforce.py
@@ -36,8 +36,8 @@ class ExternalForceHandler:
             self.nodes = np.array([F.node])
             self.forces = np.array([F.force])
         else:
-            self.nodes = np.append(self.nodes, F.node)
             self.forces = np.vstack((self.forces, F.force))
+            self.nodes = np.append(self.nodes, F.node)
 
     def del_force(self, label):
         self._drop_unloaded()
diff --git a/src/trusspy/handlers/handler_node.py b/src/trusspy/handlers/handler_node.py
index cda9b81..fe60819 100644
--- a/src/trusspy/handlers/handler_node.py
+++ b/src/trusspy/handlers/handler_node.py
@@ -32,8 +32,8 @@ class NodeHandler:
             self.labels = np.array([N.label])
             self.coords = np.array([N.coord])
         else:
-            self.labels = np.append(self.labels, N.label)
             self.coords = np.vstack((self.coords, N.coord))
+            self.labels = np.append(self.labels, N.label)
 
     def del_node(self, label):
         idx = np.where(self.labels == label)[0]
-- 
2.43.0


From 02c01e0f0420d32cef059ffc89a90d558e9788ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 34/35] fix: two nodes with the same label were accepted if all
 tables had two entries for it

---
 src/trusspy/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 3ce3c07..9d89be4 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -149,6 +149,9 @@ Dutzler Andreas, Graz University of Technology, 2023
         ):
             raise IOError("Node sorting failed.")
 
+        if len(np.unique(self.Nodes.labels)) != self.nnodes:
+            raise IOError("Node labels are not unique.")
+
         if len(np.unique(self.Elements.labels)) != self.nelems:
             raise IOError("Element labels are not unique.")
 
-- 
2.43.0


From ebb4db15ca643110c5ae4ac0aa5e1d58cde884c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 35/35] fix: supports with two values per node were applied to
 the wrong directions

---
 src/trusspy/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trusspy/model.py b/src/trusspy/model.py
index 9d89be4..c2ad9f0 100644
--- a/src/trusspy/model.py
+++ b/src/trusspy/model.py
@@ -149,6 +149,9 @@ Dutzler Andreas, Graz University of Technology, 2023
         ):
             raise IOError("Node sorting failed.")
 
+        if self.Boundaries.Uvalues.shape != (self.nnodes, self.ndim):
+            raise IOError("A boundary must have one value per direction.")
+
         if len(np.unique(self.Nodes.labels)) != self.nnodes:
             raise IOError("Node labels are not unique.")
 
-- 
2.43.0

