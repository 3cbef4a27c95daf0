From 8b18a973a51d6e5cc411897fb0c93c6690141de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 01/18] fix: weak-layer shear strain has the sign of the shear
 stress (tau = kt*t*gamma)

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b83f9dc..6ea5b7e 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -267,7 +267,7 @@ class FieldQuantitiesMixin:
         float
             Weak-layer shear strain gamma.
         """
-        return self.dw_dx(Z) / 2 - self.u(Z, z0=self.h / 2) / self.t
+        return self.u(Z, z0=self.h / 2) / self.t - self.dw_dx(Z) / 2
 
     def Gi(self, Ztip, unit="kJ/m^2"):
         """
-- 
2.43.0


From 2052d60703eb3d7a9f483c9135d0ae307f012e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 02/18] fix: coupling term of surface load in particular
 solution of free segments

---
 weac/eigensystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/eigensystem.py b/weac/eigensystem.py
index e94a682..208d21a 100644
--- a/weac/eigensystem.py
+++ b/weac/eigensystem.py
@@ -579,7 +579,7 @@ class Eigensystem:
                 [-A11*(qn + pn)*x**4/(24*K0)],
                 [-A11*(qn + pn)*x**3/(6*K0)],
                 [A11*(qn + pn)*x**3/(6*K0)
-                 + ((zs - B11/A11)*qt - h*pt/2 - (qn + pn)*x)/kA55],
+                 + (zs*qt - B11/A11*(qt + pt) - h*pt/2 - (qn + pn)*x)/kA55],
                 [(qn + pn)*(A11*x**2/(2*K0) - 1/kA55)]])
 
         return zp
-- 
2.43.0


From 9119e94264cf6bd8652f37ff4528ee930963d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 03/18] fix: horizontal centroid of the wedge cut off by a
 vertical face

---
 weac/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/tools.py b/weac/tools.py
index 1092959..7ef33f4 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -158,7 +158,7 @@ def calc_vertical_bc_center_of_gravity(slab, phi):
         # Center of gravity in vertical direction
         zs = sum(zsi * rho * Ai) / sum(rho * Ai)
         # Center of gravity in horizontal direction
-        xs = (H / 2 - zs) * np.tan(phi / 2)
+        xs = (H / 2 - zs) * np.tan(phi) / 2
         # Weight of added or cut off slab segments (t)
         w = sum(Ai * rho)
 
-- 
2.43.0


From e99ea2ff41906ef91daffb10f0aa7c21121f2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 04/18] fix: compute collapse height with the current
 inclination

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 6ea5b7e..b58faff 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -776,8 +776,8 @@ class SlabContactMixin:
         """Set class attributes for touchdown consideration"""
         self.set_columnlength(L)
         self.set_cracklength(a)
-        self.set_tc(cf)
         self.set_phi(phi)
+        self.set_tc(cf)
         self.set_stiffness_ratio(ratio)
 
     def calc_touchdown_mode(self):
-- 
2.43.0


From 9b759056c76a37b2634d35d9f49c722cc9961036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 05/18] fix: translational substitute spring excludes the
 settlement under slab weight

---
 weac/mixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b58faff..4095b94 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -622,7 +622,8 @@ class SlabContactMixin:
         if dof in ["rot"]:
             k = abs(1 / self.psi(z_pst)[0])
         if dof in ["trans"]:
-            k = abs(1 / self.w(z_pst)[0])
+            # subtract settlement under own weight and surface load
+            k = abs(1 / (self.w(z_pst)[0] - self.zp(x=0, phi=0)[2, 0]))
 
         # Reset to previous system and eigensystem
         self.system = tempsys
-- 
2.43.0


From 984088ba163095cb1459b75cd7df44a3908d1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 06/18] fix: inverse model provides the segment and touchdown
 methods it needs

---
 weac/inverse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 3542c3c..40ccd5f 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -3,14 +3,15 @@
 
 # Project imports
 from weac.mixins import FieldQuantitiesMixin
+from weac.mixins import SlabContactMixin
 from weac.mixins import SolutionMixin
 from weac.mixins import AnalysisMixin
 from weac.mixins import OutputMixin
 from weac.eigensystem import Eigensystem
 
 
-class Inverse(FieldQuantitiesMixin, SolutionMixin, AnalysisMixin,
-              OutputMixin, Eigensystem):
+class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
+              AnalysisMixin, OutputMixin, Eigensystem):
     """
     Fit the elastic properties of the layers of a snowpack.
 
-- 
2.43.0


From 068ff2d404a1a16b0a889145b153a1060279940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 07/18] fix: inverse model without layers uses the default slab

---
 weac/inverse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weac/inverse.py b/weac/inverse.py
index 40ccd5f..b18db71 100644
--- a/weac/inverse.py
+++ b/weac/inverse.py
@@ -50,6 +50,8 @@ class Inverse(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         C0, C1, Eweak = parameters
 
         # Set material properties and set up model
-        self.set_beam_properties(layers=layers, C0=C0, C1=C1)
+        self.set_beam_properties(
+            layers=layers if layers is not None else [[240, 200], ],
+            C0=C0, C1=C1)
         self.set_foundation_properties(E=Eweak)
         self.calc_fundamental_system()
-- 
2.43.0


From fa106fc04b5f268fd921cdd5251c3ee98635ba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 08/18] fix: accept layerings given as arrays

---
 weac/layered.py | 2 +-
 weac/tools.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/layered.py b/weac/layered.py
index 9f4076f..79c69a2 100755
--- a/weac/layered.py
+++ b/weac/layered.py
@@ -44,6 +44,6 @@ class Layered(FieldQuantitiesMixin, SlabContactMixin, SolutionMixin,
         super().__init__(system=system, touchdown=touchdown)
 
         # Set material properties and set up model
-        self.set_beam_properties(layers if layers else [[240, 200], ])
+        self.set_beam_properties(layers if layers is not None else [[240, 200], ])
         self.set_foundation_properties()
         self.calc_fundamental_system()
diff --git a/weac/tools.py b/weac/tools.py
index 7ef33f4..0eb6880 100644
--- a/weac/tools.py
+++ b/weac/tools.py
@@ -301,7 +301,7 @@ def touchdown_distance(
     # Check if layering is defined
     layers = (
         layers
-        if layers
+        if layers is not None
         else [
             [240, 200],
         ]
-- 
2.43.0


From c963fe601632461c07f7bf3b350fe5902d37fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 09/18] fix: single-segment systems do not modify the caller's
 segment lists

---
 weac/mixins.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 4095b94..9e01889 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1146,14 +1146,13 @@ class SolutionMixin:
 
         # Determine size of linear system of equations
         nS = len(li)  # Number of beam segments
+        nC = nS  # Number of segments to return constants for
 
         nDOF = 6  # Number of free constants per segment
 
         # Add dummy segment if only one segment provided
         if nS == 1:
-            li.append(0)
-            ki.append(True)
-            mi.append(0)
+            li, ki, mi = [*li, 0], [*ki, True], [*mi, 0]
             nS = 2
 
         # Assemble position vector
@@ -1247,7 +1246,7 @@ class SolutionMixin:
         # Solve z0 = zh0*C + zp0 = rhs for constants, i.e. zh0*C = rhs - zp0
         C = np.linalg.solve(zh0, rhs - zp0)
         # Sort (nDOF = 6) constants for each segment into columns of a matrix
-        return C.reshape([-1, nDOF]).T
+        return C.reshape([-1, nDOF]).T[:, :nC]
 
 
 class AnalysisMixin:
-- 
2.43.0


From 3a9806f25033b4d5dd00a221875d7da1442c5d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 10/18] fix: touchdown conditions apply to slope-normal PSTs
 only

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 9e01889..f3298f3 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1214,7 +1214,7 @@ class SolutionMixin:
             rhs[-3:] = np.vstack([N, M, V])  # right end
 
         # Loop through segments to set touchdown conditions at rhs
-        for i in range(nS):
+        for i in range(nS) if self.system in ["pst-", "-pst"] else []:
             # Length, foundation and position of segment i
             l, k, pos = li[i], ki[i], pi[i]
             # Set displacement BC in stage B
-- 
2.43.0


From 7b5a99dd9d97cb68fc3c887f4b64ac55289bea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 11/18] fix: stage C length of cracks just longer than the
 stage B-C transition

---
 weac/mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index f3298f3..45943a3 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -738,7 +738,8 @@ class SlabContactMixin:
             kRl = self.substitute_stiffness(L - a, "supported", "rot")
             kNl = self.substitute_stiffness(L - a, "supported", "trans")
             # Spring stiffness rested segment
-            kRr = self.substitute_stiffness(a - x, "rested", "rot")
+            # (vanishes with the length of the rested segment)
+            kRr = self.substitute_stiffness(a - x, "rested", "rot") if x < a else 0
             # define constants
             c1 = ss**2 * kRl * kNl * qn
             c2 = 6 * ss * kNl * qn * (bs * ss + kRl * kRr)
@@ -769,7 +770,7 @@ class SlabContactMixin:
             )
 
         # Find root
-        lC = brentq(polynomial, a / 1000, 999 / 1000 * a)
+        lC = brentq(polynomial, a / 1000, a)
 
         return lC
 
-- 
2.43.0


From 1f45106c284ab278ac60ab203b49ade13f9e6696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 12/18] fix: energy of the substitute rotational spring is half
 moment times rotation

---
 weac/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 45943a3..92cb4a8 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1884,9 +1884,9 @@ class OutputMixin:
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-            Pi_int += 1 / 2 * M[-1] * (self.psi(zq)[-1]) ** 2
+            Pi_int += 1 / 2 * abs(M[-1] * self.psi(zq)[-1])
         elif self.system in ["-pst"]:
-            Pi_int += 1 / 2 * M[0] * (self.psi(zq)[0]) ** 2
+            Pi_int += 1 / 2 * abs(M[0] * self.psi(zq)[0])
         else:
             print("Input error: Only pst-setup implemented at the moment.")
 
-- 
2.43.0


From 4103d96f18098a46fb6ecb7be0fa1cdbab52b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 13/18] fix: weak-layer spring energy is stored in the
 supported part of the column only

---
 weac/mixins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index 92cb4a8..daeb66d 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -1870,6 +1870,8 @@ class OutputMixin:
         # Compute stored energy of the slab (monte-carlo integration)
         n = len(xq)
         nweak = len(xweak)
+        # supported length
+        Lweak = np.sum(np.asarray(segments["li"])[np.asarray(segments["ki"])])
         # energy share from moment, shear force, wl normal and tangential springs
         Pi_int = (
             L / 2 / n / self.A11 * np.sum([Ni**2 for Ni in N])
@@ -1879,8 +1881,8 @@ class OutputMixin:
             / (self.D11 - self.B11**2 / self.A11)
             * np.sum([Mi**2 for Mi in M])
             + L / 2 / n / self.kA55 * np.sum([Vi**2 for Vi in V])
-            + L * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
-            + L * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
+            + Lweak * self.kn / 2 / nweak * np.sum([wi**2 for wi in wweak])
+            + Lweak * self.kt / 2 / nweak * np.sum([ui**2 for ui in uweak])
         )
         # energy share from substitute rotation spring
         if self.system in ["pst-"]:
-- 
2.43.0


From 3fd9bba58abaf112873dd04f87992206da04b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 14/18] fix: transition lengths shorter than 0.1 % of the
 column length are found

---
 weac/mixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index daeb66d..b5a904c 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -664,7 +664,7 @@ class SlabContactMixin:
             return c1 * x**4 + c2 * x**3 + c3 * x**2 + c4 * x + c5
 
         # Find root
-        a1 = brentq(polynomial, L / 1000, 999 / 1000 * L)
+        a1 = brentq(polynomial, 0, 999 / 1000 * L)
 
         return a1
 
@@ -701,7 +701,7 @@ class SlabContactMixin:
             )
 
         # Find root
-        a2 = brentq(polynomial, L / 1000, 999 / 1000 * L)
+        a2 = brentq(polynomial, 0, 999 / 1000 * L)
 
         return a2
 
-- 
2.43.0


From 5de7321d3c8cc6e15b80a177aca1562ccaff5ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 15/18] fix: plot_data without segments (fea_disp, fea_stress)
 no longer iterates over False

---
 weac/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/plot.py b/weac/plot.py
index 7c753d3..e7e9e3f 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -406,7 +406,7 @@ def plot_data(
         name, ax1data, ax1label,
         ax2data=None, ax2label=None,
         labelpos=None, vlines=True,
-        li=False, mi=False, ki=False,
+        li=(), mi=(), ki=(),
         xlabel=r'Horizontal position $x$ (cm)'):
     """Plot data. Base function."""
     # Figure setup
-- 
2.43.0


From 3c0fec7849aa7fb47bd881053cbc1460afe9b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 16/18] fix: calc_a1/calc_a2 bracket transitions close to the
 column end instead of raising

---
 weac/mixins.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index b5a904c..fbe01b4 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -663,8 +663,13 @@ class SlabContactMixin:
             c5 = -tc / qn
             return c1 * x**4 + c2 * x**3 + c3 * x**2 + c4 * x + c5
 
+        # Move upper bracket towards the column end until it encloses the root
+        xmax = 999 / 1000 * L
+        while polynomial(xmax) < 0:
+            xmax = (xmax + L) / 2
+
         # Find root
-        a1 = brentq(polynomial, 0, 999 / 1000 * L)
+        a1 = brentq(polynomial, 0, xmax)
 
         return a1
 
@@ -700,8 +705,13 @@ class SlabContactMixin:
                 c1 * x**6 + c2 * x**5 + c3 * x**4 + c4 * x**3 + c5 * x**2 + c6 * x + c7
             )
 
+        # Move upper bracket towards the column end until it encloses the root
+        xmax = 999 / 1000 * L
+        while polynomial(xmax) < 0:
+            xmax = (xmax + L) / 2
+
         # Find root
-        a2 = brentq(polynomial, 0, 999 / 1000 * L)
+        a2 = brentq(polynomial, 0, xmax)
 
         return a2
 
-- 
2.43.0


From 71428579ac310592fddf0a6d08fb460af6a9e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 17/18] fix: touchdown lengths shorter than 0.1 % of the crack
 length are found

---
 weac/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weac/mixins.py b/weac/mixins.py
index fbe01b4..e4fc566 100644
--- a/weac/mixins.py
+++ b/weac/mixins.py
@@ -780,7 +780,7 @@ class SlabContactMixin:
             )
 
         # Find root
-        lC = brentq(polynomial, a / 1000, a)
+        lC = brentq(polynomial, 0, a)
 
         return lC
 
-- 
2.43.0


From dbebcd91635b54b3100c0a2cd9225025878e0d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:01 +0000
Subject: [PATCH 18/18] fix: wrap curve label positions so that plots of few
 points do not raise IndexError

---
 weac/plot.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/weac/plot.py b/weac/plot.py
index e7e9e3f..c9bd9cb 100644
--- a/weac/plot.py
+++ b/weac/plot.py
@@ -459,10 +459,12 @@ def plot_data(
             line, = ax1.plot(x, y, ':', linewidth=1)  # , color='black'
             thislabelpos = -2
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
-            xtx = (x[thislabelpos - 1] + x[thislabelpos])/2
-            ytx = (y[thislabelpos - 1] + y[thislabelpos])/2
-            ax1.text(xtx, ytx, label, color=line.get_color(),
-                     **labelstyle)
+            if len(x) > 0:
+                j, k = (thislabelpos - 1) % len(x), thislabelpos % len(x)
+                xtx = (x[j] + x[k])/2
+                ytx = (y[j] + y[k])/2
+                ax1.text(xtx, ytx, label, color=line.get_color(),
+                         **labelstyle)
         else:
             # Plot line
             ax1.plot(x, y, linewidth=3, color='white')
@@ -470,8 +472,11 @@ def plot_data(
             # Line label
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
             if len(x) > 0:
-                xtx = (x[labelpos - 10*i - 1] + x[labelpos - 10*i])/2
-                ytx = (y[labelpos - 10*i - 1] + y[labelpos - 10*i])/2
+                # Wrap label positions of curves with few points
+                k = (labelpos - 10*i) % len(x)
+                j = (labelpos - 10*i - 1) % len(x)
+                xtx = (x[j] + x[k])/2
+                ytx = (y[j] + y[k])/2
                 ax1.text(xtx, ytx, label, color=line.get_color(),
                          **labelstyle)
 
@@ -488,10 +493,12 @@ def plot_data(
             line, = ax2.plot(x, y, linewidth=1, color=colors[8, 0])
             # Line label
             x, y = x[~np.isnan(x)], y[~np.isnan(x)]
-            xtx = (x[labelpos - 1] + x[labelpos])/2
-            ytx = (y[labelpos - 1] + y[labelpos])/2
-            ax2.text(xtx, ytx, label, color=line.get_color(),
-                     **labelstyle)
+            if len(x) > 0:
+                j, k = (labelpos - 1) % len(x), labelpos % len(x)
+                xtx = (x[j] + x[k])/2
+                ytx = (y[j] + y[k])/2
+                ax2.text(xtx, ytx, label, color=line.get_color(),
+                         **labelstyle)
 
     # Save figure
     save_plot(name)
-- 
2.43.0

