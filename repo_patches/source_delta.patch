From 8e1cd20134c3208dac9dbaf56f46d6e41bdc7f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 01/47] fix: Propulsion imports the existing IterativeSolve
 module

---
 aerokit/aero/Propulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index daf863b..ec807e0 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -3,7 +3,7 @@
 """
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.IterativeSolve as ITS
+import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
-- 
2.43.0


From 61c4d686b33a1ef46b03275ba5beac20568fc772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 02/47] fix: extendvar imports dicovar through the package

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 853aeef..a1ca824 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -13,7 +13,7 @@ Examples
 Notes
 -----
 """
-from dicovar import dicoVar as dico
+from aerokit.common.dicovar import dicoVar as dico
 
 # -----------------------------------------------------------------
 
-- 
2.43.0


From aecd23b9d58ee45a85273b9d10c9263d1bcf9229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 03/47] fix: total pressure ratio across a shock uses the given
 gamma downstream

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 98d1718..b88e2d8 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -90,7 +90,7 @@ def Pt_ratio(Mn, gamma=defg._gamma):
     Returns:
 
     """
-    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma)) / Is.PtPs_Mach(Mn, gamma)
+    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma), gamma) / Is.PtPs_Mach(Mn, gamma)
 
 
 def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
-- 
2.43.0


From 6f1bbc5b0d54f111ff3a2cf904ff3a31b08fc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 04/47] fix: inversion of the area ratio converges on the
 requested branch for any gamma

---
 aerokit/aero/MassFlow.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ee3ce2b..238d485 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -5,18 +5,21 @@
 import numpy as np
 
 # from . import IterativeSolve
-from scipy.optimize import fsolve, newton
 from ..common import defaultgas as defg
 
 # internal initialization (estimated) Mach for Sigma->Mach computations
 def __MachSub_sigma(sigma, gamma):
     return 1.0 - np.sqrt(
-        (1.0 - 1.0 / sigma) * (4.0 * (gamma - 1.0) / (3.0 - gamma))
+        (1.0 - 1.0 / sigma) * np.minimum(1.0, 4.0 * (gamma - 1.0) / (3.0 - gamma))
     )  # (2./(gamma+1.))**(.5*(gamma+1.)/(gamma-1.))/sigma
 
 
 def __MachSup_sigma(sigma, gamma):
-    return 1.0 + np.sqrt((sigma - 1.0) * (4.0 * (gamma - 1.0) / (3.0 - gamma)))
+    cg = (gamma + 1.0) / (gamma - 1.0)
+    return np.minimum(
+        1.0 + np.sqrt((sigma - 1.0) * (4.0 * (gamma - 1.0) / (3.0 - gamma))),
+        (sigma * cg ** (0.5 * cg)) ** (1.0 / (cg - 1.0)),  # hypersonic upper bound
+    )
 
 
 # -- Compressible flow functions  --
@@ -37,16 +40,20 @@ def Sigma_Mach(Mach, gamma=defg._gamma):
 
 
 def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
-    if np.size(Mach) != 1:
-        Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
-    else:
-        Minit = Mach
-
-    def sigma_of_mach(m):
-        return Sigma_Mach(m, gamma) - sigma
-
-    result = newton(sigma_of_mach, Minit)
-    return result  # if np.size(result)!=1 else np.asscalar(result)
+    # "Mach" only selects the branch
+    Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
+
+    # Newton on log(Sigma) as a function of log(Mach): convex, does not leave the initial branch
+    logM = np.log(Minit)
+    for _ in range(60):
+        m2 = np.exp(2.0 * logM)
+        slope = (m2 - 1.0) / (1.0 + 0.5 * (gamma - 1.0) * m2)
+        delta = np.log(Sigma_Mach(np.exp(logM), gamma) / sigma)
+        step = np.where(slope == 0.0, 0.0, delta / np.where(slope == 0.0, 1.0, slope))
+        logM = logM - step
+        if np.all(np.abs(step) <= 1.0e-14):
+            break
+    return np.exp(logM)
 
 
 def MachSub_Sigma(sigma, gamma=defg._gamma):
-- 
2.43.0


From 95e3ed0fc8601b432ca35990f5dc09cf620c4e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 05/47] fix: inverse of Prandtl-Meyer function converges down
 to the sonic point for any gamma

---
 aerokit/aero/Supersonic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 0bca4e2..544bbba 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -61,11 +61,14 @@ def old_Mach_PrandtlMeyer(omega, gamma=defg._gamma):
 
 
 def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
-    def omega_of_mach(m):
-        return PrandtlMeyer_Mach(m, gamma) - omega
+    # cubic root of omega is smooth, increasing and concave with beta = sqrt(M**2-1)
+    def omega_of_beta(beta):
+        return np.cbrt(PrandtlMeyer_Mach(np.sqrt(1.0 + beta ** 2), gamma)) - np.cbrt(omega)
 
     # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
-    result = newton(omega_of_mach, 2.0 + 0.0 * omega)
+    # initial guess from the behaviour at sonic point, always lower than solution
+    beta = newton(omega_of_beta, np.cbrt(1.5 * (gamma + 1.0) * np.radians(omega)))
+    result = np.sqrt(1.0 + beta ** 2)
     return result if np.size(result) != 1 else result.item()
 
 
-- 
2.43.0


From 7292eb6b79d7490b63e590cf609cbb8034a090ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 06/47] fix: strong shock angle at zero deflection is 90
 degrees

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index b88e2d8..41843b2 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -219,7 +219,7 @@ def strongsigma_Mach_deflection(Mach, deflection, gamma=defg._gamma):
     else:
         phi = np.arccos(-0.5 * ke / np.sqrt(kd ** 3)) + 4 * math.pi
         kf = 2.0 * np.sqrt(kd) * np.cos(phi / 3.0) - ka / 3.0
-        return degree.atan(1.0 / kf)
+        return degree.atan2(1.0, kf)
 
 
 def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
-- 
2.43.0


From fb17282b3b2f3a9d21bdcce691dbc5cefca3194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 07/47] fix: iterative shock angle for zero and negative
 deflections

---
 aerokit/aero/ShockWave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 41843b2..5b3ac37 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -235,7 +235,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
 
     """
     if init is None:
-        sig0 = degree.asin(1.0 / Mach) + deflection
+        sig0 = degree.asin(1.0 / Mach) + np.abs(deflection)
     else:
         sig0 = init
 
@@ -250,7 +250,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
         """
         return deflection_Mach_sigma(Mach, sig, gamma)
 
-    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.sign(deflection)
+    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.where(deflection < 0, -1.0, 1.0)
 
 
 def dev_Max(Mach, gamma=defg._gamma):
-- 
2.43.0


From e3f1b1f6593128159f02ccf3c0f46e1758d1e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 08/47] fix: inverse of total pressure ratio converges close to
 sonic and for strong shocks

---
 aerokit/aero/ShockWave.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 5b3ac37..58e0c6e 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -113,12 +113,13 @@ def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
         Returns:
 
         """
-        return Pt_ratio(m, gamma)
+        # total pressure loss is of third order at sonic point
+        return np.cbrt(-np.log(Pt_ratio(m, gamma)))
 
     if ptratio > 1:
         print("!!! cannot find Mn for Pt_ratio > 1")
         return 1
-    return ITS.secant_solve(ptratio_of_mach, ptratio, 1.5)
+    return ITS.secant_solve(ptratio_of_mach, np.cbrt(-np.log(ptratio)), 1.5)
 
 
 # --- LOCAL 2D SHOCK WAVE ---
-- 
2.43.0


From effaf85bf8b8f898696a4d81a3eb49296f768234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 09/47] fix: inverse of the thrust function on both branches
 for any Mach number

---
 aerokit/aero/Propulsion.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index ec807e0..9cbaf05 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -1,9 +1,9 @@
 """@package Propulsion
   thrust flow function
 """
+import numpy as np
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
@@ -11,7 +11,7 @@ def ThrustFunction(Mach, gamma=1.4):
 
 
 def Mach_ThrustFunction(thrust, Mach=2.0, gamma=1.4):
-    def thrust_of_mach(m):
-        return ThrustFunction(m, gamma)
-
-    return ITS.secant_solve(thrust_of_mach, thrust, Mach)
+    # (1+gamma*M**2)**2 = q*M**2*(1+(gamma-1)/2*M**2), "Mach" only selects the branch
+    q = (thrust / ThrustFunction(1.0, gamma)) ** 2 * 2.0 * (gamma + 1.0)
+    root = np.sqrt(q * (q - 2.0 * (gamma + 1.0)))
+    return np.sqrt(2.0 / (q - 2.0 * gamma + np.where(Mach <= 1.0, 1.0, -1.0) * root))
-- 
2.43.0


From 9a077caff7b58932bef8f5de1505639b238952d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 10/47] fix: secant solver iterates from a small initial guess
 and stops on an exact solution

---
 aerokit/aero/IterativeSolve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/IterativeSolve.py b/aerokit/aero/IterativeSolve.py
index e72433c..deeecd9 100644
--- a/aerokit/aero/IterativeSolve.py
+++ b/aerokit/aero/IterativeSolve.py
@@ -11,10 +11,12 @@ def secant_solve(f, y, x, tol=0.00001):
     it    = 1
     old_x = x
     old_y = f(old_x)
-    new_x = x*0.999 
+    new_x = x*0.999 if abs(x*0.001) > tol else x-10*tol
     #while (it < itmax) and np.any(abs(new_x-old_x) > np.maximum(tol,tol*abs(new_x))):
     while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):
         new_y = f(new_x)
+        if new_y == y:
+            break
         next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y)
         old_x = new_x
         old_y = new_y
-- 
2.43.0


From 5fb0c133fe787d421e3c07fe39d53373ad4790df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 11/47] fix: nozzle uses its own gamma in regime limits and
 flow fields

---
 aerokit/instance/nozzle.py | 74 ++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 34 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index f6a72be..5adfbf7 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -23,7 +23,7 @@ from aerokit.aero import ShockWave as sw
 # === NPR computation from As/Ac definition of nozzle ===
 
 
-def NPR_choked_subsonic(AsAc):
+def NPR_choked_subsonic(AsAc, gamma=defg._gamma):
     """Compute Nozzle Pressure Ratio to get a choked but subsonic regime in a nozzle with As/Ac diffuser
 
     Args:
@@ -31,10 +31,10 @@ def NPR_choked_subsonic(AsAc):
     Returns:
             [real]: Nozzle Pressure ratio (inlet total pressure over exit static pressure)
     """
-    return Is.PtPs_Mach(mf.MachSub_Sigma(AsAc))
+    return Is.PtPs_Mach(mf.MachSub_Sigma(AsAc, gamma), gamma)
 
 
-def NPR_choked_supersonic(AsAc):
+def NPR_choked_supersonic(AsAc, gamma=defg._gamma):
     """Compute Nozzle Pressure Ratio to get a choked supersonic regime in a nozzle with As/Ac diffuser
 
     Args:
@@ -42,10 +42,10 @@ def NPR_choked_supersonic(AsAc):
     Returns:
             [real]: Nozzle Pressure ratio (inlet total pressure over exit static pressure)
     """
-    return Is.PtPs_Mach(mf.MachSup_Sigma(AsAc))
+    return Is.PtPs_Mach(mf.MachSup_Sigma(AsAc, gamma), gamma)
 
 
-def NPR_shock_at_exit(AsAc):
+def NPR_shock_at_exit(AsAc, gamma=defg._gamma):
     """Compute Nozzle Pressure Ratio to get a choked, supersonic regime but shock at exit in a nozzle with As/Ac diffuser
 
     Args:
@@ -53,12 +53,12 @@ def NPR_shock_at_exit(AsAc):
     Returns:
             [real]: Nozzle Pressure ratio (inlet total pressure over exit static pressure)
     """
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    return Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
 
 
-def _NPR_Ms_list(AsAc):
+def _NPR_Ms_list(AsAc, gamma=defg._gamma):
     """
     Computes all NPR limits and associated exit Mach number
 
@@ -75,16 +75,16 @@ def _NPR_Ms_list(AsAc):
             .. seealso:: NPR_choked_subsonic(), NPR_choked_supersonic(), NPR_shock_at_exit()
             .. note:: available for scalar or array (numpy) computations
     """
-    Msub = mf.MachSub_Sigma(AsAc)
-    NPR0 = Is.PtPs_Mach(Msub)
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    NPRsw = Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
-    NPR1 = Is.PtPs_Mach(Msup)
+    Msub = mf.MachSub_Sigma(AsAc, gamma)
+    NPR0 = Is.PtPs_Mach(Msub, gamma)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    NPRsw = Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
+    NPR1 = Is.PtPs_Mach(Msup, gamma)
     return NPR0, NPRsw, NPR1, Msub, Msh, Msup
 
 
-def Ms_from_AsAc_NPR(AsAc, NPR):
+def Ms_from_AsAc_NPR(AsAc, NPR, gamma=None):
     """
     Computes Mach number at exit of a nozzle given As/Ac and NPR
 
@@ -102,19 +102,21 @@ def Ms_from_AsAc_NPR(AsAc, NPR):
             .. seealso::
             .. note:: NOT available for array (numpy) computations
     """
-    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc)
+    gas = () if gamma is None else (gamma,)
+    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc, *gas)
     if NPR < NPR0:
-        Ms = Is.Mach_PtPs(NPR)
+        Ms = Is.Mach_PtPs(NPR, *gas)
     elif NPR > NPRsw:
         Ms = Msup
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
+        gam = defg._gamma if gamma is None else gamma
+        gmu = gam - 1.0
+        K = NPR / AsAc / ((gam + 1.0) / 2) ** ((gam + 1.0) / 2 / gmu)
         Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
     return Ms
 
 
-def Madapt_from_AsAc_NPR(AsAc, NPR):
+def Madapt_from_AsAc_NPR(AsAc, NPR, gamma=None):
     """
     Computes Mach number for pressure adapted flow of a nozzle given As/Ac and NPR
 
@@ -133,16 +135,18 @@ def Madapt_from_AsAc_NPR(AsAc, NPR):
             .. seealso::
             .. note:: NOT available for array (numpy) computations
     """
-    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc)
+    gas = () if gamma is None else (gamma,)
+    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc, *gas)
     if NPR < NPR0:
-        Ms = Is.Mach_PtPs(NPR)
+        Ms = Is.Mach_PtPs(NPR, *gas)
     elif NPR > NPR1:  # under expanded flow
-        Ms = Is.Mach_PtPs(NPR)
+        Ms = Is.Mach_PtPs(NPR, *gas)
     elif NPR > NPRsw:  # shock wave in jet
-        Ms = sw.downstreamMach_Mach_ShockPsratio(Msup, NPR1 / NPR)
+        Ms = sw.downstreamMach_Mach_ShockPsratio(Msup, NPR1 / NPR, *gas)
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
+        gam = defg._gamma if gamma is None else gamma
+        gmu = gam - 1.0
+        K = NPR / AsAc / ((gam + 1.0) / 2) ** ((gam + 1.0) / 2 / gmu)
         Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
     return Ms
 
@@ -170,7 +174,7 @@ class nozzle:
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
         defg.save_default()
-        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
+        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
@@ -187,7 +191,7 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms), gamma=self.gamma)
+            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, self.gamma), gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -195,14 +199,16 @@ class nozzle:
             self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
-                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR)
-                Ptloss = Is.PtPs_Mach(Ms) / NPR
-                Msh = sw.Mn_Pi_ratio(Ptloss)
+                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR, self.gamma)
+                Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
+                Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(self.AxoAc[ish:] * mf.Sigma_Mach(Ms) / self.AsoAc)
+                self._M[ish:] = mf.MachSub_Sigma(
+                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, self.gamma
+                )
                 self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M)
+            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
     def Mach(self):
         return self._M
-- 
2.43.0


From 89822c544996a28bddf8e821c588b1f941b2a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 12/47] fix: nozzle shock station stays downstream of the
 computed shock location

---
 aerokit/instance/nozzle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 5adfbf7..cd8be72 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -202,8 +202,8 @@ class nozzle:
                 Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR, self.gamma)
                 Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
                 Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
-                # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
-                ish = np.abs(self._M - Msh).argmin()
+                # redefine curves starting from 'ish' index (first supersonic station reaching Msh)
+                ish = np.count_nonzero(self._M[self.ithroat + 1 :] < Msh * (1.0 - 1.0e-6)) + self.ithroat + 1
                 self._M[ish:] = mf.MachSub_Sigma(
                     self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, self.gamma
                 )
-- 
2.43.0


From b2afb26ade7e4243546780ee48f47db1c9497121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 13/47] fix: 1D states keep their gamma and isentropic change
 uses total pressure

---
 aerokit/aero/model1D.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 0b8d964..7c3ebf3 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -50,21 +50,21 @@ class state:
 
     def state_isentropic_Mach(self, Mach):
         """return state defined by Mach number through isoenergetic isentropic transformation"""
-        ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
+        ps = self.Ptot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
-        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps)
+        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps)
+        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_u(self, pt, rtt, u):
         gam = self._gamma
         gsgmu = gam / (gam - 1.0)
         a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2
         ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu
-        self.__init__(rho=gam * ps / a2, u=u, p=ps)
+        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_p(self, pt, rtt, p):
         """Init state from Ptot r.Ttot and Ps (velocity sign is arbitrary and positive)
@@ -76,11 +76,12 @@ class state:
         """
         M = Is.Mach_PtPs(pt / p, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p)
+        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p, gamma=self._gamma)
 
     def __getitem__(self, i):
         assert isinstance(self.rho, np.ndarray)
-        return state(self.rho[i], self.u[i], self.p[i])
+        gamma = self._gamma[i] if np.ndim(self._gamma) else self._gamma
+        return state(self.rho[i], self.u[i], self.p[i], gamma)
 
     def asound(self):
         """returns speed of sound"""
-- 
2.43.0


From 6a316044cb4858fb67f0321bab14002ffff80a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 14/47] fix: Riemann star pressure from a bracketed solution

---
 aerokit/instance/riemann.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 4086611..268ae14 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -17,7 +17,7 @@
 
 import math
 import numpy as np
-from scipy.optimize import newton
+from scipy.optimize import brentq
 import aerokit.aero.unsteady1D as uq
 
 # ===============================================================
@@ -183,5 +183,13 @@ class riemann_pb:
         def du(p):
             return self._delta_uL(p) + self._delta_uR(p) + self._qR.u - self._qL.u
 
-        self._pstar = newton(du, self._pstar_estimate_expansion(), rtol=1e-10)
+        # du is an increasing function of p: expand a bracket of the solution from initial states
+        if du(0.0) >= 0.0:
+            raise ValueError("no solution: vacuum is generated between left and right states")
+        pmin, pmax = min(self._qL.p, self._qR.p), max(self._qL.p, self._qR.p)
+        while du(pmin) > 0.0:
+            pmin = 0.1 * pmin
+        while du(pmax) < 0.0:
+            pmax = 10.0 * pmax
+        self._pstar = brentq(du, pmin, pmax, xtol=1e-14 * pmin, rtol=1e-14)
         return
-- 
2.43.0


From bd5336af5fdb1dac65e7d841571a3ac81d5d48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 15/47] fix: sampled Riemann solution switches gamma at the
 contact discontinuity

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 268ae14..bcc9d5a 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -125,7 +125,7 @@ class riemann_pb:
             u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))
             p[i] = self._qR.p * ((xot[i] - u[i]) / self._qR.asound()) ** (2.0 * gam / gm1)
             rho[i] = self._qR.rho_through_isentropic(p[i])
-        return uq.unsteady_state(rho, u, p, np.where(xot < 0.0, self._qL._gamma, self._qR._gamma))
+        return uq.unsteady_state(rho, u, p, np.where(xot < self._waves[2], self._qL._gamma, self._qR._gamma))
 
     def left_fastest(self):
         return self._waves[0]
-- 
2.43.0


From bdf6757414a85f1fa6e96823f4b2d09fb1349807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 16/47] fix: inflow problem selects the entering flow with a
 bracketed solution

---
 aerokit/instance/unsteady_inflow.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 4d4f8df..255cebf 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -21,7 +21,7 @@
 
 import math
 import numpy as np
-from scipy.optimize import fsolve
+from scipy.optimize import brentq, fsolve
 import aerokit.aero.ShockWave as sw
 import aerokit.aero.unsteady1D as uq
 
@@ -94,7 +94,16 @@ class inflow_pb:
         def dpt(p):
             return self._pt0_from_pstar_rtt0(p, rtt0) - pt0
 
-        self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
+        def du(p):
+            # velocity from right wave minus (positive) velocity from inlet conditions, increases with p
+            gam = self._qR._gamma
+            h = gam / (gam - 1.0) * rtt0 * (1.0 - (p / pt0) ** ((gam - 1.0) / gam))
+            return self._qR.u + self._delta_uR(p) - np.sqrt(2.0 * h)
+
+        if du(0.0) < 0.0 <= du(pt0):
+            self._pstar = brentq(du, 0.0, pt0, xtol=1e-14 * pt0, rtol=1e-14)
+        else:
+            self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10).item()
         self._ustar = self._qR.u + self._delta_uR(self._pstar)
         # finalize qstarR state
         if self._pstar > self._qR.p:
-- 
2.43.0


From 3ffe383f1364db555a3491673d33da2f52792962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 17/47] fix: inflow problem defines the wave speeds it returns

---
 aerokit/instance/unsteady_inflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 255cebf..ebb2363 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -108,11 +108,15 @@ class inflow_pb:
         # finalize qstarR state
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
+            _wsh = (self._qR.massflow() - _rho * self._ustar) / (self._qR.rho - _rho)
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
+            _wR = [_wsh, _wsh]
         else:
             _rho = self._qR.rho_through_isentropic(self._pstar)
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
-        #
+            _wR = [self._ustar + self._qstarR.asound(), self._qR.right_acoustic()]
+        # no left wave: the contact discontinuity is the left limit
+        self._waves = 3 * [self._ustar] + _wR
         self._qstarL = self._qR.copy()
         self._qstarL.compute_from_pt_rtt_u(pt0, rtt0, self._ustar)
         return
-- 
2.43.0


From 8ecda5a8350e05d540dad80c7f166dcb2fbe7cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 18/47] fix: fuel air ratio uses the combustion efficiency

---
 aerokit/engine/gasgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index e315101..32998e2 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -57,6 +57,7 @@ class base():
         self.r_hot     = r_hot
         self.xi_cc     = xi_cc
         self.xi_inlet  = xi_inlet
+        self.eta_cc    = eta_cc
         self.etapolCHP = etapolCHP
         self.etapolTHP = etapolTHP
         self.eta_shaft = eta_shaft
@@ -80,7 +81,7 @@ class base():
         self.Pt4 = self.Pt3*self.xi_cc
         gh  = self.gam_hot
         cph = gh*self.r_hot/(gh-1.)
-        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.xi_cc*self.Pci - cph*self.Tt4)
+        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.eta_cc*self.Pci - cph*self.Tt4)
         self.Tt45 = self.Tt4 - cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))
         #print self.Tt3, self.Pt4, self.Tt45, self.Tt4, self.far
         self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))
-- 
2.43.0


From 7332abb648ac6aa845f70e69d03b063b72693e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 19/47] fix: ideal power turbine work of a gas generator

---
 aerokit/engine/gasgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index 32998e2..9b869a8 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -92,7 +92,7 @@ class base():
     def Wsp_TBP_ideal(self, P19=None):
         if P19 is None: P19=self.P0
         gogm1 = self.gam_hot/(self.gam_hot-1.)
-        return (1.+self.far)*gogm1*self.r_hot/(self.gam_hot-1.)*self.Tt45*((P19/self.Pt45)**(1./gogm1)-1.)
+        return (1.+self.far)*gogm1*self.r_hot*self.Tt45*(1.-(P19/self.Pt45)**(1./gogm1))
 
     def thermal_efficiency(self):
         return self.Wsp_TBP_ideal()/self.Wsp_cc()
-- 
2.43.0


From 764d80951abefb078a684fa75e78be118ce7790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 20/47] fix: turbofan applies its nozzle pressure loss

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 4b90a7a..766897b 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -51,7 +51,7 @@ class turbofan_adapt(tj.turbojet_opt):
                                  xi_inlet=1., xi_nozzle=1., xi_cc=1., eta_cc=1., Pci=42.8e6,
                                  etapolCHP=1., etapolTHP=1., etapolTBP=1., etapolfan=1., eta_shaft=1.):
         tj.turbojet_opt.__init__(self, OPR, Tt4, gam_cold=gam_cold, gam_hot=gam_hot, r_cold=r_cold, r_hot=r_hot,
-                                 xi_inlet=xi_inlet, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
+                                 xi_inlet=xi_inlet, xi_nozzle=xi_nozzle, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
                                  etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)
         self.bpr            = bpr
         self.etapolfan      = etapolfan
-- 
2.43.0


From e67f627b1e5434f94eedcfa9364202d8cb0e6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 21/47] fix: RKF45 reaches the end of the interval when the
 last step is rejected

---
 aerokit/common/_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 3c921d2..cb64095 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -77,6 +77,8 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
             # Stop if end of integration range is reached
             if stopper == 1:
                 break
+        else:
+            stopper = 0  # a rejected last step is no longer the last one
         # Compute next step size from Eq. (7.24)
         if e != 0.0:
             hNext = 0.9 * h * (tol / e) ** 0.2
-- 
2.43.0


From fb0d0388c0bf5be5b62e392907e8507da8a8398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 22/47] fix: fan compression uses the fan efficiency

---
 aerokit/engine/Cycle_Turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 61eb5b0..53468ee 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -178,7 +178,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
     def stage_13(self):
         if self.current_stage_corps >= 2:
             self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
-            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
+            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_f)
             self.Pt13 = self.Pt2 * self.pi_f
             self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
             self.current_stage_fan = 13
-- 
2.43.0


From a9df2ace1ca43efa421210048483a9c54969c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 23/47] fix: an unknown software does not wipe the current
 variable database

---
 aerokit/common/dicovar.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 041326e..6bd6480 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -103,10 +103,6 @@ class _DicoVar(object):
 
     def __init__(self, software):
 
-        # Internal variables definitions
-        self._dv = {}
-        self._softName = ''
-
         # Setting database
         softOK = False
         for soft in _dataBase:
-- 
2.43.0


From e37176d94b11fc26e546f6bb95a3f5f0fccbf528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 24/47] fix: variable names are found whatever their capital
 letters

---
 aerokit/common/dicovar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 6bd6480..176716c 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -133,6 +133,10 @@ class _DicoVar(object):
         """
         if var in self._dv:
             return self._dv[var]
+        # capital letters are handled if there is no exact name
+        for key in self._dv:
+            if key.lower() == var.lower():
+                return self._dv[key]
         else:
             raise ValueError('{} variable not in {} database dictionnary'.format(var, self._softName))
 
-- 
2.43.0


From e8ce1dc51b17eea462dc5e70f2cf078ec01d74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 25/47] fix: boundary condition parameters are kept when
 operators are computed

---
 aerokit/stability/Euler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index d6f5428..083e1f5 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -75,10 +75,10 @@ class Euler1D(LinOperator):
             assert self._BC_type[1]["type"] == "per"
             self.setBC_per()
         else:
-            bcdict = self._BC_type[0]
+            bcdict = dict(self._BC_type[0])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](0, 0, **bcdict)
-            bcdict = self._BC_type[1]
+            bcdict = dict(self._BC_type[1])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](n - 1, n - 1, **bcdict)
 
-- 
2.43.0


From d79829ad777824df5aea418e827458974f005f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 26/47] fix: stability operators follow a new base state or
 boundary condition

---
 aerokit/stability/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 712e5f7..049cf34 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -27,6 +27,7 @@ class LinOperator:
     def set_basestate(self, state: Any):
         """set base state as it will be used by derived class"""
         self._basestate = state
+        self._B = None  # operators must be computed again
 
     def _check_BC(self, bc: Any):
         """BC should be a dict with at least a 'type' key"""
@@ -37,6 +38,7 @@ class LinOperator:
 
     def set_BC(self, Ltype: Any, Rtype: Any):
         self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
+        self._B = None  # operators must be computed again
 
     def check_basestate(self):
         return self._basestate is not None
-- 
2.43.0


From 8fe4e0d8867630ace6ecef8acdcf3f561a3c0c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 27/47] fix: selection of eigenvalues does not change global
 numpy print options

---
 aerokit/stability/_base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 049cf34..7b095e3 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -65,7 +65,6 @@ class LinOperator:
         condition = (vp.real < realmax) & (vp.real >= realmin) & (vp.imag > imagmin) & (vp.imag < imagmax)
         vals = np.compress(condition, self._vals)
         vects = np.compress(condition, self._vects, axis=1)
-        np.set_printoptions(formatter={"float_kind": "{:.4f}".format})
         print(f"{vals.size}/{vp.size} remaining eigenvalues")
         sortmethod = {
             "real": np.real,
-- 
2.43.0


From 55feb27fd466c5ac72e3fb78d9a66600da8af761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 28/47] fix: conical flow integration does not stall on the
 cone axis

---
 aerokit/aero/ShockWave.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 58e0c6e..7fe8dd2 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -382,6 +382,8 @@ def conical_deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma, tol=1.0e-6):
                 thma = thma + dthma
                 phi = phi + h
                 # print(Mach, sigma, phi, thma)
+        elif not np.isfinite(err):  # step reaches the axis of the cone
+            h = 0.5 * h
         else:
             h = 0.9 * h * (tol / err) ** 0.2
             # print("new h ",h)
-- 
2.43.0


From ea267217afa777c20f017ba204f5e097fd712d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 29/47] fix: conical shock inversions stay on the attached
 branch and terminate

---
 aerokit/aero/ShockWave.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 7fe8dd2..c85e527 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -9,6 +9,7 @@ import aerokit.aero.Isentropic as Is
 import aerokit.aero.degree as degree
 from aerokit.common import defaultgas as defg  # relative import is deprecated by doctest
 from aerokit.common._ode import _rkf45
+from scipy.optimize import brentq
 
 # --- NORMAL SHOCK WAVE ---
 
@@ -404,11 +405,26 @@ def conical_sigma_Mach_walldeflection(Mach, deflection, gamma=defg._gamma):
 
     """
 
-    def local_def(sig):
-        """internal wrapping function to iterative solve"""
-        return conical_deflection_Mach_sigma(Mach, sig, gamma)
+    mu = degree.asin(1.0 / Mach)
+
+    def solve(deflection):
+        def local_def(sig):
+            """internal wrapping function to iterative solve"""
+            return (conical_deflection_Mach_sigma(Mach, sig, gamma) if sig > mu else 0.0) - deflection
 
-    return ITS.secant_solve(local_def, deflection, degree.asin(1.0 / Mach) + deflection)
+        # cone angle is larger than plane deflection: plane weak solution bounds the conical one
+        if deflection < dev_Max(Mach, gamma):
+            sigmax = weaksigma_Mach_deflection(Mach, deflection, gamma)
+        else:
+            sigmax = sigma_DevMax(Mach, gamma)
+            while sigmax < 90.0 and local_def(sigmax) < 0.0:
+                sigmax += 0.5
+            if sigmax >= 90.0:
+                print("no attached conical shock wave solution")
+                return 90.0
+        return brentq(local_def, mu, sigmax, xtol=1.0e-6)
+
+    return np.vectorize(solve, otypes=[float])(deflection)[()]
 
 
 def conical_Mach_walldeflection_sigma(deflection, sigma, gamma=defg._gamma):
@@ -427,9 +443,17 @@ def conical_Mach_walldeflection_sigma(deflection, sigma, gamma=defg._gamma):
     def local_def(mach):
         """internal wrapping function to iterative solve"""
         # print("local mach sigma", mach, sigma)
-        return conical_deflection_Mach_sigma(mach, sigma, gamma)
-
-    return ITS.secant_solve(local_def, deflection, 1.0 / degree.sin(sigma - 0.5 * deflection))
+        return (conical_deflection_Mach_sigma(mach, sigma, gamma) if mach > machmin else 0.0) - deflection
+
+    # cone angle increases with Mach number from zero at sonic normal Mach number
+    machmin = 1.0 / degree.sin(sigma)
+    machmax = 2.0 * machmin
+    while local_def(machmax) < 0.0:
+        machmax *= 2.0
+        if machmax > 1.0e4:
+            print("no conical shock wave solution")
+            return machmax
+    return brentq(local_def, machmin, machmax, xtol=1.0e-8)
 
 
 # backward compatibility
-- 
2.43.0


From d685824bc99854df7e4d0d704be7740b2ecab13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 30/47] fix: speed of weak shocks in Riemann and inflow
 problems

---
 aerokit/instance/riemann.py         | 5 +++--
 aerokit/instance/unsteady_inflow.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index bcc9d5a..08dfd1e 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -18,6 +18,7 @@
 import math
 import numpy as np
 from scipy.optimize import brentq
+import aerokit.aero.ShockWave as sw
 import aerokit.aero.unsteady1D as uq
 
 # ===============================================================
@@ -50,7 +51,7 @@ class riemann_pb:
         # finalize qstarL state
         if self._pstar > self._qL.p:
             _rho = self._qL.rho_through_shock(self._pstar)
-            _wsh = (self._qL.massflow() - _rho * self._ustar) / (self._qL.rho - _rho)
+            _wsh = self._qL.u - self._qL.asound() * sw.Mn_Ps_ratio(self._pstar / self._qL.p, self._qL._gamma)
             self._waves[0] = _wsh
             self._waves[1] = _wsh
             self._qstarL = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qL._gamma)
@@ -63,7 +64,7 @@ class riemann_pb:
         # finalize qstarR state
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
-            _wsh = (self._qR.massflow() - _rho * self._ustar) / (self._qR.rho - _rho)
+            _wsh = self._qR.u + self._qR.asound() * sw.Mn_Ps_ratio(self._pstar / self._qR.p, self._qR._gamma)
             self._waves[3] = _wsh
             self._waves[4] = _wsh
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index ebb2363..59afefc 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -108,7 +108,7 @@ class inflow_pb:
         # finalize qstarR state
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
-            _wsh = (self._qR.massflow() - _rho * self._ustar) / (self._qR.rho - _rho)
+            _wsh = self._qR.u + self._qR.asound() * sw.Mn_Ps_ratio(self._pstar / self._qR.p, self._qR._gamma)
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
             _wR = [_wsh, _wsh]
         else:
-- 
2.43.0


From c625b820cc3c8440af06a94a21463fea82ee653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 31/47] fix: nozzle throat section is not below the critical
 one by round-off

---
 aerokit/instance/nozzle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index cd8be72..bc1fcfa 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -172,6 +172,8 @@ class nozzle:
         else:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
+        # round-off errors must not lead to sections below the throat
+        self.AxoAc = np.where((self.AxoAc < 1.0) & (self.AxoAc > 1.0 - 1.0e-12), 1.0, self.AxoAc)
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
         defg.save_default()
         self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
-- 
2.43.0


From 218f6fe587d42e7a531bc672f9cf52c3b64cf402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 32/47] fix: RKF45 does not step beyond the end of the range
 with a large initial step

---
 aerokit/common/_ode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index cb64095..093bdc8 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -66,6 +66,10 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
     X.append(x)
     Y.append(y)
     stopper = 0  # Integration stopper(0 = off, 1 = on)
+    # initial step must not go beyond the end of the integration range
+    if abs(h) >= abs(xStop - x):
+        h = xStop - x
+        stopper = 1
     for i in range(10000):
         dy, e = _rkf45(F, x, y, h)
         # Accept integration step if error e is within tolerance
@@ -75,7 +79,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
             X.append(x)
             Y.append(y)
             # Stop if end of integration range is reached
-            if stopper == 1:
+            if stopper == 1 or x == xStop:
                 break
         else:
             stopper = 0  # a rejected last step is no longer the last one
-- 
2.43.0


From e22aa537bad2d0919bd5a95a92e7c274265e1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 33/47] fix: secant_solve iterates when the tolerance exceeds
 its initial step

---
 aerokit/aero/IterativeSolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/IterativeSolve.py b/aerokit/aero/IterativeSolve.py
index deeecd9..1978852 100644
--- a/aerokit/aero/IterativeSolve.py
+++ b/aerokit/aero/IterativeSolve.py
@@ -11,7 +11,8 @@ def secant_solve(f, y, x, tol=0.00001):
     it    = 1
     old_x = x
     old_y = f(old_x)
-    new_x = x*0.999 if abs(x*0.001) > tol else x-10*tol
+    dx    = max(tol,tol*abs(x))
+    new_x = x*0.999 if abs(x*0.001) > dx else x-10*dx
     #while (it < itmax) and np.any(abs(new_x-old_x) > np.maximum(tol,tol*abs(new_x))):
     while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):
         new_y = f(new_x)
-- 
2.43.0


From d3e4e1fe26e9f39f39c0c808ae37430dbf0cfe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 34/47] fix: eigenpair refinement converges for generalised
 eigenvalue problems

---
 aerokit/stability/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 7b095e3..39861e5 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -90,7 +90,7 @@ class LinOperator:
             # # since matrix becomes singular with convergence, lstsqr is prefered
             # w, *_ = nplin.lstsq(B-new_omega*M, new_eigm, rcond=None)
             try:
-                w = nplin.solve(B - new_omega * M, new_eigm)
+                w = nplin.solve(B - new_omega * M, M @ new_eigm)
                 new_eigm = w / nplin.norm(w)
                 new_omega = np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)
                 # print(i, nplin.norm((B-new_omega*M)@ new_eigm), new_omega)
-- 
2.43.0


From fd8797275f8197bd40c1f08283883941fb709639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 35/47] fix: specific consumption in g/kN/s of staged turbofan
 cycles

---
 aerokit/engine/Cycle_Turbofan.py        | 4 ++--
 aerokit/engine/propu_be.py              | 2 +-
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 53468ee..7233435 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -214,7 +214,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
@@ -320,7 +320,7 @@ class cycle_taux_fan_calcule(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be.py b/aerokit/engine/propu_be.py
index 950afb9..99ad35d 100644
--- a/aerokit/engine/propu_be.py
+++ b/aerokit/engine/propu_be.py
@@ -74,7 +74,7 @@ def calculs(lambda_, pi_c, Tt4, pi_f, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 2296e5a..1cda39a 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -90,7 +90,7 @@ def calculs(lambda_, pi_c, Tt4, m, taux_meca):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = .5*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
@@ -217,7 +217,7 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
-- 
2.43.0


From 17a2b5a1cf4533ea24d8d951e5021d2cd28b755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 36/47] fix: optimum fan temperature ratio of ideal turbofan

---
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 1cda39a..12df2a5 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -174,10 +174,10 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     cp = (r * gamma)/(gamma - 1)
     cp_ = (r_ * gamma_)/(gamma_ - 1)
     # Calculs fan
-    tau_lambda = (cp_ * Tt4)/(cp * Tt0)
+    tau_lambda = (cp_ * Tt4)/(cp * T0)
     tau_r = Tt0/T0
     tau_c = pi_c**((gamma - 1)/(eta_c * gamma))
-    tau_f = (tau_lambda*tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
+    tau_f = (tau_lambda - tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
     pi_f = tau_f**((eta_f*gamma)/(gamma - 1))
     Tt13 = Tt2 * tau_f
     Pt13 = Pt2 * pi_f
-- 
2.43.0


From bf32fa822fa5fd44c3f188244a520251a801edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 37/47] fix: the nozzle does not overwrite the saved default
 gas

Its constructor called defaultgas.save_default(), although it sets no
default, so that a later restore_default() of the user was lost.
---
 aerokit/instance/nozzle.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index bc1fcfa..1a060aa 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -175,13 +175,11 @@ class nozzle:
         # round-off errors must not lead to sections below the throat
         self.AxoAc = np.where((self.AxoAc < 1.0) & (self.AxoAc > 1.0 - 1.0e-12), 1.0, self.AxoAc)
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        defg.save_default()
         self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
             self.set_NPR(NPR)
-        defg.restore_default()
         return
 
     def set_NPR(self, NPR):
-- 
2.43.0


From 584021e4ae8fc74769e3b31d4f94a97b79522e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 38/47] fix: expression of Mx uses the name of the velocity
 component

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index a1ca824..f424282 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -34,6 +34,6 @@ def expressions_from_rhopv():
     extdico['V']    = 'mag('+dico['V']+')'
     extdico['a' ]   = _a
     extdico['Mach'] = 'mag('+dico['V']+')/'+_a
-    extdico['Mx']   = 'U_X/'+_a
+    extdico['Mx']   = dico['Vx']+'/'+_a
     extdico['alpha'] = 'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'
     return extdico
\ No newline at end of file
-- 
2.43.0


From 68fe720e03aa4862ae010a7358dc4b4c528c6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 39/47] fix: inverse of the Prandtl-Meyer function keeps the
 shape of arrays of one element

---
 aerokit/aero/Supersonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 544bbba..e54ef0f 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -69,7 +69,7 @@ def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
     # initial guess from the behaviour at sonic point, always lower than solution
     beta = newton(omega_of_beta, np.cbrt(1.5 * (gamma + 1.0) * np.radians(omega)))
     result = np.sqrt(1.0 + beta ** 2)
-    return result if np.size(result) != 1 else result.item()
+    return result if np.ndim(result) != 0 else result.item()
 
 
 def Mach_PMFmmu(om_m_mun, gamma=defg._gamma):
-- 
2.43.0


From 3fd38157e5cbfaf420e3797b242e414f6f3dfe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:29 +0000
Subject: [PATCH 40/47] fix: inversion of the area ratio accepts the sonic
 section up to round-off

---
 aerokit/aero/MassFlow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index 238d485..471a555 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -41,6 +41,8 @@ def Sigma_Mach(Mach, gamma=defg._gamma):
 
 def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
     # "Mach" only selects the branch
+    # round-off errors must not lead to sections below the sonic one
+    sigma = np.where((sigma < 1.0) & (sigma > 1.0 - 1.0e-13), 1.0, sigma)
     Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
 
     # Newton on log(Sigma) as a function of log(Mach): convex, does not leave the initial branch
-- 
2.43.0


From 03235fbbb7b927d1734fdc81ecd91c52fd2a0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:32 +0000
Subject: [PATCH 41/47] fix: inversion of the thrust function accepts the sonic
 thrust up to round-off

---
 aerokit/aero/Propulsion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index 9cbaf05..1b06f2a 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -12,6 +12,9 @@ def ThrustFunction(Mach, gamma=1.4):
 
 def Mach_ThrustFunction(thrust, Mach=2.0, gamma=1.4):
     # (1+gamma*M**2)**2 = q*M**2*(1+(gamma-1)/2*M**2), "Mach" only selects the branch
-    q = (thrust / ThrustFunction(1.0, gamma)) ** 2 * 2.0 * (gamma + 1.0)
+    ratio = thrust / ThrustFunction(1.0, gamma)
+    # round-off errors must not lead to a thrust below the sonic one
+    ratio = np.where((ratio < 1.0) & (ratio > 1.0 - 1.0e-13), 1.0, ratio)
+    q = ratio ** 2 * 2.0 * (gamma + 1.0)
     root = np.sqrt(q * (q - 2.0 * (gamma + 1.0)))
     return np.sqrt(2.0 / (q - 2.0 * gamma + np.where(Mach <= 1.0, 1.0, -1.0) * root))
-- 
2.43.0


From a973b98936e7ce164895b985ba1dd380282aa3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:36 +0000
Subject: [PATCH 42/47] fix: Mach number of heated flow accepts the critical
 temperature up to round-off

---
 aerokit/aero/Rayleigh.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/Rayleigh.py b/aerokit/aero/Rayleigh.py
index 114e599..5a2189a 100644
--- a/aerokit/aero/Rayleigh.py
+++ b/aerokit/aero/Rayleigh.py
@@ -60,13 +60,19 @@ def NormdS(Mach, gamma=1.4):
     return np.log(m2 * ((gamma + 1) / (1 + gamma * m2)) ** ((gamma + 1) / gamma))
 
 
+def _alpha_TiTicri(Tiratio):
+    # round-off errors must not lead to a ratio beyond the critical one
+    loss = 1.0 - Tiratio
+    return np.sqrt(np.where((loss < 0.0) & (loss > -1.0e-13), 0.0, loss))
+
+
 def SubMach_TiTicri(Tiratio, gamma=1.4):
     """computes Mach number from Ti/Ti_cri ratio (<1)"""
-    alpha = np.sqrt(1.0 - Tiratio)
+    alpha = _alpha_TiTicri(Tiratio)
     return np.sqrt((1.0 - alpha) / (alpha * gamma + 1))
 
 
 def SupMach_TiTicri(Tiratio, gamma=1.4):
     """computes Mach number from Ti/Ti_cri ratio (<1)"""
-    alpha = np.sqrt(1.0 - Tiratio)
+    alpha = _alpha_TiTicri(Tiratio)
     return np.sqrt((1.0 + alpha) / (1.0 - alpha * gamma))
-- 
2.43.0


From e89347d578ee5ae92e34b929f7368dd8a883f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:38 +0000
Subject: [PATCH 43/47] fix: angles of maximum deviation and sonic flow at Mach
 one

---
 aerokit/aero/ShockWave.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index c85e527..162b3df 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -11,6 +11,12 @@ from aerokit.common import defaultgas as defg  # relative import is deprecated b
 from aerokit.common._ode import _rkf45
 from scipy.optimize import brentq
 
+
+def _asin(sinus):
+    # round-off errors must not lead to a sinus beyond the one of a normal shock
+    return degree.asin(np.where((sinus > 1.0) & (sinus < 1.0 + 1.0e-13), 1.0, sinus))
+
+
 # --- NORMAL SHOCK WAVE ---
 
 
@@ -296,7 +302,7 @@ def sigma_DevMax(Mach, gamma=defg._gamma):
     # ka = (M2-1.)*(1.+.5*(gamma-1.)*M2)
     # kb = .25*((gamma+1.)*M2-(3.-gamma))*M2 + 1.
     # return degree.atan(np.sqrt((kb+np.sqrt(kb**2+ka))/ka))
-    return degree.asin(
+    return _asin(
         np.sqrt(
             1.0
             / fogpu
@@ -320,7 +326,7 @@ def sigma_Sonic(Mach, gamma=defg._gamma):
     M2 = np.square(Mach)
     ka = gamma - 3 + M2 * (gamma + 1)
     kb = (gamma + 1) * (np.square(M2 - 3) + gamma * np.square(M2 + 1))
-    return degree.asin(np.sqrt((ka + np.sqrt(kb)) / (4 * gamma * M2)))
+    return _asin(np.sqrt((ka + np.sqrt(kb)) / (4 * gamma * M2)))
 
 
 # --- CONICAL SHOCK WAVE ---
-- 
2.43.0


From 1654638b130d44471fc537068ff1623989e35924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:42 +0000
Subject: [PATCH 44/47] fix: deviation by a shock of given pressure ratio up to
 the normal shock

---
 aerokit/aero/ShockWave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 162b3df..c4340e4 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -159,7 +159,7 @@ def deflection_Mach_ShockPsratio(Mach, Pratio, gamma=defg._gamma):
     Returns:
 
     """
-    return deflection_Mach_sigma(Mach, degree.asin(Mn_Ps_ratio(Pratio, gamma) / Mach), gamma)
+    return deflection_Mach_sigma(Mach, _asin(Mn_Ps_ratio(Pratio, gamma) / Mach), gamma)
 
 
 def downstreamMach_Mach_ShockPsratio(Mach, Pratio, gamma=defg._gamma):
@@ -174,7 +174,7 @@ def downstreamMach_Mach_ShockPsratio(Mach, Pratio, gamma=defg._gamma):
 
     """
     Mn0 = Mn_Ps_ratio(Pratio, gamma)
-    sig = degree.asin(Mn0 / Mach)
+    sig = _asin(Mn0 / Mach)
     dev = deflection_Mach_sigma(Mach, sig, gamma)
     Mn1 = downstream_Mn(Mn0, gamma)
     return Mn1 / degree.sin(sig - dev)
-- 
2.43.0


From ed40af7b80586e14b884c3dfa521f182ce091e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:46 +0000
Subject: [PATCH 45/47] fix: Prandtl-Meyer function of a sonic flow up to
 round-off

---
 aerokit/aero/Supersonic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index e54ef0f..c76f0de 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -48,7 +48,9 @@ def PrandtlMeyer_Mach(Mach, gamma=defg._gamma):
     """
     g = gamma
     gm1 = gamma - 1.0
-    beta = np.sqrt(Mach ** 2 - 1.0)
+    beta2 = Mach ** 2 - 1.0
+    # round-off errors must not lead to a flow below the sonic one
+    beta = np.sqrt(np.where((beta2 < 0.0) & (beta2 > -1.0e-13), 0.0, beta2))
     cg = np.sqrt((g + 1.0) / gm1)
     return (cg * np.arctan(beta / cg) - np.arctan(beta)) * (180.0 / math.pi)
 
-- 
2.43.0


From 1cf4e24850572baadf34d663f51e5ff7a4e8dfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:42 +0000
Subject: [PATCH 46/47] fix: refinement of eigenpairs of exactly known or null
 eigenvalue

---
 aerokit/stability/_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 39861e5..94430e9 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -86,17 +86,22 @@ class LinOperator:
         new_eigm = eigenmode / nplin.norm(eigenmode)
         # print(omega, np.vdot(new_eigm, B @ new_eigm)/np.vdot(new_eigm, M @ new_eigm))
         new_omega = omega
+        eps = np.finfo(float).eps
+        roundoff = eps * nplin.norm(B) / nplin.norm(M)
         for i in range(niter):
             # # since matrix becomes singular with convergence, lstsqr is prefered
             # w, *_ = nplin.lstsq(B-new_omega*M, new_eigm, rcond=None)
             try:
-                w = nplin.solve(B - new_omega * M, M @ new_eigm)
+                # when converging to a null eigenvalue, a shift below round-off would overflow
+                shift = new_omega if abs(new_omega) > roundoff else roundoff
+                w = nplin.solve(B - shift * M, M @ new_eigm)
                 new_eigm = w / nplin.norm(w)
                 new_omega = np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)
                 # print(i, nplin.norm((B-new_omega*M)@ new_eigm), new_omega)
             except nplin.LinAlgError as err:
                 if "Singular matrix" in str(err):
-                    exit
+                    # the estimate is exactly an eigenvalue: move it by round-off to get its mode
+                    new_omega = new_omega + roundoff + 4.0 * eps * abs(new_omega)
                 else:
                     raise
         return new_omega, new_eigm
-- 
2.43.0


From 0f2ada44fe9bdeb63c8738c805be5cfd0c64f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:48 +0000
Subject: [PATCH 47/47] fix: conical flow behind a Mach wave

---
 aerokit/aero/ShockWave.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index c4340e4..9ef0070 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -371,6 +371,9 @@ def conical_deflection_Mach_sigma(Mach, sigma, gamma=defg._gamma, tol=1.0e-6):
         )
         return rhs
 
+    # a Mach wave (up to round-off) has no deflection and equations are singular
+    if abs(Mach * degree.sin(sigma) - 1.0) < 1.0e-13:
+        return 0.0
     # initial data for integration from downstream shock to wall
     th = deflection_Mach_sigma(Mach, sigma, gamma)
     ma = downstream_Mn(Mach * degree.sin(sigma), gamma) / degree.sin(sigma - th)
-- 
2.43.0

