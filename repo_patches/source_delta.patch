From 21994cfc4746e9aa01d070f7366e2c08270c30b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 01/28] fix: use the given gamma downstream of the shock in the
 total pressure ratio

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 98d1718..b88e2d8 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -90,7 +90,7 @@ def Pt_ratio(Mn, gamma=defg._gamma):
     Returns:
 
     """
-    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma)) / Is.PtPs_Mach(Mn, gamma)
+    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma), gamma) / Is.PtPs_Mach(Mn, gamma)
 
 
 def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
-- 
2.43.0


From 4acc1338cbe0f948854331ce01cbef4c58edcbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 02/28] fix: keep the gamma of the 1D state in its derived and
 recomputed states

---
 aerokit/aero/model1D.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 0b8d964..ea9d7a5 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -52,19 +52,19 @@ class state:
         """return state defined by Mach number through isoenergetic isentropic transformation"""
         ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
-        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps)
+        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps)
+        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_u(self, pt, rtt, u):
         gam = self._gamma
         gsgmu = gam / (gam - 1.0)
         a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2
         ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu
-        self.__init__(rho=gam * ps / a2, u=u, p=ps)
+        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)
 
     def compute_from_pt_rtt_p(self, pt, rtt, p):
         """Init state from Ptot r.Ttot and Ps (velocity sign is arbitrary and positive)
@@ -76,11 +76,11 @@ class state:
         """
         M = Is.Mach_PtPs(pt / p, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p)
+        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p, gamma=self._gamma)
 
     def __getitem__(self, i):
         assert isinstance(self.rho, np.ndarray)
-        return state(self.rho[i], self.u[i], self.p[i])
+        return state(self.rho[i], self.u[i], self.p[i], self._gamma)
 
     def asound(self):
         """returns speed of sound"""
-- 
2.43.0


From 181cad0b2cf8636c6371ec6a15c43ff2576b8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 03/28] fix: isentropic Mach state uses the total pressure for
 the static pressure

---
 aerokit/aero/model1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index ea9d7a5..2d096e0 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -50,7 +50,7 @@ class state:
 
     def state_isentropic_Mach(self, Mach):
         """return state defined by Mach number through isoenergetic isentropic transformation"""
-        ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
+        ps = self.Ptot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
         return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
-- 
2.43.0


From f94710bda5cc71fa7bf1bc86623429b47e7d76cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 04/28] fix: RKF45 does not stop short of xStop after a
 rejected last step

---
 aerokit/common/_ode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 3c921d2..2efaf70 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -77,6 +77,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
             # Stop if end of integration range is reached
             if stopper == 1:
                 break
+        stopper = 0  # a rejected last step does not reach xStop
         # Compute next step size from Eq. (7.24)
         if e != 0.0:
             hNext = 0.9 * h * (tol / e) ** 0.2
-- 
2.43.0


From 7e6ac29a8d423a4f520f956910f23db3871d8439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 05/28] fix: Riemann solution at the tail of a right expansion
 is the right star state

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 4086611..7f5942f 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -98,7 +98,7 @@ class riemann_pb:
         u[i] = self._qstarL.u
         p[i] = self._qstarL.p
         # right star uniform part
-        i = np.logical_and((xot >= self._waves[2]), (xot < self._waves[3]))
+        i = np.logical_and((xot >= self._waves[2]), (xot <= self._waves[3]))
         rho[i] = self._qstarR.rho
         u[i] = self._qstarR.u
         p[i] = self._qstarR.p
-- 
2.43.0


From 592e860a3503134fe81b7a645bde402fe1a7a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 06/28] fix: gamma of the Riemann solution changes at the
 contact discontinuity

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 7f5942f..f27371c 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -125,7 +125,7 @@ class riemann_pb:
             u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))
             p[i] = self._qR.p * ((xot[i] - u[i]) / self._qR.asound()) ** (2.0 * gam / gm1)
             rho[i] = self._qR.rho_through_isentropic(p[i])
-        return uq.unsteady_state(rho, u, p, np.where(xot < 0.0, self._qL._gamma, self._qR._gamma))
+        return uq.unsteady_state(rho, u, p, np.where(xot < self._waves[2], self._qL._gamma, self._qR._gamma))
 
     def left_fastest(self):
         return self._waves[0]
-- 
2.43.0


From 2ae932e23ec41d586065db69f45bb742a1e429d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 07/28] fix: combustion efficiency (not the pressure loss)
 scales the heating value in the fuel-air ratio

---
 aerokit/engine/gasgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index e315101..5bebe30 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -56,6 +56,7 @@ class base():
         self.r_cold    = r_cold
         self.r_hot     = r_hot
         self.xi_cc     = xi_cc
+        self.eta_cc    = eta_cc
         self.xi_inlet  = xi_inlet
         self.etapolCHP = etapolCHP
         self.etapolTHP = etapolTHP
@@ -80,7 +81,7 @@ class base():
         self.Pt4 = self.Pt3*self.xi_cc
         gh  = self.gam_hot
         cph = gh*self.r_hot/(gh-1.)
-        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.xi_cc*self.Pci - cph*self.Tt4)
+        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.eta_cc*self.Pci - cph*self.Tt4)
         self.Tt45 = self.Tt4 - cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))
         #print self.Tt3, self.Pt4, self.Tt45, self.Tt4, self.far
         self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))
-- 
2.43.0


From f23d7305f999e03d35ffe4c68062242aa152872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 08/28] fix: ideal specific work of the gas generator (cp
 factor and sign)

---
 aerokit/engine/gasgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index 5bebe30..0d09c0b 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -92,7 +92,7 @@ class base():
     def Wsp_TBP_ideal(self, P19=None):
         if P19 is None: P19=self.P0
         gogm1 = self.gam_hot/(self.gam_hot-1.)
-        return (1.+self.far)*gogm1*self.r_hot/(self.gam_hot-1.)*self.Tt45*((P19/self.Pt45)**(1./gogm1)-1.)
+        return (1.+self.far)*gogm1*self.r_hot*self.Tt45*(1.-(P19/self.Pt45)**(1./gogm1))
 
     def thermal_efficiency(self):
         return self.Wsp_TBP_ideal()/self.Wsp_cc()
-- 
2.43.0


From 87c5107613cecad92379f97a392670b9c4a29e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 09/28] fix: turbofan takes its nozzle pressure loss into
 account

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 4b90a7a..766897b 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -51,7 +51,7 @@ class turbofan_adapt(tj.turbojet_opt):
                                  xi_inlet=1., xi_nozzle=1., xi_cc=1., eta_cc=1., Pci=42.8e6,
                                  etapolCHP=1., etapolTHP=1., etapolTBP=1., etapolfan=1., eta_shaft=1.):
         tj.turbojet_opt.__init__(self, OPR, Tt4, gam_cold=gam_cold, gam_hot=gam_hot, r_cold=r_cold, r_hot=r_hot,
-                                 xi_inlet=xi_inlet, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
+                                 xi_inlet=xi_inlet, xi_nozzle=xi_nozzle, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
                                  etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)
         self.bpr            = bpr
         self.etapolfan      = etapolfan
-- 
2.43.0


From bec61769e0a7332a555330439c13e6f8387ce2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 10/28] fix: import of the iterative solver in Propulsion

---
 aerokit/aero/Propulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index daf863b..ec807e0 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -3,7 +3,7 @@
 """
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.IterativeSolve as ITS
+import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
-- 
2.43.0


From e1600845188dfabab322428844d4ae9850bbf674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 11/28] fix: import of the variable database in extendvar

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 853aeef..a1ca824 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -13,7 +13,7 @@ Examples
 Notes
 -----
 """
-from dicovar import dicoVar as dico
+from aerokit.common.dicovar import dicoVar as dico
 
 # -----------------------------------------------------------------
 
-- 
2.43.0


From aa3812bc77042b61fa959576ab1a327fae4c637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 12/28] fix: setDicoVar with an unknown software keeps the
 current database

---
 aerokit/common/dicovar.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 041326e..3a03cfc 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -103,11 +103,7 @@ class _DicoVar(object):
 
     def __init__(self, software):
 
-        # Internal variables definitions
-        self._dv = {}
-        self._softName = ''
-
-        # Setting database
+        # Setting database (an unknown software leaves the current database unchanged)
         softOK = False
         for soft in _dataBase:
             if software.lower() in soft[0]:
-- 
2.43.0


From 83805e939f457e9d8a4d5c6b21dd4e80c4cdcd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 13/28] fix: the nozzle regimes and profiles use the gamma of
 the nozzle

---
 aerokit/instance/nozzle.py | 80 +++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index f6a72be..7b589d9 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -11,7 +11,7 @@
     Available functions
     -------------------
  
-	.. note:: Specific heat ratio `gamma` is defined only using aerokit.common.defaultgas module
+	.. note:: Specific heat ratio `gamma` is optional and defaults to the one of aerokit.common.defaultgas module
 """
 
 import numpy as np
@@ -20,10 +20,12 @@ from aerokit.aero import Isentropic as Is
 from aerokit.aero import MassFlow as mf
 from aerokit.aero import ShockWave as sw
 
+_default_gamma = defg._gamma
+
 # === NPR computation from As/Ac definition of nozzle ===
 
 
-def NPR_choked_subsonic(AsAc):
+def NPR_choked_subsonic(AsAc, gamma=defg._gamma):
     """Compute Nozzle Pressure Ratio to get a choked but subsonic regime in a nozzle with As/Ac diffuser
 
     Args:
@@ -31,10 +33,10 @@ def NPR_choked_subsonic(AsAc):
     Returns:
             [real]: Nozzle Pressure ratio (inlet total pressure over exit static pressure)
     """
-    return Is.PtPs_Mach(mf.MachSub_Sigma(AsAc))
+    return Is.PtPs_Mach(mf.MachSub_Sigma(AsAc, gamma), gamma)
 
 
-def NPR_choked_supersonic(AsAc):
+def NPR_choked_supersonic(AsAc, gamma=defg._gamma):
     """Compute Nozzle Pressure Ratio to get a choked supersonic regime in a nozzle with As/Ac diffuser
 
     Args:
@@ -42,10 +44,10 @@ def NPR_choked_supersonic(AsAc):
     Returns:
             [real]: Nozzle Pressure ratio (inlet total pressure over exit static pressure)
     """
-    return Is.PtPs_Mach(mf.MachSup_Sigma(AsAc))
+    return Is.PtPs_Mach(mf.MachSup_Sigma(AsAc, gamma), gamma)
 
 
-def NPR_shock_at_exit(AsAc):
+def NPR_shock_at_exit(AsAc, gamma=defg._gamma):
     """Compute Nozzle Pressure Ratio to get a choked, supersonic regime but shock at exit in a nozzle with As/Ac diffuser
 
     Args:
@@ -53,12 +55,12 @@ def NPR_shock_at_exit(AsAc):
     Returns:
             [real]: Nozzle Pressure ratio (inlet total pressure over exit static pressure)
     """
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    return Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
 
 
-def _NPR_Ms_list(AsAc):
+def _NPR_Ms_list(AsAc, gamma=defg._gamma):
     """
     Computes all NPR limits and associated exit Mach number
 
@@ -75,16 +77,16 @@ def _NPR_Ms_list(AsAc):
             .. seealso:: NPR_choked_subsonic(), NPR_choked_supersonic(), NPR_shock_at_exit()
             .. note:: available for scalar or array (numpy) computations
     """
-    Msub = mf.MachSub_Sigma(AsAc)
-    NPR0 = Is.PtPs_Mach(Msub)
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    NPRsw = Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
-    NPR1 = Is.PtPs_Mach(Msup)
+    Msub = mf.MachSub_Sigma(AsAc, gamma)
+    NPR0 = Is.PtPs_Mach(Msub, gamma)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    NPRsw = Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
+    NPR1 = Is.PtPs_Mach(Msup, gamma)
     return NPR0, NPRsw, NPR1, Msub, Msh, Msup
 
 
-def Ms_from_AsAc_NPR(AsAc, NPR):
+def Ms_from_AsAc_NPR(AsAc, NPR, gamma=None):
     """
     Computes Mach number at exit of a nozzle given As/Ac and NPR
 
@@ -102,19 +104,22 @@ def Ms_from_AsAc_NPR(AsAc, NPR):
             .. seealso::
             .. note:: NOT available for array (numpy) computations
     """
-    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc)
+    # without explicit gamma: default at import for the limits, current default for the shock in the diffuser
+    gam_sw = defg._gamma if gamma is None else gamma
+    gamma = _default_gamma if gamma is None else gamma
+    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc, gamma)
     if NPR < NPR0:
-        Ms = Is.Mach_PtPs(NPR)
+        Ms = Is.Mach_PtPs(NPR, gamma)
     elif NPR > NPRsw:
         Ms = Msup
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
+        gmu = gam_sw - 1.0
+        K = NPR / AsAc / ((gam_sw + 1.0) / 2) ** ((gam_sw + 1.0) / 2 / gmu)
         Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
     return Ms
 
 
-def Madapt_from_AsAc_NPR(AsAc, NPR):
+def Madapt_from_AsAc_NPR(AsAc, NPR, gamma=None):
     """
     Computes Mach number for pressure adapted flow of a nozzle given As/Ac and NPR
 
@@ -133,16 +138,19 @@ def Madapt_from_AsAc_NPR(AsAc, NPR):
             .. seealso::
             .. note:: NOT available for array (numpy) computations
     """
-    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc)
+    # without explicit gamma: default at import for the limits, current default for the shock in the diffuser
+    gam_sw = defg._gamma if gamma is None else gamma
+    gamma = _default_gamma if gamma is None else gamma
+    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc, gamma)
     if NPR < NPR0:
-        Ms = Is.Mach_PtPs(NPR)
+        Ms = Is.Mach_PtPs(NPR, gamma)
     elif NPR > NPR1:  # under expanded flow
-        Ms = Is.Mach_PtPs(NPR)
+        Ms = Is.Mach_PtPs(NPR, gamma)
     elif NPR > NPRsw:  # shock wave in jet
-        Ms = sw.downstreamMach_Mach_ShockPsratio(Msup, NPR1 / NPR)
+        Ms = sw.downstreamMach_Mach_ShockPsratio(Msup, NPR1 / NPR, gamma)
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
+        gmu = gam_sw - 1.0
+        K = NPR / AsAc / ((gam_sw + 1.0) / 2) ** ((gam_sw + 1.0) / 2 / gmu)
         Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
     return Ms
 
@@ -170,7 +178,7 @@ class nozzle:
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
         defg.save_default()
-        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
+        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
@@ -187,7 +195,7 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms), gamma=self.gamma)
+            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, gamma=self.gamma), gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -195,14 +203,16 @@ class nozzle:
             self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
-                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR)
-                Ptloss = Is.PtPs_Mach(Ms) / NPR
-                Msh = sw.Mn_Pi_ratio(Ptloss)
+                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR, gamma=self.gamma)
+                Ptloss = Is.PtPs_Mach(Ms, gamma=self.gamma) / NPR
+                Msh = sw.Mn_Pi_ratio(Ptloss, gamma=self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(self.AxoAc[ish:] * mf.Sigma_Mach(Ms) / self.AsoAc)
+                self._M[ish:] = mf.MachSub_Sigma(
+                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, gamma=self.gamma) / self.AsoAc, gamma=self.gamma
+                )
                 self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M)
+            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
     def Mach(self):
         return self._M
-- 
2.43.0


From b209e5fbe4a0dd63adb0b3f6be79659d408e3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:29 +0000
Subject: [PATCH 14/28] fix: building a nozzle does not overwrite the gas
 defaults saved by the user

---
 aerokit/instance/nozzle.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 7b589d9..81bdacb 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -177,13 +177,11 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        defg.save_default()
         self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
             self.set_NPR(NPR)
-        defg.restore_default()
         return
 
     def set_NPR(self, NPR):
-- 
2.43.0


From ff724c009352946672fa99899b81dd7c25d3c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 15/28] fix: initial guess of the subsonic Mach number stays on
 the subsonic branch for any gamma

---
 aerokit/aero/MassFlow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ee3ce2b..da09460 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -10,9 +10,9 @@ from ..common import defaultgas as defg
 
 # internal initialization (estimated) Mach for Sigma->Mach computations
 def __MachSub_sigma(sigma, gamma):
-    return 1.0 - np.sqrt(
-        (1.0 - 1.0 / sigma) * (4.0 * (gamma - 1.0) / (3.0 - gamma))
-    )  # (2./(gamma+1.))**(.5*(gamma+1.)/(gamma-1.))/sigma
+    # the highest of two lower bounds of the subsonic Mach number (low Mach and sonic limits), for any gamma
+    lowmach = (2.0 / (gamma + 1.0)) ** (0.5 * (gamma + 1.0) / (gamma - 1.0)) / sigma
+    return np.maximum(lowmach, 1.0 - np.sqrt((sigma - 1.0) * 0.5 * (gamma + 1.0)))
 
 
 def __MachSup_sigma(sigma, gamma):
-- 
2.43.0


From b0cb0cf0c2127eb6be8fd35109857eecfd63ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 16/28] fix: secant solver iterates from a small or zero
 initial guess

---
 aerokit/aero/IterativeSolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/aero/IterativeSolve.py b/aerokit/aero/IterativeSolve.py
index e72433c..3132f7e 100644
--- a/aerokit/aero/IterativeSolve.py
+++ b/aerokit/aero/IterativeSolve.py
@@ -12,6 +12,8 @@ def secant_solve(f, y, x, tol=0.00001):
     old_x = x
     old_y = f(old_x)
     new_x = x*0.999 
+    if abs(new_x-old_x) <= max(tol,tol*abs(new_x)): # too close for the iterations to start
+        new_x = x + 10*tol*max(1,abs(x))
     #while (it < itmax) and np.any(abs(new_x-old_x) > np.maximum(tol,tol*abs(new_x))):
     while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):
         new_y = f(new_x)
-- 
2.43.0


From c9a3793ca96b18b4ddf33514e3d49a0fb30e5a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:59 +0000
Subject: [PATCH 17/28] fix: shock angle for zero (Mach angle) and negative
 (mirrored guess) deflections

---
 aerokit/aero/ShockWave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index b88e2d8..ca37e74 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -235,7 +235,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
 
     """
     if init is None:
-        sig0 = degree.asin(1.0 / Mach) + deflection
+        sig0 = degree.asin(1.0 / Mach) + np.abs(deflection)
     else:
         sig0 = init
 
@@ -250,7 +250,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
         """
         return deflection_Mach_sigma(Mach, sig, gamma)
 
-    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.sign(deflection)
+    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.where(np.less(deflection, 0.0), -1.0, 1.0)
 
 
 def dev_Max(Mach, gamma=defg._gamma):
-- 
2.43.0


From 9ab6428f09567aca55ef98ba513356fd3d5663b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:41 +0000
Subject: [PATCH 18/28] fix: computing the Euler boundary conditions does not
 alter their definition

---
 aerokit/stability/Euler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index d6f5428..f42390c 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -75,10 +75,10 @@ class Euler1D(LinOperator):
             assert self._BC_type[1]["type"] == "per"
             self.setBC_per()
         else:
-            bcdict = self._BC_type[0]
+            bcdict = dict(self._BC_type[0])  # copy: must not be altered
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](0, 0, **bcdict)
-            bcdict = self._BC_type[1]
+            bcdict = dict(self._BC_type[1])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](n - 1, n - 1, **bcdict)
 
-- 
2.43.0


From 498bb97d803d231f717a1a89872c0717e5d91bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 19/28] fix: stability operators are recomputed when the base
 state or the BC change

---
 aerokit/stability/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 712e5f7..8deb0a5 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -27,6 +27,7 @@ class LinOperator:
     def set_basestate(self, state: Any):
         """set base state as it will be used by derived class"""
         self._basestate = state
+        self._B = None  # operators must be recomputed
 
     def _check_BC(self, bc: Any):
         """BC should be a dict with at least a 'type' key"""
@@ -37,6 +38,7 @@ class LinOperator:
 
     def set_BC(self, Ltype: Any, Rtype: Any):
         self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
+        self._B = None  # operators must be recomputed
 
     def check_basestate(self):
         return self._basestate is not None
-- 
2.43.0


From 48aa5ace7a613eda07a351ac70818ff38af25197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 20/28] fix: polytropic efficiency of the fan in the fixed fan
 ratio cycle

---
 aerokit/engine/Cycle_Turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 61eb5b0..53468ee 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -178,7 +178,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
     def stage_13(self):
         if self.current_stage_corps >= 2:
             self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
-            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
+            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_f)
             self.Pt13 = self.Pt2 * self.pi_f
             self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
             self.current_stage_fan = 13
-- 
2.43.0


From 53917a0be23f393aa683ce333bac6cef0f0e94c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 21/28] fix: specific fuel consumption is in g/kN/s

---
 aerokit/engine/Cycle_Turbofan.py        | 4 ++--
 aerokit/engine/propu_be.py              | 2 +-
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 53468ee..7233435 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -214,7 +214,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
@@ -320,7 +320,7 @@ class cycle_taux_fan_calcule(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be.py b/aerokit/engine/propu_be.py
index 950afb9..99ad35d 100644
--- a/aerokit/engine/propu_be.py
+++ b/aerokit/engine/propu_be.py
@@ -74,7 +74,7 @@ def calculs(lambda_, pi_c, Tt4, pi_f, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 2296e5a..1cda39a 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -90,7 +90,7 @@ def calculs(lambda_, pi_c, Tt4, m, taux_meca):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = .5*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
@@ -217,7 +217,7 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
-- 
2.43.0


From 0b9b9bec3b6e9136482eb1d2d060e580ba92f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 22/28] fix: nozzle shock wave was located at the nearest
 section, possibly upstream of it (nan at the throat)

---
 aerokit/instance/nozzle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 81bdacb..3a54b4b 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -204,8 +204,11 @@ class nozzle:
                 Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR, gamma=self.gamma)
                 Ptloss = Is.PtPs_Mach(Ms, gamma=self.gamma) / NPR
                 Msh = sw.Mn_Pi_ratio(Ptloss, gamma=self.gamma)
-                # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
-                ish = np.abs(self._M - Msh).argmin()
+                # redefine curves starting from 'ish' index (first section of the diffuser where Msh is reached)
+                behind = self._M >= Msh
+                behind[: self.ithroat + 1] = False
+                behind[-1] = True  # outlet is always downstream of the shock wave
+                ish = behind.argmax()
                 self._M[ish:] = mf.MachSub_Sigma(
                     self.AxoAc[ish:] * mf.Sigma_Mach(Ms, gamma=self.gamma) / self.AsoAc, gamma=self.gamma
                 )
-- 
2.43.0


From 49e68e6a3997bc94693b592699af4e9b70ba923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 23/28] fix: nozzle sections relative to the throat were
 rounded below 1 (nan Mach number at the throat)

---
 aerokit/instance/nozzle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 3a54b4b..6f382c4 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -173,9 +173,11 @@ class nozzle:
         self.x = x
         if AsoAc:
             self.AsoAc = AsoAc
+            Ac = section[-1] / AsoAc
         else:
-            self.AsoAc = section[-1] / np.min(section)
-        self.AxoAc = section * self.AsoAc / section[-1]
+            Ac = np.min(section)
+            self.AsoAc = section[-1] / Ac
+        self.AxoAc = section / Ac  # exactly 1 at the throat
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
         self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
-- 
2.43.0


From 6b64be563337b6209b5b496f4f4f440729b04245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 24/28] fix: the first step of RKF45 does not pass the end
 point

---
 aerokit/common/_ode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 2efaf70..4023162 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -66,6 +66,10 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
     X.append(x)
     Y.append(y)
     stopper = 0  # Integration stopper(0 = off, 1 = on)
+    # the first step must not pass xStop either
+    if (h > 0.0) == ((x + h) >= xStop):
+        h = xStop - x
+        stopper = 1
     for i in range(10000):
         dy, e = _rkf45(F, x, y, h)
         # Accept integration step if error e is within tolerance
-- 
2.43.0


From f57f49fe9beac4b5781c6dbbfb070a66d230f439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 25/28] fix: the Mx expression uses the current name of the
 axial velocity

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index a1ca824..f424282 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -34,6 +34,6 @@ def expressions_from_rhopv():
     extdico['V']    = 'mag('+dico['V']+')'
     extdico['a' ]   = _a
     extdico['Mach'] = 'mag('+dico['V']+')/'+_a
-    extdico['Mx']   = 'U_X/'+_a
+    extdico['Mx']   = dico['Vx']+'/'+_a
     extdico['alpha'] = 'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'
     return extdico
\ No newline at end of file
-- 
2.43.0


From 873e69e07f89836c591a2ab2382c3a9bc761650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:10 +0000
Subject: [PATCH 26/28] fix: strong shock angle of a zero deflection is 90
 degrees, not -90

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index ca37e74..cbe11b9 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -219,7 +219,7 @@ def strongsigma_Mach_deflection(Mach, deflection, gamma=defg._gamma):
     else:
         phi = np.arccos(-0.5 * ke / np.sqrt(kd ** 3)) + 4 * math.pi
         kf = 2.0 * np.sqrt(kd) * np.cos(phi / 3.0) - ka / 3.0
-        return degree.atan(1.0 / kf)
+        return degree.atan2(1.0, kf)
 
 
 def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
-- 
2.43.0


From b88380b6ccb7a28a1c1a8c71994fc17bdb673669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:49 +0000
Subject: [PATCH 27/28] fix: inflow_pb wave speeds (left_fastest and
 right_fastest used an undefined attribute)

---
 aerokit/instance/unsteady_inflow.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 4d4f8df..9fd450d 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -39,6 +39,7 @@ class inflow_pb:
             _ustar  : velocity at inflow
             _qstarL : q state on time axis
             _qstarR : q state between q*L and qR
+            _waves[3] : contact and right wave (tail and head) velocities
     """
 
     def __init__(self, qinit):
@@ -55,7 +56,7 @@ class inflow_pb:
         return self._waves[0]
 
     def right_fastest(self):
-        return self._waves[4]
+        return self._waves[2]
 
     def ustar(self):
         return self._ustar
@@ -96,13 +97,19 @@ class inflow_pb:
 
         self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
         self._ustar = self._qR.u + self._delta_uR(self._pstar)
+        self._waves = 3 * [self._ustar]
         # finalize qstarR state
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
+            _wsh = (self._qR.massflow() - _rho * self._ustar) / (self._qR.rho - _rho)
+            self._waves[1] = _wsh
+            self._waves[2] = _wsh
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
         else:
             _rho = self._qR.rho_through_isentropic(self._pstar)
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
+            self._waves[1] = self._ustar + self._qstarR.asound()
+            self._waves[2] = self._qR.u + self._qR.asound()
         #
         self._qstarL = self._qR.copy()
         self._qstarL.compute_from_pt_rtt_u(pt0, rtt0, self._ustar)
-- 
2.43.0


From 7f6228b7292e633cbb9284cc37cc40191f482b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:34 +0000
Subject: [PATCH 28/28] fix: shock boundary condition of the Euler operator at
 the right end (index out of bounds)

---
 aerokit/stability/Euler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index f42390c..5031883 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -205,11 +205,11 @@ class Euler1D(LinOperator):
         ip = 2 * n
         idxs = 3 * n
         # Build  At dq/dx = B.q
-        for ibc, ieq in enumerate((irho, idxs, ip)):
-            self._At[ieq + i0, :] = 0.0
-            self._B[ieq + i0, :] = 0.0
+        for ibc, ieq in enumerate((irho + i0, idxs, ip + i0)):
+            self._At[ieq, :] = 0.0
+            self._B[ieq, :] = 0.0
             # At contains only dependency on s = d(dxs)/dt : bckSh[:,1] coefs
-            self._At[ieq + i0, idxs] = -bckSh[ibc, 1]
+            self._At[ieq, idxs] = -bckSh[ibc, 1]
             # B contains dependency on dxs
             self._B[ieq, idxs] = bckSh[ibc, 0]
             # B contains dependencies on rho1m', u1m', p1m'
-- 
2.43.0

