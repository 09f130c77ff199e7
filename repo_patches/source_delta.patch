From b03fc7ab0a052f444119d99ff18dcee483f3bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 01/44] fix: ellipticPiCarlson, a NaN element no longer stops
 the iterations of the other elements

---
 wiz/elliptic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 1d7f98d..e3ad1c5 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -17,6 +17,9 @@ def ellipticPiCarlson(n,m):
     # --- Performance parameters
     RES   = 1.e-12  # 
     ITMAX = 20      # 20 iterations usually sufficient
+    def maxChange(d):
+        # NaN elements never converge, they should not stop the iterations of the others
+        return np.amax(np.where(np.isnan(d), 0, np.abs(d)))
     # --- Subfunctions RF, RJ, RC
     def ellipticRF(y = None): 
         xo = np.zeros(y.shape)
@@ -46,7 +49,7 @@ def ellipticPiCarlson(n,m):
             s13 = s12*s1
             r = 5./26 * s13 + 3./ 26 * s2 ** 2
             RF = (mu**-0.5) * (1 + s1/5 + s2/7 + s12/6 + 3/11*s1*s2 + r)
-            res = np.amax(np.abs(RF - RFo))
+            res = maxChange(RF - RFo)
             RFo = RF
             xo = xn
             yo = yn
@@ -109,7 +112,7 @@ def ellipticPiCarlson(n,m):
                 rhs1 = rhs1 + 3 * 4 ** - nIt * ellipticRC(alfa,bet)
                 rhs2 = (4**-(nIt+1) * mu**-1.5) * (1+3/7*s1 + s2/3 + 3/22*s12 + 3/11*s3 + 3/13*(s1*s2 + s4) + r)
                 RJLoc = rhs1 + rhs2
-                res = np.amax(np.abs(RJLoc - RJo))
+                res = maxChange(RJLoc - RJo)
                 RJo = RJLoc
                 xo = xn
                 yo = yn
@@ -140,7 +143,7 @@ def ellipticPiCarlson(n,m):
             s5 = s4*s
             s6 = s5*s
             RC = (mu**-0.5)*(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)
-            res = np.amax(np.abs(RC - RCo))
+            res = maxChange(RC - RCo)
             RCo = RC
             xo = xn
             yo = yn
-- 
2.43.0


From c0e81ec894b59f8173c49fc48b84863c0a1bce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 02/44] fix: vc_tang_u, axial velocity wrong by up to gamma/4
 when r is within round-off of the cylinder radius

---
 wiz/VortexCylinder.py | 4 +++-
 wiz/elliptic.py       | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d3c0836..d6d7ef9 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -116,17 +116,19 @@ def vc_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,polar_out=True,epsilon=0):
     if epsilon==0:
         k_2  = 4 * r * R / ((R + r)**2 + z**2)
         k0_2 = 4 * r * R/  ((R + r)**2       )
+        kc_2 = (R-r)**2 /  ((R + r)**2       ) # 1-k0_2, without round-off close to r=R
     else:
         epsilon2= r*0+epsilon**2
         epsilon2[z<0]=0 # No regularization when z<0 # TODO
         k_2  = 4 * r * R / ((R + r)**2 + z**2 + epsilon2)
         k0_2 = 4 * r * R/  ((R + r)**2        + epsilon2)
+        kc_2 = ((R-r)**2 + epsilon2)/((R + r)**2 + epsilon2)
     k = np.sqrt(k_2)
     EE = ellipe(k_2)
     KK = ellipk(k_2)
     #     PI = ellippi(k0_2,k_2)
     k_2 [k_2>1]=1 # Safety purely for numerical precision
-    PI = ellipticPiCarlson(k0_2,k_2)
+    PI = ellipticPiCarlson(k0_2,k_2,kc_2)
     # --- Special values
     PI[PI==np.inf]=0
     PI[r==R]=0 ; # when r==R, PI=0 TODO, check
diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index e3ad1c5..a4b663e 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -6,13 +6,14 @@ import numpy as np
 import unittest
 from scipy.special import ellipk, ellipe
 
-def ellipticPiCarlson(n,m):
+def ellipticPiCarlson(n,m,nc=None):
     """
     Elliptic integral of the third kind using the method of Carlson
         PI(n,m)=int(1/((1-n*sin(t)^2)*sqrt(1-m*sin(t)^2)),t=0,pi/2)
      AUTHOR: N. Troldborg
      REF: B.C. Carlson (1979) "Computing Elliptic Integrals by Duplication"
      NOTE: m <=1 
+     nc: complementary parameter nc=1-n, to be provided when n is close to 1, to avoid the round-off of 1-n
     """
     # --- Performance parameters
     RES   = 1.e-12  # 
@@ -157,7 +158,9 @@ def ellipticPiCarlson(n,m):
     if m.shape==(0,):
         return np.array([])
     RF = ellipticRF(1-m)
-    RJ = ellipticRJ(1-m,1-n)
+    if nc is None:
+        nc = 1-n
+    RJ = ellipticRJ(1-m,nc)
     PI = RF + 1/3*n*RJ
     return PI
     
-- 
2.43.0


From 7886ce55682d4c65e906fafbe164a0e3979babfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 03/44] fix: vc_longi_u, NaN or infinite velocity on the axis
 and at r=R

---
 wiz/VortexCylinder.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d6d7ef9..1a8d5e7 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -166,16 +166,23 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     Reference: [1,2],  in particular, equation (21) from [1]
     """
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
-    # Flattening, and dimensionless!
+    vr, vpsi, vz = np.asarray(vr), np.asarray(vpsi), np.asarray(vz)
     shape_in=vr.shape
-    m     = 4*vr*R/((vr+R)**2+vz**2)
-    m0    = 4*vr*R/((vr+R)**2)
+    u_z   = np.zeros(shape_in)
+    u_psi = np.zeros(shape_in) # NOTE: no velocity on the axis
+    bR    = vr > (EPSILON_AXIS * R)
+    r,z   = vr[bR],vz[bR]
+    m     = 4*r*R/((r+R)**2+z**2)
+    m0    = 4*r*R/((r+R)**2)
+    m[m>1]= 1 # Safety purely for numerical precision
     K     = ellipk(m)
-    PI    = ellipticPiCarlson(m0,m)
-    Ar    = (vr-R+np.abs(R-vr))/(2*np.abs(R-vr))
-    Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-(R-vr)/(R+vr)*PI)
-    u_psi = gamma_l/2*R/vr*(Ar +Az)
-    u_z = np.zeros(shape_in)
+    PI    = ellipticPiCarlson(m0,m,(R-r)**2/(r+R)**2)
+    # When r==R, the mean of both sides of the sheet is taken
+    PI[r==R]      = 0
+    K [K==np.inf] = 0
+    Ar    = (np.sign(r-R)+1)/2
+    Az    = z*np.sqrt(m)/(2*np.pi*np.sqrt(r*R))*(K-(R-r)/(R+r)*PI)
+    u_psi[bR] = gamma_l/2*R/r*(Ar +Az)
     if polar_out:
         u_r = np.zeros(shape_in)
         return (u_r,u_psi,u_z)
-- 
2.43.0


From 4ddd31d64923e246cc5fdcbde5e0e165787f6b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 04/44] fix: vc_tang_u, NaN close to the cylinder edge when the
 elliptic parameter is rounded above 1

---
 wiz/VortexCylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 1a8d5e7..e4f0792 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -123,11 +123,11 @@ def vc_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,polar_out=True,epsilon=0):
         k_2  = 4 * r * R / ((R + r)**2 + z**2 + epsilon2)
         k0_2 = 4 * r * R/  ((R + r)**2        + epsilon2)
         kc_2 = ((R-r)**2 + epsilon2)/((R + r)**2 + epsilon2)
+    k_2 [k_2>1]=1 # Safety purely for numerical precision
     k = np.sqrt(k_2)
     EE = ellipe(k_2)
     KK = ellipk(k_2)
     #     PI = ellippi(k0_2,k_2)
-    k_2 [k_2>1]=1 # Safety purely for numerical precision
     PI = ellipticPiCarlson(k0_2,k_2,kc_2)
     # --- Special values
     PI[PI==np.inf]=0
-- 
2.43.0


From d37bbab42d0e6478e853eab15a3847b7fddff3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 05/44] fix: cylinder_tang_u, NaN velocity on the axis and at
 r=R

---
 wiz/VortexCylinder.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index e4f0792..cff81e9 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -166,7 +166,7 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     Reference: [1,2],  in particular, equation (21) from [1]
     """
     EPSILON_AXIS=1e-7; # relative threshold for using axis formula
-    vr, vpsi, vz = np.asarray(vr), np.asarray(vpsi), np.asarray(vz)
+    vr, vpsi, vz = np.broadcast_arrays(vr,vpsi,vz)
     shape_in=vr.shape
     u_z   = np.zeros(shape_in)
     u_psi = np.zeros(shape_in) # NOTE: no velocity on the axis
@@ -321,26 +321,43 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
     ur = np.full(r.shape,np.nan)
     uz = np.full(r.shape,np.nan)
     ## Vectorialization
-    zz1 = Zcp - z1
-    zz2 = Zcp - z2
-    
+    zz1 = Zcp - z1 + 0*r
+    zz2 = Zcp - z2 + 0*r
+    # Axis formula
+    Iz = r < (EPSILON_AXIS * R)
+    ur[Iz] = 0
+    uz[Iz] = gamma_t/2 * (zz1[Iz]/np.sqrt(zz1[Iz]**2 + R**2) - zz2[Iz]/np.sqrt(zz2[Iz]**2 + R**2))
+    # --- From this point on, variables have the size of ~Iz..
+    bnIz = np.logical_not(Iz)
+    r   = r  [bnIz]
+    zz1 = zz1[bnIz]
+    zz2 = zz2[bnIz]
+
     # Eliptic integrals
     k1_2 = 4 * r * R / ((R + r) ** 2 + zz1 ** 2)
+    k1_2[k1_2>1] = 1 # Safety purely for numerical precision
     k2_2 = 4 * r * R / ((R + r) ** 2 + zz2 ** 2)
+    k2_2[k2_2>1] = 1 # Safety purely for numerical precision
     k1 = np.sqrt(k1_2)
     k2 = np.sqrt(k2_2)
     k0_2 = 4 * r * R / ((R + r) ** 2)
+    kc_2 = (R - r) ** 2 / ((R + r) ** 2) # 1-k0_2, without round-off close to r=R
 
     EE1 = ellipe(k1_2)
     KK1 = ellipk(k1_2)
     EE2 = ellipe(k2_2)
     KK2 = ellipk(k2_2)
-    PI1 = ellipticPiCarlson(k0_2,k1_2)
-    PI2 = ellipticPiCarlson(k0_2,k2_2)
+    PI1 = ellipticPiCarlson(k0_2,k1_2,kc_2)
+    PI2 = ellipticPiCarlson(k0_2,k2_2,kc_2)
+    # --- Special values, when r==R, see vc_tang_u
+    PI1[r==R]=0
+    PI2[r==R]=0
+    KK1[KK1==np.inf]=0
+    KK2[KK2==np.inf]=0
     # ur
-    ur = np.multiply(gamma_t / (2 * np.pi) * np.sqrt(R / r),((np.multiply((2 - k2_2) / k2,KK2) - np.multiply(2.0 / k2,EE2)) - (np.multiply((2 - k1_2) / k1,KK1) - np.multiply(2.0 / k1,EE1))))
+    ur[bnIz] = np.multiply(gamma_t / (2 * np.pi) * np.sqrt(R / r),((np.multiply((2 - k2_2) / k2,KK2) - np.multiply(2.0 / k2,EE2)) - (np.multiply((2 - k1_2) / k1,KK1) - np.multiply(2.0 / k1,EE1))))
     # uz
-    uz = np.multiply(- gamma_t / (4 * np.pi * np.sqrt(r * R)),((np.multiply(np.multiply(zz2,k2),(KK2 + np.multiply((R - r) / (R + r),PI2)))) - (np.multiply(np.multiply(zz1,k1),(KK1 + np.multiply((R - r) / (R + r),PI1))))))
+    uz[bnIz] = np.multiply(- gamma_t / (4 * np.pi * np.sqrt(r * R)),((np.multiply(np.multiply(zz2,k2),(KK2 + np.multiply((R - r) / (R + r),PI2)))) - (np.multiply(np.multiply(zz1,k1),(KK1 + np.multiply((R - r) / (R + r),PI1))))))
     if polar_out:
         return ur,uz
     else:
-- 
2.43.0


From 1351686ed13d375ff928ad7eab3610dad5f9ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 06/44] fix: root vortex (straight semi-infinite line), NaN
 velocity on its upstream extension

---
 wiz/VortexLine.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 065dca8..353b354 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -69,7 +69,7 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
        Gamma_r    : Root vortex circulation, negative for a wind turbine
        m =tan(chi): tangent of wake skew angle
     Reference: [1,2]"""
-    EPSILON_AXIS=1e-7; # relative threshold for using axis formula
+    EPSILON_AXIS=1e-4; # relative threshold for using axis formula
     if Gamma_r==0:
         return vr*0,vr*0,vr*0
     # Flattening
@@ -78,7 +78,15 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
     vpsi     = np.asarray(vpsi)
     vz       = np.asarray(vz)
 
-    u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ) 
+    # Close to the upstream axis, (1+z/a)/r is written r/(a(a-z)), to avoid round-off errors and the division by 0
+    # On the line itself (r=0,z>=0), the velocity is set to 0
+    vr, vz = np.broadcast_arrays(vr,vz)
+    a      = np.sqrt(vr**2 + vz**2)
+    Iz     = vr < -EPSILON_AXIS*vz
+    bnIz   = np.logical_not(np.logical_or(Iz, np.logical_and(vr==0, vz>=0)))
+    u_psi  = np.zeros(vr.shape)
+    u_psi[Iz  ] = Gamma_r/(4*np.pi)          * vr[Iz]/(a[Iz]*(a[Iz]-vz[Iz]))
+    u_psi[bnIz] = Gamma_r/(4*np.pi*vr[bnIz]) * ( 1 + vz[bnIz]/a[bnIz] )
 
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From b38badb54710d561d3e4056008b1cf68598dbbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 07/44] fix: vc_longi_u, keep NaN for NaN control points

---
 wiz/VortexCylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index cff81e9..7b4e633 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -170,7 +170,7 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     shape_in=vr.shape
     u_z   = np.zeros(shape_in)
     u_psi = np.zeros(shape_in) # NOTE: no velocity on the axis
-    bR    = vr > (EPSILON_AXIS * R)
+    bR    = np.logical_not(vr < (EPSILON_AXIS * R))
     r,z   = vr[bR],vz[bR]
     m     = 4*r*R/((r+R)**2+z**2)
     m0    = 4*r*R/((r+R)**2)
-- 
2.43.0


From 9b5b15198b9d780cd3dd6ae8af641384dcc3cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 08/44] fix: svc_root_u, NaN velocity upstream of a straight
 root vortex (m=0)

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d1001c9..846aa3e 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -13,10 +13,10 @@ import numpy.matlib
 # --- Local
 try:
     from .elliptic import ellipticPiCarlson, ellipe, ellipk
-    from .VortexLine import vl_semiinf_u
+    from .VortexLine import vl_semiinf_u, vl_semiinf_straight_u_polar
 except:
     from elliptic import ellipticPiCarlson, ellipe, ellipk
-    from VortexLine import vl_semiinf_u
+    from VortexLine import vl_semiinf_u, vl_semiinf_straight_u_polar
 
 # --------------------------------------------------------------------------------}
 # --- Helper function 
@@ -195,7 +195,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # --- Computes ux, uy, uz, upsi
     u_z = np.zeros(vr.shape)
     if (m == 0):
-        u_psi = np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2)))
+        _,u_psi,_ = vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r,polar_out=True)
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-- 
2.43.0


From 9d1c2b3f435bdc2f9be98c05e8fd707c664b4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 09/44] fix: svc_root_u, rotor-plane formula used for all
 control points when one of them is NaN, radial velocity not reshaped

---
 wiz/VortexCylinderSkewed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 846aa3e..6dd311d 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -199,7 +199,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-        if (np.max(np.abs(vz)) > 0):
+        if np.any(vz != 0): # NOTE: also true if some of the control points are NaN
             # need to use general formula
             u_x = np.zeros(vr.shape)
             u_y = np.zeros(vr.shape)
@@ -223,7 +223,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-        u_r   = u_x * np.cos(vpsi) + u_y * np.sin(vpsi)
+        u_r   = (u_x * np.cos(vpsi) + u_y * np.sin(vpsi)).reshape(shape_in)
         u_psi = u_psi.reshape(shape_in) 
         return (u_r,u_psi,u_z)
     else:
-- 
2.43.0


From 46c3a80abb5735c1108fd8c708d60b5cd6a2901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 10/44] fix: svc_longi_u, radial velocity in polar output was
 the tangential velocity

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 6dd311d..8af4486 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -153,7 +153,7 @@ def svc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,m=0,ntheta=180,polar_out=False):
             u_psi[i] = np.trapz((r - m*z*np.cos(psi) - np.cos(vtheta-psi))*DenInv,vtheta)
             u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)
         # Reshaping to input shape
-        u_r   =  u_psi.reshape(shape_in) 
+        u_r   =  u_r.reshape(shape_in) 
         u_psi =  u_psi.reshape(shape_in) 
         u_z   =  u_z.reshape(shape_in)   
         return (u_r,u_psi,u_z)
-- 
2.43.0


From 3a2de5411d9036210ac4bc42b8a0352470c1506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 11/44] fix: svc_u_polar, polar_out was ignored

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 8af4486..9d4ab1c 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -237,12 +237,12 @@ def svc_u_polar(vr,vpsi,vz,gamma_t,gamma_l,Gamma_r,R=1,m=0,ntheta=180,polar_out=
        - longitudinal vorticity gamma_l
        - a root vortex, Gamma_r
     """
-    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=False)
-    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=False)
+    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
+    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=False)
+    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-- 
2.43.0


From bcbde9b5a2a1db5842873e417d0736b3a5c03f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 12/44] fix: ground effect, opposite sign for the mirrored
 longitudinal and root vorticity

---
 wiz/VortexCylinder.py       | 23 +++++++++++++----------
 wiz/VortexCylinderSkewed.py |  4 +++-
 wiz/WindTurbine.py          | 12 +++++++-----
 3 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 7b4e633..aaf4065 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -273,9 +273,7 @@ def vcs_tang_u(Xcp,Ycp,Zcp,gamma_t,R,Xcyl,Ycyl,Zcyl,epsilon=0,Ground=False):
     return ux,uy,uz
     
 def vcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,Xcyl,Ycyl,Zcyl,Ground=False):
-    """ see vcs_tang_u 
-    NOTE: Longi vorticity shouldn't matter for ground effect
-    """ 
+    """ see vcs_tang_u """ 
     Xcp=np.asarray(Xcp)
     Ycp=np.asarray(Ycp)
     Zcp=np.asarray(Zcp)
@@ -286,13 +284,18 @@ def vcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,Xcyl,Ycyl,Zcyl,Ground=False):
     print('Longi. (straight) ',end='')
     for i in np.arange(nCyl):
         Xcp0,Ycp0,Zcp0=Xcp-Xcyl[i],Ycp-Ycyl[i],Zcp-Zcyl[i]
-        for j in np.arange(nr):
-            print('.',end='')
-            if np.abs(gamma_l[i,j]) > 0:
-                ux1,uy1,uz1 = vc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],polar_out=False)
-                ux = ux + ux1
-                uy = uy + uy1
-                uz = uz + uz1
+        # NOTE: the longitudinal vorticity of the mirrored cylinder has opposite sign
+        Ylist = [(1,Ycp0)]
+        if Ground:
+            Ylist.append((-1,Ycp0+2*Ycyl[i]))
+        for sgn,Y in Ylist:
+            for j in np.arange(nr):
+                print('.' if sgn==1 else 'm',end='')
+                if np.abs(gamma_l[i,j]) > 0:
+                    ux1,uy1,uz1 = vc_longi_u(Xcp0,Y,Zcp0,sgn*gamma_l[i,j],R[i,j],polar_out=False)
+                    ux = ux + ux1
+                    uy = uy + uy1
+                    uz = uz + uz1
     print('')
     return ux,uy,uz
 
diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 9d4ab1c..75fff70 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -359,7 +359,9 @@ def svcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,m,Xcyl,Ycyl,Zcyl,ntheta=180,Ground=False)
                 else:
                     print('m',end='')
                 if np.abs(gamma_l[i,j]) > 0:
-                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
+                    # NOTE: the longitudinal vorticity of the mirrored cylinder has opposite sign
+                    sgn = 1 if iy==0 else -1
+                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Y,Zcp0,sgn*gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
                     ux = ux + ux1
                     uy = uy + uy1
                     uz = uz + uz1
diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6405d68..ce963d2 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -295,11 +295,12 @@ class WindTurbine:
 
         # --- Root vortex influence
         if root and  (self.Gamma_r is not None) and self.Gamma_r!=0:
-            for Y in Ylist:
+            for iY,Y in enumerate(Ylist):
+                Gamma_r = self.Gamma_r if iY==0 else -self.Gamma_r # NOTE: opposite sign for the mirrored vortex
                 if np.abs(self.chi)>1e-7:
-                    uxc0,uyc0,uzc0 = svc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,m=m,polar_out=False)
+                    uxc0,uyc0,uzc0 = svc_root_u(Xc0,Y,Zc0,Gamma_r=Gamma_r,m=m,polar_out=False)
                 else:
-                    uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,polar_out=False)
+                    uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=Gamma_r,polar_out=False)
                 uxc += uxc0
                 uyc += uyc0
                 uzc += uzc0
@@ -331,14 +332,15 @@ class WindTurbine:
                     uyc += uyc0
                     uzc += uzc0
                 if longi and (self.gamma_l is not None) and self.gamma_l!=0 :
+                    gamma_l = self.gamma_l if iY==0 else -self.gamma_l # NOTE: opposite sign for the mirrored cylinder
                     if np.abs(self.chi)>1e-7:
                         if Model =='VC':
-                            uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=self.gamma_l,R=self.R,m=m,polar_out=False)
+                            uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=gamma_l,R=self.R,m=m,polar_out=False)
                         else:
                             raise NotImplementedError('Model '+Model + ', longi component.')
                     else:
                         if Model =='VC':
-                            uxc0,uyc0,uzc0 = vc_longi_u (Xc0,Y,Zc0,gamma_l=self.gamma_l,R=self.R    ,polar_out=False)
+                            uxc0,uyc0,uzc0 = vc_longi_u (Xc0,Y,Zc0,gamma_l=gamma_l,R=self.R    ,polar_out=False)
                         else:
                             raise NotImplementedError('Model'+Model + ', longi component.')
                     uxc += uxc0
-- 
2.43.0


From d550277afac961f0d5761b0f53676a69f26d77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 13/44] fix: WindTurbine.yaw_wind and yaw_error, NaN for
 aligned vectors when their dot product is rounded above 1

---
 wiz/WindTurbine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index ce963d2..bde5071 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -197,9 +197,9 @@ class WindTurbine:
         e_w    = u_horz/np.linalg.norm(u_horz)
         sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
         if sign==0:
-            yaw_wind = np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         else:
-            yaw_wind = sign * np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = sign * np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         return yaw_wind.ravel()[0]
 
     @property
@@ -209,7 +209,7 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
-        yaw_error=yaw_sign * np.arccos(np.dot(e_w.T,self.e_shaft_g))
+        yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1))
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From 230b18d9f0d5bdf8dd4716f48c9d015a5d47867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 14/44] fix: orth_vect, exception raised for vectors with
 components of equal magnitude

---
 wiz/WindTurbine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index bde5071..ce1d128 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -32,11 +32,12 @@ def RotMat_AxisAngle(u,theta):
 def orth_vect(u):
     """ Given one vector, returns a 3x1 orthonormal vector to it"""
     u=(u/np.linalg.norm(u)).ravel()
-    if abs(u[0])>=1/np.sqrt(3):
+    # NOTE: at least one component is above 1/sqrt(3)=0.577, up to round-off errors
+    if abs(u[0])>=1/2:
         v = np.array([[-u[1]],[u[0]] ,[0]]    )
-    elif abs(u[1])>=1/np.sqrt(3):
+    elif abs(u[1])>=1/2:
         v = np.array([[0]    ,[-u[2]],[u[1]]] )
-    elif abs(u[2])>=1/np.sqrt(3):
+    elif abs(u[2])>=1/2:
         v = np.array([[u[2]] ,[0]    ,[-u[0]]])
     else:
         raise Exception('Cannot find orthogonal vector to a zero vector: {} '.format(u))
-- 
2.43.0


From b31be8810310c6e97d7a423ce5b2e8ffdea48a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 15/44] fix: doublet_line_polar_u, axial velocity dominated by
 round-off errors close to the axis

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 348affe..8291394 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -133,7 +133,7 @@ def doublet_line_polar_u(rcp,zcp,dmz_dz, bSelfInd=False):
     ur=np.zeros(r.shape)
 
     norm2 = r**2+z**2
-    uz[bOK]  = dmz_dz/(4*np.pi) * 1/r[bOK]**2 * ( z[bOK]**3/(norm2[bOK])**(3/2) - z[bOK]/(norm2[bOK])**(1/2) )
+    uz[bOK]  =-dmz_dz/(4*np.pi) * z[bOK]          *  1/(norm2[bOK]  )**(3/2)
     uz[bZ0Rp] = 0
     uz[bR0Zm] = dmz_dz/(4*np.pi) * 1/norm2[bR0Zm]
     #uz[bR0Zp] = dmz_dz/(4*np.pi) * 1/norm2[bR0Zp] #<<< No singularity there, but we force it to 0
-- 
2.43.0


From 34606e83d3c6b2ff9d4f6bed41c5e941cbfdfcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 16/44] fix: doublet_line_u, velocity dominated by round-off
 errors close to a straight semi-infinite line

---
 wiz/VortexDoublet.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 8291394..6d9a38e 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -157,13 +157,13 @@ def doublet_line_u(Xcp,Ycp,Zcp,dmz_dz,m=0,L=np.inf):
        m          : tangent of the skew angle (0 for a straight line along z)
        L          : length of the line (on the z axis!), True length is L*\sqrt{1+m^2}
     """
-#     if m==0:
-#         vr, vpsi = np.sqrt(Xcp**2+Ycp**2), np.arctan2(Ycp,Xcp) # polar coords
-#         ur,uz=doublet_line_polar_u(vr,Zcp,dmz_dz)
-#         ux=ur*np.cos(vpsi)
-#         uy=ur*np.sin(vpsi)
-#     else:
-    if True:
+    if m==0 and L==np.inf:
+        # NOTE: the general formula is dominated by round-off errors close to the line
+        vr, vpsi = np.sqrt(Xcp**2+Ycp**2), np.arctan2(Ycp,Xcp) # polar coords
+        ur,uz=doublet_line_polar_u(vr,Zcp,dmz_dz)
+        ux=ur*np.cos(vpsi)
+        uy=ur*np.sin(vpsi)
+    else:
         ux =  np.zeros(Xcp.shape)
         uy =  np.zeros(Xcp.shape)
         uz =  np.zeros(Xcp.shape)
-- 
2.43.0


From 7bfd59a30af6ce79a41569bb9ebd1883fc018c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 17/44] fix: fKxit, analytical coefficient wrong when m is not
 0 (variable b1 overwritten by a mask)

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 75fff70..42cd125 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -435,9 +435,9 @@ def fKxit(vr,m):
         Kxit[b1] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[b1]),(np.multiply((2 - k2[b1]) / k[b1],K[b1]) - np.multiply(2.0/k[b1],E[b1])))
         Kxit[b0] = 0
     else:
-        b1 = (vr) > (EPSILON_AXIS) 
-        b0 = np.logical_not(b1)
-        Kxit[b1] = np.multiply(2*(1+m**2)*vr[b1]/(m**2*np.pi),kr2[b1]) - np.multiply(np.multiply(vr[b1],(vr[b1] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[b1]**2)),(np.multiply((b1[b1]+j2[b1]),Pi1[b1]) + np.multiply((b2[b1]-j2[b1]),Pi2[b1])))
+        bn0 = (vr) > (EPSILON_AXIS) 
+        b0 = np.logical_not(bn0)
+        Kxit[bn0] = np.multiply(2*(1+m**2)*vr[bn0]/(m**2*np.pi),kr2[bn0]) - np.multiply(np.multiply(vr[bn0],(vr[bn0] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[bn0]**2)),(np.multiply((b1[bn0]+j2[bn0]),Pi1[bn0]) + np.multiply((b2[bn0]-j2[bn0]),Pi2[bn0])))
         Kxit[b0] = 0
     # See yaw article
     chi = np.arctan(m)
-- 
2.43.0


From e43e4ebaef04d979ba4c8c5eec13ac672d5cd96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 18/44] fix: fKzt, NameError when all the formulations are
 requested

---
 wiz/VortexCylinderSkewed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 42cd125..717c959 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -489,6 +489,7 @@ def fKzt(r,m,nout=2):
         for ir,r in enumerate(vr):
             Kztnum3[ir] = 2 * r * np.sqrt(1 + m ** 2) * m / np.pi * np.trapz(np.sin(2 * vtheta) ** 2.0 / (np.multiply(np.sqrt((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2),((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2 + m ** 2 * np.sin(2 * vtheta) ** 2))),vtheta)
         # My formula Alternative form4
+        chi = np.arctan(m)
         vtheta = np.linspace(0,np.pi / 2,1000)
         for ir,r in enumerate(vr):
             Kztnum4[ir] = 2 * r / np.pi * 1 * np.sin(chi) * np.trapz(np.sin(2 * vtheta) ** 2.0 / (np.multiply(np.sqrt((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2),((r - np.cos(2 * vtheta)) ** 2 * np.cos(chi) ** 2 + np.sin(2 * vtheta) ** 2))),vtheta)
-- 
2.43.0


From b73d51bb9655bc16e107fa1b7628a91f1a6a648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 19/44] fix: vl_semiinf_u, NameError for all the vortex core
 models

---
 wiz/VortexLine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 353b354..f33ddd3 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -31,7 +31,7 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
         Kv = 1.0
     elif visc_model==1:
         # Rankine  - t<=>rc 
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         if (h < t):
             Kv = h * h / t / t
@@ -39,17 +39,17 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
             Kv = 1.0
     elif visc_model==2:
         # Lamb-Oseen  - t<=>rc
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = 1.0 - np.exp(- 1.25643 * h * h / t / t)
     elif visc_model==3:
         # Vatistas n=2  - t<=>rc */
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = h * h / np.sqrt(t ** 4 + h ** 4)
     elif visc_model==4:
         # Cut-off radius no dimensions - delta*norm(r0)^2 - t<=>delta^2
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         denominator = denominator + t * norm_r0
         Kv = 1.0
     elif visc_model==5:
-- 
2.43.0


From c92a35f93489ea2c4907103d55fe105614ff7976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 20/44] fix: ring_u_polar, linear regularization ignored the
 ring intensity and radius

---
 wiz/VortexRing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexRing.py b/wiz/VortexRing.py
index 913f879..7fd81c4 100644
--- a/wiz/VortexRing.py
+++ b/wiz/VortexRing.py
@@ -87,8 +87,8 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
             # Continuity in z
             rr= r0-epsilon/2
             zz= 0
-            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0)
-            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0)
+            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0, Gamma, r0)
+            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0, Gamma, r0)
             uz_mean = uzp+uzm
             #r_ref = 
             #Ir = rho < epsilon/2 
-- 
2.43.0


From 9d5c702bc7fd4719a25c31ecda28408efd527401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 21/44] fix: vps_u, check of the control points dimension
 compared the vortex points with themselves

---
 wiz/VortexPoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexPoint.py b/wiz/VortexPoint.py
index 556081f..e36ea4c 100644
--- a/wiz/VortexPoint.py
+++ b/wiz/VortexPoint.py
@@ -39,7 +39,7 @@ def vps_u(CP,XV,Gammas,SmoothModel=0,KernelOrder=2,SmoothParam=None):
     ncp    = CP.shape[0]
     nv     = XV.shape[0]
     ndim   = XV.shape[1]
-    ndimCP = XV.shape[1]
+    ndimCP = CP.shape[1]
     if ndim != ndimCP:
         raise Exception('Your control points and vortex point do not have the same dimension.')
 
-- 
2.43.0


From 2a3145e09a58e63bf842788a1d005796b21fb953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 22/44] fix: Solver, the continuous formulation modified the
 radial stations of the caller

---
 wiz/Solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b1a6be4..814abe3 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -78,7 +78,8 @@ def InductionsFromCirculation_VC_Cont(vr_bar,lambda_r,k,bSwirl,method='analytica
     misc={}
     # Safety
     if lambda_r[0]==0:
-        lambda_r[0]=lambda_r[1]*0.01;
+        lambda_r    = np.array(lambda_r,dtype=float) # NOTE: copy, the input is not modified
+        lambda_r[0] = lambda_r[1]*0.01;
     # --- Finding Cylinders intensities
     if method.lower()=='analytical':
         if bSwirl:
@@ -123,7 +124,8 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     r_cp     = np.asarray(r_cp).ravel()
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cp[0]==0:
-        r_cp[0]=r_cp[1]*0.5;
+        r_cp    = np.array(r_cp,dtype=float) # NOTE: copy, the input is not modified
+        r_cp[0] = r_cp[1]*0.5;
     # Non dimensional parameters
     k        = Omega*Gamma_cp/(np.pi*U0**2)
     vr_bar   = r_cp/R              
-- 
2.43.0


From 8188a278f8b4b4757ed2d0ed2491e229d2dcd14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 23/44] fix: CirculationFromPrescribedCt, the array of the
 caller was returned when there is no swirl

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 814abe3..18fef2e 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -58,7 +58,7 @@ def CirculationFromPrescribedCt(vr_bar,vCt,Lambda,bSwirl):
                 res=sciopt.minimize_scalar(lambda k:np.abs(k*(1+k/(4*lambda_r**2))-Ct), bounds=[0,1.8], method='bounded')
                 vk[ir] = res.x
     else:
-        vk = vCt
+        vk[:] = vCt # NOTE: copy
     return vk
 
 
-- 
2.43.0


From 64b998184bf91c009b5f869d05576594774b3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 24/44] fix: WakeVorticityFromCirculation_Discr, tangential
 convection velocity not dimensionless, and accounted for without swirl

---
 wiz/Solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 18fef2e..e0ee212 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -192,14 +192,14 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
         # ---  Case 1: Using k / ct to determine gamma
         # Using a_prime to correct Ct
         # Tangential convection velocity
-        if not bTanInd_k:
+        if not (bTanInd_k and bSwirl):
             ap_cyl_conv = 0 * Gamma_cp
         else:
             # Tangential convection velocity as the mean of velocity on both side of the cylinder)
             # See Equation (26) of [1]:  a'_c,i = (\Gamma_i+\Gamma_i+1)/(4 pi Omega R_i^2)
             ap_cyl_conv      = np.zeros(Gamma_cp.shape)
-            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1])**2
-            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1])**2
+            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1]**2)
+            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1]**2)
         # --- Allocation
         b           = np.zeros(n) # Cummulative sum of gamma_bar
         S           = np.zeros(n) # Term under the square root
-- 
2.43.0


From 8d4055a5ddd2aa93885d2f75d9d06318a8602cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 25/44] fix: WakeVorticityFromCirculation_Discr, local momentum
 not satisfied without swirl when the high-thrust correction is active
 outboard

---
 wiz/Solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index e0ee212..339e72a 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -232,10 +232,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
                 Cti[i]   = k_r[i]*(1+k_r[i]/(4*lambda_R[i]**2)) # Eq.(32)
             Cteff[i] = Cti[i] - Ctrot[i] #Eq.(38)
             Sbis[i] = 1 - Cteff[i]
-            if bSwirl :
-                gamma_t_bar[i] = - b[i] + np.sqrt(Sbis[i]) #Eq.(28)
-            else:
-                gamma_t_bar[i] = - b[i] + np.sqrt(S[i]) 
+            # NOTE: without high-thrust correction S and Sbis are the same when there is no swirl
+            gamma_t_bar[i] = - b[i] + np.sqrt(Sbis[i]) #Eq.(28)
 #             print('b',b,'S',S)
             if bHighThrustCorr:
                 if (Cteff[i] > Ct_c):
-- 
2.43.0


From dbfe730b0ca87bf010ff0fac522487c2bef2f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 26/44] fix: WakeVorticityFromCt, infinite tip-speed ratio
 depended on the rotor dimensions (spurious swirl for small rotors)

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 339e72a..4e74df9 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -291,7 +291,7 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
 def WakeVorticityFromCt(r,Ct,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given Ct"""
     if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
+        Omega=800*U0/R # TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
     vk=CirculationFromPrescribedCt(r/R,Ct,Lambda,bSwirl)
-- 
2.43.0


From 0e73151149907ae3a7b5c1612451c0ca570025d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 27/44] fix: WakeVorticityFromCirculation_Discr, NameError and
 debugger breakpoint instead of a warning

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 4e74df9..74b39b0 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -11,6 +11,7 @@ from __future__ import division
 from __future__ import print_function
 # --- General
 import unittest
+import warnings
 import numpy as np
 import scipy.optimize as sciopt
 import scipy.integrate as sciint
@@ -172,7 +173,6 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     # --- Checks
     if np.amax(r_cyl) < np.amax(r_cp):
         warnings.warn('Cylinders are assumed to enclose the control points')
-        import pdb; pdb.set_trace()
     if r_cyl[0] == 0:
         raise Exception('First cylinder at 0, impossible')
 
-- 
2.43.0


From 627bbb87ad57864429f698460c3f455163204668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 28/44] fix: WindTurbine, the wake skew angle was not updated
 when the wind or the yaw position changed after the first evaluation

---
 wiz/WindTurbine.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index ce1d128..03b3377 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -75,6 +75,7 @@ class WindTurbine:
                    'SS': Self similar model of Troldborg et al.  (not good close to rotor)
                    'VD': Self similar model of Troldborg et al.  (not good close to rotor)
         """
+        self.set_chi(None)
         self.set_yaw0_coord(e_shaft_yaw0,e_vert)
         self.update_position(r_hub)
         self.update_wind(U0)
@@ -86,7 +87,6 @@ class WindTurbine:
         self.Gamma_r=None
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
-        self.chi=None
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
@@ -114,12 +114,14 @@ class WindTurbine:
         self.T_wt2g  = RotMat_AxisAngle(self.e_vert_g,yaw)
         # Rotating the shaft vector so that its coordinate follow the new yaw position
         self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
+        self._reset_chi()
 
     def update_position(self,r_hub):
         self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
 
     def update_wind(self,U0_g):
         self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self._reset_chi()
 
     def update_loading(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
         """ 
@@ -242,7 +244,14 @@ class WindTurbine:
 
 
     def set_chi(self,chi):
+        """ Prescribe the wake skew angle. If None, it is determined from the wind and the yaw position """
         self.chi=chi
+        self._chi_prescribed = chi is not None
+
+    def _reset_chi(self):
+        """ The wake skew angle has to be determined again, unless it was prescribed by the user """
+        if not self._chi_prescribed:
+            self.chi=None
     
     def compute_u(self, Xg, Yg, Zg, only_ind=False, longi=False, tang=True, root=False, no_wake=False, ground=None, Model=None, R_far_field=6): 
         """ 
-- 
2.43.0


From e5743b703fad22cc2d35a5874aba6b960bcd3227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 29/44] fix: WindTurbine, skew angle of a full turn considered
 as a skewed wake

---
 wiz/WindTurbine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 03b3377..5bbf190 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -284,6 +284,8 @@ class WindTurbine:
         if self.chi is None:
             # TODO TODO chi needs induction effect!
             self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+            if np.abs(self.chi)>np.pi:
+                self.chi-= 2*np.pi*np.round(self.chi/(2*np.pi)) # NOTE: angles defined modulo 2 pi
         if self.gamma_t is None:
             raise Exception('Please set loading with `update_loading` before calling `compute_u`')
 
-- 
2.43.0


From d927797a014631deb1af895cde259c2b5cdeda20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 30/44] fix: WindTurbine, position, wind, axes and loading
 arrays were views of the arrays of the caller

---
 wiz/WindTurbine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 5bbf190..1c8f018 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -90,9 +90,9 @@ class WindTurbine:
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
+        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
         self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)
+        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
         v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
@@ -117,10 +117,10 @@ class WindTurbine:
         self._reset_chi()
 
     def update_position(self,r_hub):
-        self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
+        self.r_hub=np.array(r_hub).ravel().reshape(3,1)
 
     def update_wind(self,U0_g):
-        self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self.U0_g = np.array(U0_g).ravel().reshape(3,1)
         self._reset_chi()
 
     def update_loading(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
@@ -188,8 +188,8 @@ class WindTurbine:
         #print('Gamma_/2piR',-self.Gamma_r/(2*np.pi*self.R))
         #print(misc)
         self.Lambda=Lambda
-        self.r=r
-        self.Ct=Ct
+        self.r =None if r  is None else np.array(r)  # NOTE: copies
+        self.Ct=None if Ct is None else np.array(Ct)
 
     @property
     def yaw_wind(self):
-- 
2.43.0


From 548f07be60c69ae3ad618f414f39f8513958a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 31/44] fix: doublet_line_u, wrong integral for lines of finite
 length

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 6d9a38e..87a8a35 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -343,7 +343,7 @@ def _integrals_DL_finite(a,b,c,L):
         s=np.sign(b)
         return 3*s/(4*c*(a -s*c*x)**4)
     def i50indef_norm(a,b,c,x):
-        return ( b*(b**2 - 3*a**2*c**2) + 2*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
+        return ( b*(b**2 - 3*a**2*c**2) + 3*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
     # I51 = \int_0^L  x'   / ( a^2  - 2 b x'  + c^2 x'^2 )^(5/2) dx'
     def i51indef_sing(a,b,c,x):
         s=np.sign(b)
-- 
2.43.0


From 3d377dfd59e4882f783ec390765cb70c22ada616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 32/44] fix: colormaps made of RGB colors (no alpha) can be
 evaluated

---
 wiz/plotting_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiz/plotting_functions.py b/wiz/plotting_functions.py
index b277f3e..48a072a 100644
--- a/wiz/plotting_functions.py
+++ b/wiz/plotting_functions.py
@@ -31,7 +31,9 @@ def make_colormap(seq,values=None):
     doubled     = list(itertools.chain.from_iterable(itertools.repeat(s, 2) for s in seq))
     doubled[0]  = (None,)* nComp
     doubled[-1] = (None,)* nComp
-    cdict = {'red': [], 'green': [], 'blue': [], 'alpha':[]}
+    cdict = {'red': [], 'green': [], 'blue': []}
+    if hasAlpha:
+        cdict['alpha'] = []
     for i,v in enumerate(values):
         if hasAlpha:
             r1, g1, b1, a1 = doubled[2*i]
-- 
2.43.0


From 693a1c270394017ee2f94a8571634974f67ee59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 33/44] fix: loadPlane reads the plane of the requested CT
 (0.57*100 truncated to 56)

---
 wiz/article_blockage/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index 9107f7e..e72f5ac 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -473,7 +473,7 @@ def loadPlane(CT,HH,Lambda,Horizontal,Yaw):
     if HH>9:
         HH=9.9
 
-    base='CT0{:d}_HH{:02d}_Lambda{:02d}_Yaw{:02d}'.format(int(CT*100),int(HH*10),Lambda,-Yaw)
+    base='CT0{:d}_HH{:02d}_Lambda{:02d}_Yaw{:02d}'.format(int(round(CT*100)),int(HH*10),Lambda,-Yaw)
 
     if HH>9:
         # Handling unavailable data
-- 
2.43.0


From 2a2dbe98209f91d6e189527d9ac829efc456b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 34/44] fix: yaw_error is pi, not 0, when wind and shaft are
 opposite

---
 wiz/WindTurbine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 1c8f018..a57ae4c 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -212,6 +212,8 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
+        if yaw_sign==0:
+            yaw_sign=1 # NOTE: wind and shaft are aligned (0) or opposite (pi)
         yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1))
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
-- 
2.43.0


From 51e256fca0c882d0e1789ceb03a39f8e1b205ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:32 +0000
Subject: [PATCH 35/44] fix: vl_semiinf_straight_u_polar, lists of control
 points with zero circulation returned empty lists

---
 wiz/VortexLine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index f33ddd3..8b2329a 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -70,10 +70,10 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
        m =tan(chi): tangent of wake skew angle
     Reference: [1,2]"""
     EPSILON_AXIS=1e-4; # relative threshold for using axis formula
-    if Gamma_r==0:
-        return vr*0,vr*0,vr*0
     # Flattening
     vr       = np.asarray(vr)
+    if Gamma_r==0:
+        return vr*0,vr*0,vr*0
     shape_in = vr.shape
     vpsi     = np.asarray(vpsi)
     vz       = np.asarray(vz)
-- 
2.43.0


From d5f606769ae918a36883b6eca60e6efcc187a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 36/44] fix: WindTurbineGround example, the rotor was drawn on
 the ground instead of at hub height

---
 wiz/examples/WindTurbineGround.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/examples/WindTurbineGround.py b/wiz/examples/WindTurbineGround.py
index 06f4765..8630cbb 100644
--- a/wiz/examples/WindTurbineGround.py
+++ b/wiz/examples/WindTurbineGround.py
@@ -55,7 +55,7 @@ def main():
         Speed[Speed>U0*1.5]=U0*1.5
         im=ax.contourf(Z/R,Y/R,Speed,levels=10)#,levels=30,vmin=0,vmax=1.0)
         Rotor=WT.rotor_disk_points()
-        ax.plot(Rotor[2,:]/R,Rotor[0,:]/R,'k--')
+        ax.plot(Rotor[2,:]/R,Rotor[1,:]/R,'k--')
         cb=fig.colorbar(im)
         sp=ax.streamplot(z/R,y/R,uz.T,uy.T,color='k',linewidth=0.7,density=2)
         ax.set_xlabel('y/R [-]')
-- 
2.43.0


From f35b557245634977b085051f28f1d7a5022f90ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 37/44] fix: WakeVorticityFromGamma, infinite tip-speed ratio
 depended on the units (as already corrected in WakeVorticityFromCt)

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 74b39b0..68b4ef1 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -301,7 +301,7 @@ def WakeVorticityFromCt(r,Ct,R,U0,Omega):
 def WakeVorticityFromGamma(r,Gamma,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given circulation """
     if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
+        Omega=800*U0/R # TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
     return WakeVorticityFromCirculation_Discr(r,Gamma,R,U0,Omega,nB=1,bSwirl=bSwirl)
-- 
2.43.0


From a6dadb12251a1d7e26c96b7a0d2997f393a63092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:28 +0000
Subject: [PATCH 38/44] fix: WindTurbine, gamma_l was not initialized
 (longitudinal component of a turbine which strength is set directly)

---
 wiz/WindTurbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index a57ae4c..884d1bb 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -83,7 +83,7 @@ class WindTurbine:
         self.R=R
         self.r=None
         self.gamma_t=None
-        self.gamma_t=None
+        self.gamma_l=None
         self.Gamma_r=None
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
-- 
2.43.0


From 5311ba74b18051dcbea65e106185c632257176bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 39/44] Revert the example change of d5f6067 (examples are left
 as they are)

---
 wiz/examples/WindTurbineGround.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/examples/WindTurbineGround.py b/wiz/examples/WindTurbineGround.py
index 8630cbb..06f4765 100644
--- a/wiz/examples/WindTurbineGround.py
+++ b/wiz/examples/WindTurbineGround.py
@@ -55,7 +55,7 @@ def main():
         Speed[Speed>U0*1.5]=U0*1.5
         im=ax.contourf(Z/R,Y/R,Speed,levels=10)#,levels=30,vmin=0,vmax=1.0)
         Rotor=WT.rotor_disk_points()
-        ax.plot(Rotor[2,:]/R,Rotor[1,:]/R,'k--')
+        ax.plot(Rotor[2,:]/R,Rotor[0,:]/R,'k--')
         cb=fig.colorbar(im)
         sp=ax.streamplot(z/R,y/R,uz.T,uy.T,color='k',linewidth=0.7,density=2)
         ax.set_xlabel('y/R [-]')
-- 
2.43.0


From 7a09ee3ff3a9a813c98a555283eb14d8042f42c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:01 +0000
Subject: [PATCH 40/44] fix: vc_tang_u_doublet, Ycp given as a list or number
 raised an error while Xcp and Zcp could be

---
 wiz/VortexCylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index aaf4065..f9367df 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -32,7 +32,7 @@ def vc_tang_u_doublet(Xcp,Ycp,Zcp,gamma_t=-1,R=1,r_bar_Cut=6, polar_out=True):
     Xcp=np.asarray(Xcp)
     shape_in=Xcp.shape
     Xcp=Xcp.ravel()
-    Ycp=Ycp.ravel()
+    Ycp=np.asarray(Ycp).ravel()
     Zcp=np.asarray(Zcp).ravel()
     Rcp  = np.sqrt(Xcp ** 2 + Ycp **2)
     Rsph = np.sqrt(Rcp ** 2 + Zcp **2)
-- 
2.43.0


From 76dd617bb7cee372f53c847fb27d95b9ea69358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 41/44] fix: WakeVorticityFromCirculation_Cont/_Discr,
 misc['r_cp'] and misc['Gamma_cp'] shared the memory of the caller's arrays

---
 wiz/Solver.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 68b4ef1..0bbcac4 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -122,10 +122,9 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     Uses continuous formulation to find wake vorticity that matches a given circulation distribution
     (need to solve for pitch angle, and hence induction)
     """
-    r_cp     = np.asarray(r_cp).ravel()
-    Gamma_cp = np.asarray(Gamma_cp).ravel()
+    r_cp     = np.array(r_cp,dtype=float).ravel() # NOTE: copy, the input is not modified nor kept
+    Gamma_cp = np.array(Gamma_cp,dtype=float).ravel()
     if r_cp[0]==0:
-        r_cp    = np.array(r_cp,dtype=float) # NOTE: copy, the input is not modified
         r_cp[0] = r_cp[1]*0.5;
     # Non dimensional parameters
     k        = Omega*Gamma_cp/(np.pi*U0**2)
@@ -158,8 +157,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     """ 
     Implements discrete algorithm from [1] to find gamma_t, and the inductions
     """
-    r_cp     = np.asarray(r_cp).ravel()
-    Gamma_cp = np.asarray(Gamma_cp).ravel()
+    r_cp     = np.array(r_cp,dtype=float).ravel() # NOTE: copy, the input is not modified nor kept
+    Gamma_cp = np.array(Gamma_cp,dtype=float).ravel()
     if r_cyl is None:
         r_cyl    = np.zeros(r_cp.shape)
         if len(r_cyl)==1:
-- 
2.43.0


From 761f7da38831abbc3940a95f3a1e7fd4d8018d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 42/44] fix: ring_u and ring_u_polar, infinite velocity next to
 large rings (the neighborhood of the ring was not scaled with R in the z
 direction)

---
 wiz/VortexRing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexRing.py b/wiz/VortexRing.py
index 7fd81c4..214610b 100644
--- a/wiz/VortexRing.py
+++ b/wiz/VortexRing.py
@@ -71,7 +71,7 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
 
     # Value on the neighborhood of the ring itself..
     if epsilon==0:
-        Ir = np.logical_and(np.abs(r-r0)<(EPSILON*r0), np.abs(z)<EPSILON)
+        Ir = np.logical_and(np.abs(r-r0)<(EPSILON*r0), np.abs(z)<EPSILON*r0)
         ur[Ir]=0
         uz[Ir]=Gamma/(4*r0) # NOTE: this is arbitrary
     else:
@@ -133,11 +133,11 @@ def ring_u(Xcp,Ycp,Zcp,Gamma=-1,R=1,polar_out=True,epsilon=0):
 
     # Value on the neighborhood of the ring itself..
     if epsilon==0:
-        Ir = np.logical_and(np.abs(r-R)<(EPSILON*R), np.abs(z)<EPSILON)
+        Ir = np.logical_and(np.abs(r-R)<(EPSILON*R), np.abs(z)<EPSILON*R)
         ur[Ir]=0
         uz[Ir]=Gamma/(4*R) # NOTE: this is arbitrary
     else:
-        Ir = np.logical_and(np.abs(r-R)<(EPSILON*R), np.abs(z)<EPSILON)
+        Ir = np.logical_and(np.abs(r-R)<(EPSILON*R), np.abs(z)<EPSILON*R)
         ur[Ir]=0
         uz[Ir]=Gamma/(4*np.pi*R)*(np.log(8*R/epsilon)-1/4) # Eq 35.36 from [1]
 
-- 
2.43.0


From 721060105d3a5ac724b4843f6c9e30621c4a8a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:57 +0000
Subject: [PATCH 43/44] fix: in-plane velocity component of the
 projection-corrected planes (U and V were swapped)

---
 wiz/article_blockage/helper_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index e72f5ac..f2a410b 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -134,8 +134,8 @@ class OutputProj():
             k = np.argmin(np.abs(zslice-z0))
             self.x = np.sort(np.unique(np.round(yy.ravel(),3)))
             self.z = np.sort(np.unique(np.round(xx.ravel(),3)))
-            self.U=w[:,:,k]
-            self.V=v[:,:,k]
+            self.U=v[:,:,k]
+            self.V=w[:,:,k]
             self.W=u[:,:,k]
             self.X=yy
             self.Z=xx
@@ -147,8 +147,8 @@ class OutputProj():
             j = np.argmin(np.abs(yslice-y1))
             self.y = np.sort(np.unique(np.round(zz.ravel(),3)))
             self.z = np.sort(np.unique(np.round(xx.ravel(),3)))
-            self.U=w[:,j,:]
-            self.V=v[:,j,:]
+            self.U=v[:,j,:]
+            self.V=w[:,j,:]
             self.W=u[:,j,:]
             self.Y=zz
             self.Z=xx
-- 
2.43.0


From b88d14b563ad98191b86c13fa6832dcb3f73dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:57 +0000
Subject: [PATCH 44/44] fix: an upper speed limit given alone is used when
 drawing planes

---
 coupling_examples/helper_functions.py    | 3 ++-
 wiz/article_blockage/helper_functions.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/coupling_examples/helper_functions.py b/coupling_examples/helper_functions.py
index 76d2ae2..0b94dcb 100644
--- a/coupling_examples/helper_functions.py
+++ b/coupling_examples/helper_functions.py
@@ -62,7 +62,8 @@ def plotPlane(x,y,u,v,ax,minSpeed=None,maxSpeed=None, cmap='coolwarm', colors='w
         Speed=np.sqrt(u**2+v**2)
     if minSpeed is None:
         minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        if maxSpeed is None:
+            maxSpeed = Speed.max()
 
     if not ax:
         fig, ax = plt.subplots()
diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index f2a410b..9b838d0 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -674,7 +674,8 @@ def plotPlane(data,X=None,Y=None,Z=None,ax=None,minSpeed=None,maxSpeed=None, cma
         Speed=np.sqrt(u**2+v**2)
     if minSpeed is None:
         minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        if maxSpeed is None:
+            maxSpeed = Speed.max()
 
     if not ax:
         fig, ax = plt.subplots()
@@ -729,7 +730,8 @@ def plotPlaneVert(Y,Z,V,W,ax=None,minSpeed=None,maxSpeed=None, cmap='coolwarm',
         Speed=np.sqrt(V**2+W**2)
     if minSpeed is None:
         minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        if maxSpeed is None:
+            maxSpeed = Speed.max()
 
     if not ax:
         fig, ax = plt.subplots()
-- 
2.43.0

