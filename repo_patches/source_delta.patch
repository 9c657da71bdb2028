From cd56809d64936171ebaec6612e36a4873761d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 01/14] fix: itos_mom: add every term of the IEI_IEII recursion

The branches of recursive_IEI_IEII are the summands of one recursive
equation, but an elif chain kept only the first that applied, so joint
moments of order 3 and above with several factors lost terms.
---
 src/ajdmom/itos_mom.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index b50b491..34408c6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -515,39 +515,39 @@ def recursive_IEI_IEII(n4, n5, n6, n7, n8, IEI_IEII):
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 2, n5, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 2, n4 - 2, n5, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = Frac(n5 * (n5 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 2, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4 + 1, n5 - 2, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = n4 * n5
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 1, n6, n7, n8, IEI_IEII), 4))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
         c = Frac(n6 * (n6 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 2, n4, n5, n6 - 2, n7, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
         c = Frac(n7 * (n7 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 2, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7 - 2, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
         c = n6 * n7
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 1, n8, IEI_IEII), 8))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
         c = Frac(n8 * (n8 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 2))
-- 
2.43.0


From 5f4a5099390cb8ac5db23a47f4b89f2b60db7edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 02/14] fix: itos_mom: integrate e^{(n1*k1+n2*k2)s} when n1 =
 -n2 != 0

int_et decided n1*k1+n2*k2 == 0 from n1+n2 == 0 and so treated
e^{(k1-k2)s} as the constant 1.
---
 src/ajdmom/itos_mom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 34408c6..47465a6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -299,15 +299,15 @@ def int_et(n1, n2, m):
     kf = ['(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]']
     poly.set_keyfor(kf)
     #
-    if n1 + n2 == 0 and m == 0:
+    if n1 == 0 and n2 == 0 and m == 0:
         key = ((0, 0, 0), (0, 0), 1)
         val = 1
         poly.add_keyval(key, val)
-    elif n1 + n2 == 0 and m != 0:
+    elif n1 == 0 and n2 == 0 and m != 0:
         key = ((0, 0, 0), (0, 0), m + 1)
         val = Frac(1, m + 1)
         poly.add_keyval(key, val)
-    elif n1 + n2 != 0 and m == 0:
+    elif m == 0:
         key = ((n1, n2, 1), (n1, n2), 0)
         val = 1
         poly.add_keyval(key, val)
-- 
2.43.0


From 22ad19175361397ad1b8f94df76fb61821150a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 03/14] fix: ito_cond_mom: keep the powers of IEZ terms apart

int_e_IEZ_poly updated k6..k9 in place while looping over the terms of
the inner integral, so each term also carried the exponents of the
previous ones.
---
 src/ajdmom/ito_cond_mom.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 790585c..3a368df 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -455,17 +455,11 @@ def int_e_IEZ_poly(coef, m, poly):
             key1 = (kk[0], kk[1], kk[2] + k[2], k[3], k[4], k[5])
             # key2
             if len(k6) == 1:  # 1 summation  inside
-                k6 = (k6[0] + kk[3],)
-                k7 = (k7[0] + kk[4],)
-                key2 = (k6, k7, (), ())
+                key2 = ((k6[0] + kk[3],), (k7[0] + kk[4],), (), ())
             else:  # 2 summations inside or more
-                k8 = list(k8)
-                k8[-1] += kk[3]
-                k8 = tuple(k8)
-                k9 = list(k9)
-                k9[-1] += kk[4]
-                k9 = tuple(k9)
-                key2 = (k6, k7, k8, k9)
+                kk8 = k8[:-1] + (k8[-1] + kk[3],)
+                kk9 = k9[:-1] + (k9[-1] + kk[4],)
+                key2 = (k6, k7, kk8, kk9)
             poln.add_keyval(key1 + key2, coef * poly[k] * poly_sub[kk])
     return poln
 
-- 
2.43.0


From 33559e5d49c645064eaaae70cb025982592cdc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 04/14] fix: ito_mom: constants 0 and 1 have the documented
 7-component keys

moment_IEII returned polys with 8-component keys for orders 0 and 1,
which do not match their keyfor and cannot be decoded or multiplied.
---
 src/ajdmom/ito_mom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 56e03a4..6aa8e23 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -373,9 +373,9 @@ def moment_IEII(n3, n4, n5):
     #
     # special poly constants, analog to 0 and 1
     #
-    P0 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
+    P0 = Poly()
     P0.set_keyfor(kf)
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
     P1.set_keyfor(kf)
     #
     # n3 + n4 + n5 = 0: special case
-- 
2.43.0


From 88eebaa456814f45f8289f48aa3193769e64adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 05/14] fix: mdl_srjd.iez_cmom: pass the parameters to poly2num
 in cm

---
 src/ajdmom/mdl_srjd/iez_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_srjd/iez_cmom.py b/src/ajdmom/mdl_srjd/iez_cmom.py
index 2f9c6b6..2e94fc1 100644
--- a/src/ajdmom/mdl_srjd/iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/iez_cmom.py
@@ -40,7 +40,7 @@ def cmoment_IEZ(n):
 
 def cm(n, par):
     cmoment = cmoment_IEZ(n)
-    value = poly2num(cmoment)
+    value = poly2num(cmoment, par)
     return value
 
 
-- 
2.43.0


From 57749514a7786e5da7c1d2c30a8552c46c9cef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 06/14] fix: mdl_srjd: moment_ie(2) carries its keyfor

---
 src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py | 1 +
 src/ajdmom/mdl_srjd/cond_ie_iez_mom.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
index 88b0d4d..7ae60a4 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
@@ -92,6 +92,7 @@ def moment_ie(n):
         (2, 1, 0, 1, 0, 0, 0): Fraction(1, 2),
         (0, 1, 0, 1, 0, 0, 0): Fraction(-1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
index 40e4e79..2ed6f02 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
@@ -95,6 +95,7 @@ def moment_ie(n):
         (1, 2, 0, 0, 0, 1, 1): Fraction(-1, 1),
         (0, 2, 0, 0, 0, 1, 1): Fraction(1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
-- 
2.43.0


From bc067d0eed908ef96a987e07634a2e3d9aa78de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 07/14] fix: mdl_svcj.cond2_mom: 0-th moment has the documented
 19-component key

---
 src/ajdmom/mdl_svcj/cond2_mom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svcj/cond2_mom.py b/src/ajdmom/mdl_svcj/cond2_mom.py
index 0004178..1052f0b 100644
--- a/src/ajdmom/mdl_svcj/cond2_mom.py
+++ b/src/ajdmom/mdl_svcj/cond2_mom.py
@@ -165,7 +165,8 @@ def moments_y_to(l, J):
     #
     # special case: 0-th moment
     #
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0,
+                0, 0, 0, (0,) * len(J)): Frac(1, 1)})
     P1.set_keyfor(kf)
     moms.append(P1)  # equiv to constant 1
     #
-- 
2.43.0


From f7b5ec5f1a10a52c3a7200561309161d142e47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 08/14] fix: itos_mom: negative order raises the intended
 ValueError

---
 src/ajdmom/itos_mom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 47465a6..f03e6b6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -583,7 +583,7 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :rtype: Poly or dict of Poly
     """
     if n4 + n5 + n6 + n7 + n8 < 0:
-        raise ValueError(f'moment_IEI_IEII({n_4},{n_5},{n_6},{n_7},{n_8}) is called')
+        raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
     kf = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}',
-- 
2.43.0


From e020800693c8ba39dc5b9cffedc3e296494e5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 09/14] fix: the central moment of order 0 is 1, not the
 order-1 entry

cmoments_y_to(0) still lists orders 0 and 1, so taking the last entry
returned the first central moment for order 0.
---
 src/ajdmom/mdl_1fsv/cond_cmom.py  | 2 +-
 src/ajdmom/mdl_svcj/cond2_cmom.py | 4 ++--
 src/ajdmom/mdl_svij/cond2_cmom.py | 2 +-
 src/ajdmom/mdl_svvj/cond2_cmom.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/mdl_1fsv/cond_cmom.py b/src/ajdmom/mdl_1fsv/cond_cmom.py
index e8b06b4..0efcf8f 100644
--- a/src/ajdmom/mdl_1fsv/cond_cmom.py
+++ b/src/ajdmom/mdl_1fsv/cond_cmom.py
@@ -323,7 +323,7 @@ def cond_cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     cmoment = simplify(cmoment, tp=2)
     # ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho')
     value = poly2num(cmoment, par)
diff --git a/src/ajdmom/mdl_svcj/cond2_cmom.py b/src/ajdmom/mdl_svcj/cond2_cmom.py
index a6f21b7..61f1faa 100644
--- a/src/ajdmom/mdl_svcj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svcj/cond2_cmom.py
@@ -138,7 +138,7 @@ def cmoments_y_to(l, J):
 
 def cmoment_y(l, J):
     cmoms = cmoments_y_to(l, J)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
@@ -196,7 +196,7 @@ def cm(l, par):
     """
     J = par['jumpsize']  # list of jump sizes
     cmoments = cmoments_y_to(l, J)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     value = poly2num(cmoment, par)
     return value
 
diff --git a/src/ajdmom/mdl_svij/cond2_cmom.py b/src/ajdmom/mdl_svij/cond2_cmom.py
index 69cde99..cc04d68 100644
--- a/src/ajdmom/mdl_svij/cond2_cmom.py
+++ b/src/ajdmom/mdl_svij/cond2_cmom.py
@@ -59,7 +59,7 @@ def cmoments_y_to(l):
 
 def cmoment_y(l):
     cmoms = cmoments_y_to(l)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index be995dc..24f4b22 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -186,7 +186,7 @@ def cmoment_y(l):
     :rtype: Poly
     """
     cmoments = cmoments_y_to(l)
-    return cmoments[-1]
+    return cmoments[l]
 
 
 def classify(poly):
@@ -292,7 +292,7 @@ def cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]  # need only the last one
+    cmoment = cmoments[l]  # need only the last one
     value = poly2num(cmoment, par)
     return value
 
-- 
2.43.0


From 24fd556c94de95e84e52089bf6d52fee7a85ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 10/14] fix: mdl_svvj.cond2_cmom: classify handles missing
 summation levels

---
 src/ajdmom/mdl_svvj/cond2_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index 24f4b22..3f9c074 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -216,7 +216,7 @@ def classify(poly):
     #
     # classify
     for k, v in poly.items():
-        subpoly = subpolys[len(k[6])]
+        subpoly = subpolys[N_sum.index(len(k[6]))]
         subpoly[k[0:6] + k[10:] if len(k[6]) == 0 else k] = v
         # exclude the empty subkey (),(),(),()
     return subpolys
-- 
2.43.0


From f4be71b383459b730370f19c5c9e8da8b10e9eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 11/14] fix: mdl_srjd.euler: no time elapses before a jump at
 time 0

rSRJD divided by zero when the first jump is at time 0 or two jumps
share a time point.
---
 src/ajdmom/mdl_srjd/euler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/mdl_srjd/euler.py b/src/ajdmom/mdl_srjd/euler.py
index c9d4837..420fdaf 100644
--- a/src/ajdmom/mdl_srjd/euler.py
+++ b/src/ajdmom/mdl_srjd/euler.py
@@ -21,6 +21,7 @@ def rSRD(v0, tau, k, theta, sigma):
     :return: next sample
     :rtype: float
     """
+    if tau == 0: return v0  # such as a jump at time 0, or simultaneous jumps
     d = 4 * theta * k / (sigma ** 2)  # degrees of freedom
     c = (sigma ** 2) * (1 - math.exp(-k * tau)) / (4 * k)  # leading constant
     lmbd = v0 * math.exp(-k * tau) / c  # non-centrality parameter
-- 
2.43.0


From 3a63439964dec7917687cf08c05d2895f08562f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 12/14] fix: poly: csv title has one column per column of the
 rows

The title gained an empty column whenever the summation sub-keys were
empty or came last in keyfor, shifting num and den; an empty poly with
summation keys raised UnboundLocalError.
---
 src/ajdmom/poly.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 751155e..e031315 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -301,6 +301,7 @@ class Poly(UserDict):
             else:
                 i += 1
         # find one sub-key corresponding to 'l_{1:n}'
+        l = ()  # no sub-key at all if the poly is empty
         for k in self.keys():
             l = k[i]
             break
@@ -320,8 +321,8 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2) + ','
-            title += ','.join(self.keyfor[i + 2:]) + ',num,den\n'
+            names = list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:])
+            title = ','.join(names) + ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
@@ -336,8 +337,8 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2 + sub3 + sub4) + ','
-            title += ','.join(self.keyfor[i + 4:]) + ',num,den\n'
+            names = list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4 + list(self.keyfor[i + 4:])
+            title = ','.join(names) + ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-- 
2.43.0


From 151769c79ae48403d5dc24b5734cfcd94d0f9d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:47 +0000
Subject: [PATCH 13/14] fix: utils: multilevel_comb with one part returns a
 list of indexes

---
 src/ajdmom/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/utils.py b/src/ajdmom/utils.py
index dcf88d7..86482d6 100644
--- a/src/ajdmom/utils.py
+++ b/src/ajdmom/utils.py
@@ -73,7 +73,7 @@ def multilevel_comb(n, m, show=False):
     :return: list
     """
     if n == 1:
-        return m
+        return [[m]]
     elif n == 2:
         index = [[i, m - i] for i in range(m+1)]
         if show: print(index)
-- 
2.43.0


From 77be4bf2ad96dcc74d62acb423a9c31e1e41a174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:32 +0000
Subject: [PATCH 14/14] fix: Ito moments: any negative power raises ValueError,
 not only a negative total

---
 src/ajdmom/ito_cond_mom.py | 2 +-
 src/ajdmom/ito_mom.py      | 2 +-
 src/ajdmom/itos_mom.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 3a368df..efb94c1 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -522,7 +522,7 @@ def moment_IEII(n1, n2, n3):
        'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}').
     :rtype: Poly
     """
-    if n1 + n2 + n3 < 0:
+    if min(n1, n2, n3) < 0:
         raise ValueError(f"moment_IEII({n1},{n2},{n3}) is called!")
     #
     # IEII: a dict of conditional moments of E[IE_t^{n1}I_t^{n2}I_t^{*n3}]
diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 6aa8e23..41f876a 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -361,7 +361,7 @@ def moment_IEII(n3, n4, n5):
        'sigma_v').
     :rtype: Poly
     """
-    if n3 + n4 + n5 < 0:
+    if min(n3, n4, n5) < 0:
         raise ValueError(f"moment_IEII({n3},{n4},{n5}) is called!")
     #
     # IEII: a dict of moments of E[IE^{n3}I^{n4}I^{*n5}]
diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index f03e6b6..03eecdf 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -582,7 +582,7 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :return: poly if return_all=False else IEI_IEII
     :rtype: Poly or dict of Poly
     """
-    if n4 + n5 + n6 + n7 + n8 < 0:
+    if min(n4, n5, n6, n7, n8) < 0:
         raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
-- 
2.43.0

